"""Seeded workload generator: SELinux policy trees in the shape of refpolicy.

messy(rng, ...)    a tree that parses but is full of things the checks look at; no model of
                   what must be reported is attached (used by the metamorphic and fault oracles)
planted(rng, ...)  a tree whose modules are clean except for planted violations, with the
                   reference model of what has to be reported for it (exactly-once oracle)

Nothing here reads a clock, a hash order or the global random state.
"""

AV = {
    "file": "ioctl read write create getattr setattr lock relabelfrom relabelto append map unlink link rename execute "
            "open watch execute_no_trans entrypoint mounton",
    "dir": "ioctl read write create getattr setattr lock relabelfrom relabelto append map unlink link rename execute open "
           "watch add_name remove_name reparent search rmdir mounton",
    "lnk_file": "ioctl read write create getattr setattr lock relabelfrom relabelto append map unlink link rename",
    "sock_file": "ioctl read write create getattr setattr append unlink open",
    "fifo_file": "ioctl read write create getattr setattr append open lock",
    "chr_file": "ioctl read write create getattr setattr append open lock map",
    "blk_file": "ioctl read write create getattr setattr append open lock",
    "process": "fork signal sigkill getsched setsched transition dyntransition",
    "capability": "chown dac_override sys_admin net_admin kill",
    "unix_stream_socket": "ioctl read write create getattr setattr bind connect listen accept connectto",
    "tcp_socket": "ioctl read write create bind connect listen accept name_bind",
    "netlink_route_socket": "ioctl read write create bind nlmsg_read nlmsg_write",
    "dbus": "acquire_svc send_msg",
}
AV = {k: v.split() for k, v in AV.items()}
PERM_MACROS = [
    ("getattr_file_perms", "getattr"), ("read_file_perms", "getattr open read lock ioctl"),
    ("write_file_perms", "getattr write append lock ioctl open"), ("rw_file_perms", "open read write append getattr lock ioctl"),
    ("exec_file_perms", "getattr open map read execute ioctl execute_no_trans"), ("manage_file_perms",
     "create open getattr setattr read write append rename link unlink ioctl lock"),
    ("search_dir_perms", "getattr search open"), ("list_dir_perms", "getattr search open read lock ioctl"),
    ("add_entry_dir_perms", "getattr search open lock ioctl write add_name"),
    ("read_lnk_file_perms", "getattr read"), ("rw_fifo_file_perms", "getattr open read write append lock ioctl"),
    ("signal_perms", "signal sigkill"), ("rw_socket_perms", "ioctl read getattr write setattr append bind connect"),
    ("rw_term_perms", "getattr open read write append ioctl"), ("rw_netlink_socket_perms", "create read write nlmsg_read nlmsg_write"),
]
WORDS = ("alpha bravo cargo delta echo fable gamma hotel india jolly karma lemon mango north ocean polar quartz river "
         "sigma tango ultra vapor wheat xenon yacht zebra amber birch cedar dune ember frost grove haven").split()
LAYERS = ["apps", "services", "system", "admin", "kernel", "roles", "contrib"]
CHECK_IDS = ["C-001", "C-004", "C-005", "C-006", "C-007", "S-001", "S-002", "S-003", "S-004", "S-005", "S-006", "S-007",
             "S-008", "S-009", "S-010", "W-001", "W-002", "W-003", "W-004", "W-005", "W-006", "W-007", "W-008", "W-009",
             "W-010", "W-011", "E-002", "E-003", "E-004", "E-005", "E-006", "E-007", "E-008", "E-009", "E-010"]


class Mod:
    def __init__(self, name, layer, tag):
        self.name, self.layer = name, layer
        self.types, self.attrs, self.roles, self.rattrs, self.bools = [], [], [], [], []
        self.ifs, self.trans, self.templates, self.aliases = [], [], [], []
        self.status = "module"
        self.te, self.iff, self.fc = [], [], []


def av_file(rng, partial=False):
    out = ["# access vectors", "#"] if False else []
    out += ["common file_c", "{", "\tioctl", "\tread # comment", "}", ""]
    for c in AV:
        if rng.random() < 0.1 and partial:
            continue
        if rng.random() < 0.3:
            out += ["class %s" % c, "inherits file_c", "{"] + ["\t" + p for p in AV[c]] + ["}", ""]
        else:
            out += ["class %s" % c, "{"] + ["\t" + p for p in AV[c]] + ["}", ""]
    return "\n".join(out) + "\n"


def spt_file(rng):
    out = ["########", "# Macros", ""]
    out.append("define(`dir_file_class_set', `{ dir file_class_set }')")
    out.append("define(`file_class_set', `{ file lnk_file sock_file fifo_file chr_file blk_file }')")
    for n, p in PERM_MACROS:
        out.append("define(`%s',`{ %s }')" % (n, p))
        if rng.random() < 0.2:
            out.append("# " + n)
    out.append("# deprecated\ndefine(`old_perms',`\n\t{ read }\n\trefpolicywarn(`old_perms is deprecated')\n')")
    return "\n".join(out) + "\n"


def modules_conf(rng, mods):
    out = ["# modules", ""]
    for m in mods:
        if m.status is None:
            continue
        sep = rng.choice([" = ", "=", "  =  "])
        out.append("# Layer: %s" % m.layer)
        # a trailing blank is what every refpolicy editor leaves somewhere
        out.append(m.name + sep + m.status + rng.choice(["", " "]))
    return "\n".join(out) + "\n"


def config(rng, severity=None, disable=(), extra=""):
    sev = severity or rng.choice(["convention", "style", "warning", "error"])
    return ('severity = "%s"\n# comment\ndisable = { %s }\nenable_source = { W-010 }\nassume_users = { system_u, staff_u }\n'
            'assume_roles = { object_r, system_r }\ncustom_fc_macros = { my_fc_macro }\ncustom_te_simple_macros = { my_simple_macro }\n'
            'ordering_rules = "%s"\nordering_requires = { bool, attribute, attribute_role, type, class, role }\n'
            'ordering_requires_same_flavor = %s\n%s%s' %
            (sev, ", ".join(disable), rng.choice(["refpolicy", "refpolicy-light", "refpolicy-lax"]),
             rng.choice(["true", "false"]), rng.choice(["", "", "", "skip_checking_generated_fcs = %s\n" % rng.choice(["true", "false", "no", "Yes"])]), extra))


class Messy:
    """one messy policy"""
    def __init__(self, rng, nmods=None, tag="", words=None, strange=0.1, quiet=False):
        self.rng = rng
        self.quiet = quiet      # no exceptions
        self.tag = tag
        self.strange = strange
        self.uniq = 0
        n = nmods or (rng.choice([1, 2, 2, 3, 3, 4, 5, 7, 10]) if rng.random() < 0.99 else rng.choice([24, 48]))
        self.huge = rng.random() < 0.03      # lists, names and lines far longer than usual now and then
        names = list(words or WORDS)
        rng.shuffle(names)
        self.mods = []
        for i in range(n):
            w = names[i % len(names)] + ("" if i < len(names) else str(i))
            if self.huge and rng.random() < 0.5: w += rng.choice("xyz") * rng.choice([20, 58, 100, 200])
            m = Mod(tag + w, rng.choice(LAYERS), tag)
            m.status = rng.choice(["module", "module", "base", "off", None])
            b = m.name
            m.types = [b + "_t"] + [b + s for s in ("_exec_t", "_conf_t", "_tmp_t", "_var_t")[:rng.randrange(5)]]
            m.attrs = [b + "_domain"] if rng.random() < 0.5 else []
            m.roles = [b + "_r"] if rng.random() < 0.3 else []
            m.rattrs = [b + "_roles"] if rng.random() < 0.3 else []
            m.bools = [b + "_use_nfs"] if rng.random() < 0.4 else []
            m.aliases = [b + "_old_t"] if rng.random() < 0.25 else []
            self.mods.append(m)
        # interfaces first: names are needed by everybody
        for m in self.mods:
            for k in range(rng.randrange(5)):
                m.ifs.append(m.name + "_" + rng.choice(["read", "manage", "domtrans", "signal", "dontaudit", "rw", "stub"]) + ("_%d" % k if k else ""))
            m.ifs = list(dict.fromkeys(m.ifs))
            if rng.random() < 0.4:
                m.templates = [m.name + "_template"] + ([m.name + "_sub_template"] if rng.random() < 0.4 else [])
        # transform chains (an interface whose first statement calls a transforming one) across files
        self.chain = []
        if rng.random() < 0.6:
            k = rng.randrange(1, min(6, n + 2))
            prev = None
            for j in range(k):
                m = rng.choice(self.mods)
                nm = "%s_type%s" % (m.name, "" if j == 0 else "_%d" % j)
                if nm in m.ifs or nm in [c[1] for c in self.chain]:
                    continue
                self.chain.append((m, nm, prev))
                prev = nm
                m.trans.append(nm)
        for m in self.mods:
            self.gen_if(m)
        for m in self.mods:
            self.gen_te(m)
            self.gen_fc(m)

    # ---- symbols
    def own_type(self, m): return self.rng.choice(m.types)

    def any_type(self, m):
        r = self.rng
        x = r.random()
        if x < 0.45: return self.own_type(m)
        o = r.choice(self.mods)
        if x < 0.8: return r.choice(o.types)
        if x < 0.86 and o.attrs: return r.choice(o.attrs)
        if x < 0.9 and o.aliases: return r.choice(o.aliases)
        if x < 0.94: return "undeclared_t"
        return self.own_type(m)

    def any_role(self, m):
        o = self.rng.choice(self.mods)
        return self.rng.choice(o.roles + o.rattrs + ["system_r"])

    def any_if(self, m):
        r = self.rng
        o = r.choice(self.mods)
        pool = o.ifs + o.trans + o.templates
        if r.random() < self.strange:   # a call into a module nobody has, although its name begins like a known one
            c = o.name[:r.randrange(1, len(o.name) + 1)] + r.choice(["q", "zz", "wq"])
            return c + r.choice(["_nosuch", "_read_x", "_do"])
        if r.random() < 0.15 or not pool: return r.choice([o.name + "_unknown_call", "some_macro", "files_type"])
        return r.choice(pool)

    def perms(self, c):
        r = self.rng
        x = r.random()
        if x < 0.3: return r.choice(PERM_MACROS)[0]
        if x < 0.34: return "*"
        if x < 0.37: return "~{ read write }"
        if x < 0.42: return "bogus_perm"
        if x < 0.45: return "all_%s_perms" % c
        k = r.randrange(1, 5) if not self.huge or r.random() < 0.7 else r.choice([9, 17, 33, 70, 300])
        ps = [r.choice(AV.get(c, ["read"])) for _ in range(k)]
        if r.random() < 0.5: ps = sorted(set(ps))
        return ps[0] if len(ps) == 1 else "{ " + " ".join(ps) + " }"

    def klass(self):
        r = self.rng
        x = r.random()
        if x < 0.75: return r.choice(list(AV))
        if x < 0.82: return "bogus_class"
        if x < 0.88: return "file_class_set"
        return "{ " + " ".join(r.choice(list(AV)) for _ in range(r.randrange(1, 4))) + " }"

    def tset(self, m, self_ok=True):
        r = self.rng
        x = r.random()
        if x < 0.7: return self.any_type(m)
        if x < 0.78 and self_ok: return "self"
        if x < 0.9: return "{ " + " ".join(self.any_type(m) for _ in range(r.randrange(1, 4) if not self.huge or r.random() < 0.6 else r.choice([9, 17, 65, 300]))) + " }"
        if x < 0.95: return "{ " + self.any_type(m) + " -" + self.any_type(m) + " }"
        return "~" + self.any_type(m) if x < 0.98 else "*"

    def dis(self):
        r = self.rng
        if r.random() > 0.08 or self.quiet: return ""
        return " #selint-disable:" + r.choice([" ", ""]) + ", ".join(r.choice(CHECK_IDS) for _ in range(r.randrange(1, 4)))

    # ---- statements
    def rule(self, m, args=0):
        r = self.rng
        t = (lambda: "$%d" % r.randrange(1, args + 1) if args and r.random() < 0.4 else self.tset(m))
        s = (lambda: "$%d" % r.randrange(1, args + 1) if args and r.random() < 0.5 else self.tset(m, False))
        x = r.random()
        c = self.klass()
        c0 = c.strip("{ }").split()[0]
        if x < 0.55:
            return "%s %s %s:%s %s;" % (r.choice(["allow"] * 5 + ["auditallow", "dontaudit", "neverallow"]), s(), t(), c, self.perms(c0))
        if x < 0.6:
            return "%s %s %s:%s ioctl %s;" % (r.choice(["allowxperm", "dontauditxperm", "auditallowxperm", "neverallowxperm"]), s(), t(), "file",
                                             r.choice(["0x1234", "{ 0x10 - 0x20 0x5 }", "~{ 0x1 }", "FIONREAD"]))
        if x < 0.7:
            ps = sorted(set(r.choice(AV["file"]) for _ in range(3)))
            return "allow %s %s:file { %s };" % (s(), t(), " ".join(ps))
        if x < 0.76:
            tgt = self.own_type(m)
            return "type_transition %s %s:%s %s%s;" % (s(), self.any_type(m), r.choice(["file", "process", "{ dir file }"]), tgt,
                                                       r.choice(["", ' "name.%d~"' % r.randrange(9)]))
        if x < 0.79: return "%s %s %s:%s %s;" % (r.choice(["type_member", "type_change"]), self.any_type(m), self.any_type(m), "dir", self.own_type(m))
        if x < 0.82: return "range_transition %s %s:process %s;" % (self.any_type(m), self.any_type(m), r.choice(["s0", "s0 - s15:c0.c1023", "mls_systemhigh"]))
        if x < 0.85: return "role_transition %s %s %s;" % (self.any_role(m), self.any_type(m), self.any_role(m))
        if x < 0.87: return "allow %s %s;" % (self.any_role(m), self.any_role(m))
        if x < 0.9: return "role %s types %s;" % (self.any_role(m), r.choice([self.any_type(m), "{ %s %s }" % (self.any_type(m), self.any_type(m))]))
        if x < 0.93: return "typeattribute %s %s;" % (self.any_type(m), ", ".join(r.choice(self.mods).name + "_domain" for _ in range(r.randrange(1, 3))))
        if x < 0.95: return "roleattribute %s %s;" % (self.any_role(m), r.choice(self.mods).name + "_roles")
        if x < 0.97: return "permissive %s;" % self.any_type(m)
        return "typebounds %s %s;" % (self.any_type(m), self.any_type(m))

    def call(self, m, args=0, pool=None):
        r = self.rng
        f = pool or self.any_if(m)
        if f.endswith("_template"):
            # a symbol is declared in one place only: what two files declare has no owner to speak of
            self.uniq += 1
            return "%s(%s_u%d%s)" % (f, m.name, self.uniq, r.choice(["", "", ", " + self.any_type(m)]))
        a = []
        for _ in range(r.choice([1, 1, 1, 2, 2, 3]) if not self.huge or r.random() < 0.7 else r.choice([9, 11, 17, 40])):
            x = r.random()
            if args and x < 0.4: a.append("$%d" % r.randrange(1, args + 1))
            elif x < 0.75: a.append(self.any_type(m))
            elif x < 0.8: a.append("`'")
            elif x < 0.85: a.append('"str.%d"' % r.randrange(10))
            elif x < 0.9: a.append("{ %s %s }" % (self.any_type(m), self.any_type(m)))
            elif x < 0.94: a.append("%s %s" % (self.any_type(m), self.any_type(m)))
            else: a.append("`%s'" % self.any_type(m))
        if r.random() < 0.05: return f + "()"
        return "%s(%s)" % (f, ", ".join(a))

    def require(self, m, ind, own=True, args=0):
        r = self.rng
        d = []
        for _ in range(r.randrange(1, 4)):
            x = r.random()
            o = m if (own and r.random() < 0.8) else r.choice(self.mods)
            if x < 0.6: d.append("type %s;" % ", ".join(r.choice(o.types) for _ in range(r.choice([1, 1, 2]))))
            elif x < 0.7 and o.attrs: d.append("attribute %s;" % o.attrs[0])
            elif x < 0.8 and o.roles: d.append("role %s;" % o.roles[0])
            elif x < 0.85 and o.rattrs: d.append("attribute_role %s;" % o.rattrs[0])
            elif x < 0.9 and o.bools: d.append("bool %s;" % o.bools[0])
            elif x < 0.95: d.append("class %s { read write };" % r.choice(["file", "dir"]))
            else: d.append("type nowhere_%s_t;" % r.choice("abc"))
        d = [ind + "\t" + x + self.dis() for x in d]
        if r.random() < 0.06: d = [ind + "\t# nothing"]
        x = r.random()
        if r.random() < 0.06: return [ind + "gen_require(`"] + d + [ind + "')", ind + "require {", ind + "\t# type x_t;", ind + "}", ind + "gen_require(`"] + d + [ind + "')"]
        if x < 0.8: return [ind + "gen_require(`"] + d + [ind + "')"]
        if x < 0.9: return [ind + "gen_require("] + d + [ind + ")"]
        if x < 0.94: return [ind + "gen_require(`", ind + "\tifdef(`foo',`"] + d + [ind + "\t')"] + d[:1] + [ind + "')"]
        return [ind + "require {"] + d + [ind + "}"]

    def body(self, m, n, depth, args=0, ind="", inif=False):
        r = self.rng
        out = []
        for _ in range(n):
            x = r.random()
            if x < 0.5 or depth >= 3:
                out.append(ind + self.rule(m, args) + self.dis())
            elif x < 0.72: out.append(ind + self.call(m, args) + self.dis())
            elif x < 0.77:
                els = ["',`"] + self.body(m, 1, depth + 1, args, ind + "\t") if r.random() < 0.3 else []
                out += [ind + "optional_policy(`"] + self.body(m, r.randrange(0, 3), depth + 1, args, ind + "\t")
                if els and not out[-1].endswith("(`"): out += [ind + els[0]] + els[1:]
                out.append(ind + "')")
            elif x < 0.8:
                b = r.choice(r.choice(self.mods).bools or ["some_bool"])
                cond = r.choice([b, "!" + b, "%s && some_bool" % b, "( %s || other_bool )" % b])
                if r.random() < 0.5:
                    out += [ind + "tunable_policy(`%s',`" % cond] + self.body(m, r.randrange(1, 3), depth + 1, args, ind + "\t") + [ind + "')"]
                else:
                    out += [ind + "if (%s) {" % cond] + self.body(m, r.randrange(1, 3), depth + 1, args, ind + "\t")
                    if r.random() < 0.4: out += [ind + "} else {"] + self.body(m, 1, depth + 1, args, ind + "\t")
                    out += [ind + "}"]
            elif x < 0.84:
                out += [ind + "%s(`distro_%s',`" % (r.choice(["ifdef", "ifndef"]), r.choice(["redhat", "debian"]))] + \
                    self.body(m, r.randrange(1, 3), depth + 1, args, ind + "\t")
                if r.random() < 0.3: out += [ind + "',`"] + self.body(m, 1, depth + 1, args, ind + "\t")
                out += [ind + "')"]
            elif x < 0.86: out += [ind + "ifelse(`$1',`foo',`"] + self.body(m, 1, depth + 1, args, ind + "\t") + [ind + "')"]
            elif x < 0.88: out += [ind + "userdebug_or_eng(`"] + self.body(m, 1, depth + 1, args, ind + "\t") + [ind + "')"]
            elif x < 0.9: out.append(ind + "refpolicywarn(`this is deprecated, use other() instead.')")
            elif x < 0.92: out.append(ind + ";")
            elif x < 0.94: out.append(ind + r.choice(["stray_word", "my_simple_macro", "stray_word2"]) + self.dis())
            elif x < 0.96: out.append(ind + "# a comment " + r.choice(WORDS) * (1 if not self.huge else r.choice([1, 60, 300, 3000])))
            elif x < 0.98: out += self.require(m, ind, False, args)
            elif x < 0.99 and not inif and depth == 0: out.append(ind + "dnl m4 comment")
            else: out.append(ind + "define(`my_macro',`{ read write }')")
        return out

    def gen_if(self, m):
        r = self.rng
        L = []
        if r.random() < 0.9: L.append("## <summary>%s policy</summary>" % m.name)
        todo = [("interface", i, None) for i in m.ifs] + [("template", t, None) for t in m.templates]
        todo += [("interface", nm, prev) for (o, nm, prev) in self.chain if o is m]
        r.shuffle(todo)
        for kind, name, prev in todo:
            if r.random() < 0.8:
                L += ["########################################", "## <summary>", "##\tDoes %s." % name, "## </summary>", "#"]
            L.append("%s(`%s',`%s" % (kind, name, self.dis()))
            if name in m.trans:
                req = r.random() < 0.6
                if req: L += ["\tgen_require(`", "\t\tattribute %s_domain;" % m.name, "\t')"]
                if prev is None:
                    L.append("\ttypeattribute $1 %s_domain;" % m.name)
                else:
                    L.append("\t%s($1)" % prev)
                if r.random() < 0.3: L += self.body(m, 1, 1, 1, "\t", True)
            else:
                if r.random() < 0.8: L += self.require(m, "\t", True, 2)
                if kind == "template":
                    L.append("\ttype $1_%s_t;" % m.name)
                    if r.random() < 0.5: L.append("\ttype %s_$1_t, %s_domain;" % (m.name, m.name))
                    if r.random() < 0.3: L.append("\trole $1_%s_r;" % m.name)
                    others = [t for o in self.mods for t in o.templates if t.endswith("_sub_template")]
                    if others and not name.endswith("_sub_template") and r.random() < 0.7:
                        L.append("\t%s($1)" % r.choice(others))
                elif r.random() < 0.06:
                    L.append("\ttype %s_decl_in_if_t;" % name)
                L += self.body(m, r.randrange(1, 5), 1, 2, "\t", True)
            L += ["')", ""]
        if not todo:
            L = [x for x in L if x.startswith("#")]
        m.iff = L

    def gen_te(self, m):
        r = self.rng
        L = []
        if r.random() < 0.3: L += ["# %s" % m.name]
        hn = m.name if r.random() < 0.95 else m.name + "x"
        L.append("policy_module(%s, 1.%d.0)" % (hn, r.randrange(9)) if r.random() < 0.9 else "module %s 1.0;" % hn)
        L += ["", "########################################", "#", "# Declarations", "#", ""]
        dec = []
        for a in m.attrs: dec.append("attribute %s;" % a)
        for a in m.rattrs: dec.append("attribute_role %s;" % a)
        for a in m.roles: dec.append("role %s;" % a)
        for b in m.bools: dec.append(r.choice(["bool %s;", "gen_tunable(%s, false)", "gen_bool(%s, true)", "gen_tunable(`%s', true)"]) % b)
        for i, t in enumerate(m.types):
            at = ", " + r.choice(self.mods).name + "_domain" if r.random() < 0.2 else ""
            al = " alias %s" % m.aliases[0] if i == 0 and m.aliases and r.random() < 0.5 else ""
            dec.append("type %s%s%s;" % (t, al, at) + self.dis())
            if i == 0 and m.aliases and not al: dec.append("typealias %s alias { %s };" % (t, m.aliases[0]))
            for c in self.chain:
                if r.random() < 0.3: dec.append("%s(%s)" % (c[1], t))
        if r.random() < 0.1 and self.mods[0].ifs: dec.append("type %s;" % self.mods[0].ifs[0]) if m is self.mods[0] else None
        if r.random() < 0.3: r.shuffle(dec)
        L += dec + [""]
        temps = [t for o in self.mods for t in o.templates]
        for t in temps:
            if r.random() < 0.4:
                self.uniq += 1
                L.append("%s(%s_%s%d)" % (t, m.name, r.choice(WORDS), self.uniq))
        L += ["########################################", "#", "# Local policy", "#", ""]
        L += self.body(m, r.randrange(1, 14), 0)
        if r.random() < 0.2: L += self.require(m, "", False)
        if r.random() < 0.15:
            L += ["genfscon proc /%s gen_context(system_u:object_r:%s,s0)" % (m.name, m.types[0]),
                  "sid %s gen_context(system_u:object_r:%s,s0)" % (m.name, m.types[0]),
                  "portcon tcp 80 gen_context(system_u:object_r:%s,s0)" % m.types[0],
                  "netifcon lo gen_context(system_u:object_r:a_t,s0 - s15) gen_context(system_u:object_r:b_t,s0)",
                  "nodecon 127.0.0.1 255.255.255.255 gen_context(system_u:object_r:system_t:s0)",
                  "fs_use_xattr ext4 gen_context(system_u:object_r:fs_t,s0);",
                  "gen_user(%s_u,, staff_r sysadm_r, s0, s0 - mls_systemhigh, mcs_allcats)" % m.name]
        m.te = L

    def gen_fc(self, m):
        r = self.rng
        L = []
        for _ in range(r.choice([0, 1, 2, 3, 5, 9])):
            x = r.random()
            t = self.any_type(m)
            p = ("/long" * r.choice([10, 60, 300, 900]) if self.huge and r.random() < 0.3 else "") + r.choice(["/usr/bin/%s", "/etc/%s(/.*)?", "/var/%s.conf", "/opt/%s\\.d/.*", "/x/[a.b]+/%s", "/y+/%s", "HOME_DIR/\\.%s"]) % m.name
            o = r.choice(["\t--", "\t-d", "\t-l", "", ""])
            u = r.choice(["system_u"] * 8 + ["bad_u"])
            ro = r.choice(["object_r"] * 8 + ["bad_r"])
            if x < 0.6: L.append("%s%s\tgen_context(%s:%s:%s,s0)" % (p, o, u, ro, t))
            elif x < 0.68: L.append("%s%s\tgen_context(%s:%s:%s,s0,c0)" % (p, o, u, ro, t))
            elif x < 0.76: L.append("%s%s\tgen_context(%s:%s:%s)" % (p, o, u, ro, t))
            elif x < 0.82: L.append("%s%s\t<<none>>" % (p, o))
            elif x < 0.86: L.append("%s%s\t%s:%s:%s:s0" % (p, o, u, ro, t))
            elif x < 0.9: L.append("broken line" if r.random() < 0.5 else "%s -x- foo" % p)
            elif x < 0.94: L += ["ifdef(`distro_debian',`", "%s gen_context(system_u:object_r:%s,s0)" % (p, t), "')"]
            elif x < 0.97: L.append("my_fc_macro(%s)" % m.name)
            else: L += ["# comment", ""]
        m.fc = L

    def files(self, root, layers=True, nl=True):
        """{path: node}; nl: whether every file ends with a newline"""
        r = self.rng
        out = {}
        for m in self.mods:
            d = root + ("/" + m.layer if layers else "")
            ext = [("te", m.te), ("if", m.iff), ("fc", m.fc)]
            for e, L in ext:
                if e == "fc" and not L and r.random() < 0.5: continue
                c = "\n".join(L) + ("\n" if L else "")
                out["%s/%s.%s" % (d, m.name, e)] = ["f", c]
        if r.random() < 0.08:           # generated by the build of the policy
            every = [m.fc for m in self.mods]
            for _ in range(r.choice([1, 2, 3])):
                L = r.choice(every + [sum(every, [])])
                out["%s/%s/%s" % (root, r.choice(["tmp", "gen", "z"]), r.choice(["base.fc", "all_mods.fc", "%s.mod.fc" % r.choice(self.mods).name]))] = ["f", "\n".join(L) + "\n"]
        return out


def support(rng, mods, root):
    return {root + "/flask/access_vectors": ["f", av_file(rng)],
            root + "/support/obj_perm_sets.spt": ["f", spt_file(rng)],
            root + "/modules.conf": ["f", modules_conf(rng, mods)]}


def kernel_classes(rng):
    out = {}
    for c in AV:
        out["/sys/fs/selinux/class/%s/index" % c] = ["f", "1\n"]
        for p in AV[c]:
            out["/sys/fs/selinux/class/%s/perms/%s" % (c, p)] = ["f", "1\n"]
    return out

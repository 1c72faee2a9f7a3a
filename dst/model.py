"""Reference model of symbol resolution: policies whose every line knows what has to be reported for it.

Planted builds modules out of statements that are clean or break exactly the named rules, and
records (file, line, check id, name) for each expected finding.  What a symbol is, and to which
module it belongs, follows from the documentation of the checks alone (README, check_examples.txt):
declared in a .te file or by a template call there, in any scanned or context file.
"""
import re
import gen

MODELLED = {"C-004", "C-007", "S-001", "S-002", "S-003", "S-004", "S-005", "S-006", "S-007", "S-008", "W-001", "W-002", "W-003", "W-004", "W-005",
            "W-006", "W-007", "W-008", "W-009", "W-010", "W-011", "E-002", "E-003", "E-004", "E-005", "E-006", "E-007", "E-008", "E-009", "E-010"}
SPT = "define(`rw_thing_perms',`{ read write }')\ndefine(`use_things_perms',`{ lock unlink rename }')\n"


ABBREVIATED = {"filesystem": "fs", "corecommands": "corecmd", "terminal": "term", "devices": "dev", "authlogin": "auth", "sysnetwork": "sysnet"}

# statements that refer to a type or attribute {S}; {T} is a type of the module (or $1), {N} a new name
AV_SAME = ["allow {T} {S}:file getattr;", "allow {S} {T}:file getattr;", "auditallow {T} {S}:dir getattr;", "neverallow {S} {T}:file read;", "dontaudit {T} {S}:file write;",
           "allowxperm {T} {S}:file ioctl 0x1234;", "dontauditxperm {S} {T}:chr_file ioctl {{ 0x1 0x2-0x5 }};"]
TA = AV_SAME * 2 + [
    "dontaudit {T} {{ undeclared_t {S} }}:dir getattr;", "allow {{ {S} -{T} }} self:file getattr;", "allow {{ {T} -{S} }} self:file getattr;", "neverallow ~{S} self:file write;",
    "neverallow ~{{ {T} {S} }} self:file write;", "neverallow * {S}:file write;", "allow {{ {T} undeclared_t {S} }} self:file read;",
    "type_transition {T} {S}:file {T};", "type_transition {S} {T}:process {T};", "type_transition {T} undeclared_t:file {S};", 'type_transition {T} {S}:file {T} "name";',
    "type_member {T} {S}:dir {T};", "type_change {T} undeclared_t:chr_file {S};", "range_transition {T} {S}:process s0;", "range_transition {S} {T}:process s0 - s0;",
    "role_transition nobody_r {S} other_r;", "role_transition nobody_r {S}:process other_r;", "role nobody_r types {S};", "role nobody_r types {{ {T} {S} }};",
    "permissive {S};", "typeattribute {T} {S};", "typeattribute {S} undeclared_attr;", "typeattribute {T} undeclared_attr, {S};",
    "some_pattern({T}, {S})", "some_pattern({S}, {T}, x)", "some_pattern({T}, {{ {T} {S} }})", "some_pattern({T}, `{S}')"]
RO = ["roleattribute nobody_r {S};", "roleattribute {S} undeclared_roles;", "allow nobody_r {S};", "allow {S} nobody_r;", "allow {{ nobody_r {S} }} other_r;", "allow nobody_r {{ other_r {S} }};",
      "role {S} types {T};", "role_transition {S} {T} other_r;", "role_transition nobody_r {T} {S};"]


WRAPS = [("ifdef(`x',`", "')"), ("ifndef(`x',`", "')"), ("optional_policy(`", "')"), ("tunable_policy(`a',`", "')")]


def m4(s, args):
    for k in (3, 2, 1): s = s.replace("$%d" % k, args[k - 1] if k <= len(args) else "")
    return s


class M:
    pass


class Planted:
    def __init__(self, rng, n=None, simple_macros=False):
        self.rng = rng
        self.exp = []               # (basename, line, id, word)
        pick = lambda l, must: {x for x in l if rng.random() < (0.85 if x in must else 0.4)}
        self.conf = bool(simple_macros)
        self.users = pick(["system_u", "staff_u", "other_u"], ["system_u"]) if self.conf else {"system_u"}
        self.assumed_roles = pick(["object_r", "system_r", "staff_r"], ["object_r"]) if self.conf else {"object_r"}
        self.fcmacros = pick(["my_fc_macro", "my_fc", "fcm"], []) if self.conf else set()
        self.skip = not self.conf or rng.random() < 0.5     # S-002 in generated files
        self.simple = pick(["my_simple_macro", "two_macro", "sm"], []) if self.conf else set()
        self.uniq = 0
        n = n or rng.choice([1, 2, 3, 4, 6, 9])
        self.huge = rng.random() < 0.04
        if self.huge and rng.random() < 0.3: n = 30
        ws = rng.sample(gen.WORDS, n)
        if n > 1:
            for w in rng.sample(["kernel", "domain"] + list(ABBREVIATED), rng.choice([0, 0, 1, 2])): ws[rng.randrange(n)] = w
            ws = list(dict.fromkeys(ws))
        if self.huge: ws = [w + rng.choice("xyz") * rng.choice([20, 58, 100, 200]) if w in gen.WORDS and rng.random() < 0.3 else w for w in ws]
        self.mods = []
        for w in ws:
            m = M()
            m.name = w if rng.random() < 0.8 else w[0] if not any(x.name == w[0] for x in self.mods) else w
            m.layer = rng.choice(gen.LAYERS)
            m.status = rng.choice(["module", "module", "base", "off", None])
            b = m.name
            m.types = [b + s for s in ["_t", "_exec_t", "_conf_t", "_var_lib_t"][:rng.randrange(1, 5)]]
            m.attrs = [b + "_domain"] if rng.random() < 0.6 else []
            m.roles = [b + "_r"] if rng.random() < 0.5 else []
            m.rattrs = [b + "_roles"] if rng.random() < 0.4 else []
            m.bools = [b + "_use_x"] if rng.random() < 0.4 else []
            m.aliases = [b + "_old_t"] if rng.random() < 0.4 else []
            m.ifs = [b + "_" + v for v in rng.sample(["read", "manage", "domtrans", "signal", "rw", "run_all", "stub", "x_stub"], rng.randrange(4))]
            m.temps = [b + "_template"] if rng.random() < 0.4 else []
            m.made, m.mattrs, m.mroles = [], [], []     # what its template calls declare
            m.tdecl = {}
            for t in m.temps:       # what a call of the template declares
                pat = rng.choice(["$1_%s_t", "$1_%s_t", "$1_%s_t", "%s_$1_t", "$1_$2_%s_t", "$1_%s_$1_t", "$2_%s_t"])
                m.tdecl[t] = [("type", pat % b)] + ([("attribute", "$1_%s_attr" % b)] if rng.random() < 0.3 else []) + ([("role", "$1_%s_r" % b)] if rng.random() < 0.3 else [])
            m.files = {}
            self.mods.append(m)
        # templates may call each other's, in one direction only
        self.temps = [(m, t) for m in self.mods for t in m.temps]
        rng.shuffle(self.temps)
        self.sub = {}
        for i, (m, t) in enumerate(self.temps):
            if i and rng.random() < 0.5: self.sub[t] = self.temps[rng.randrange(i)][1]
        self.subargs = {t: rng.choice([["$1", "$2"], ["$1", "$2"], ["$1_in", "$2"], ["$2", "$1"], ["$1_mid", "$1_mid2"], ["$1$2", "$2"]]) for t in self.sub}
        self.of = {t: m for m, t in self.temps}
        # a declaration that clashes with an interface somewhere
        self.clash = {}
        for m in self.mods:
            if rng.random() < 0.15:
                o = rng.choice(self.mods)
                if o.ifs + o.temps:
                    c = rng.choice(o.ifs + o.temps)
                    if c not in self.clash.values(): self.clash[m] = c
        self.known = {m.name for m in self.mods if m.status}
        # template calls first: what they declare is used everywhere
        for m in self.mods:
            m.tcalls = []
            for _ in range(rng.choice([0, 0, 1, 2])):
                if not self.temps: break
                t = rng.choice(self.temps)[1]
                self.uniq += 1
                args = ["%s_u%d" % (m.name, self.uniq), "%s_v%d" % (m.name, self.uniq)] + ["third"] * (rng.random() < 0.2)
                m.tcalls.append((t, args))
                while t:
                    for k, pat in self.of[t].tdecl[t]: {"type": m.made, "attribute": m.mattrs, "role": m.mroles}[k].append(m4(pat, args))
                    args = [m4(a, args) for a in self.subargs.get(t, [])]
                    t = self.sub.get(t)
        for m in self.mods:
            self.te(m)
            self.iff(m)
            self.fc(m)
        self.generated = {}
        if rng.random() < 0.15:
            g = M()
            g.name, g.files = "gen", {}
            g.types = g.aliases = g.made = []
            for f in rng.sample(["base.fc", "all_mods.fc", rng.choice(self.mods).name + ".mod.fc"], rng.choice([1, 2])):
                self.fc(g, f)
                self.generated[f] = self.cur

    # ---- lookups
    def others(self, m): return [o for o in self.mods if o is not m]

    def foreign(self, m, what):
        c = [(o, s) for o in self.others(m) for s in what(o)]
        return self.rng.choice(c) if c else None

    @staticmethod
    def alltypes(o): return o.types + o.aliases + o.made

    def own(self, m): return self.rng.choice(m.types)

    @staticmethod
    def allattrs(o): return o.attrs + o.mattrs

    def prefix_known(self, call):
        parts = call.split("_")
        full = {v: k for k, v in ABBREVIATED.items()}
        return any(p in self.known or full.get(p) in self.known for p in ("_".join(parts[:i]) for i in range(1, len(parts))))

    def ifowner(self, c):
        for o in self.mods:
            if c in o.ifs or c in o.temps: return o
        return None

    def callexp(self, m, c, opt):
        """what a call of c is worth, its arguments aside"""
        o = self.ifowner(c)
        e = []
        if o is None:
            if self.prefix_known(c) and c not in ("domain_transition_pattern", "domain_auto_transition_pattern"): e.append(("W-010", c))
        elif o is not m and o.status in ("module", "off") and opt is not True: e.append(("W-005" if o.status == "module" and not opt else "?W-005", c))
        return e

    # ---- files
    def begin(self, m, ext):
        self.cur = []
        self.file = m.name + "." + ext

    def put(self, line, *exp):
        if self.huge and "undeclared_t" in line and "{" in line and line[:1] != "#" and self.rng.random() < 0.5:      # a long list
            line = re.sub(r"(\{[^{}]*)\bundeclared_t\b", lambda g: g.group(1) + " ".join("undeclared%d_t" % k for k in range(self.rng.choice([9, 17, 65, 300]))), line)
        self.cur.append(line)
        for i, w in exp: self.exp.append((self.file, len(self.cur), i, w))

    def noise(self):
        r = self.rng
        if r.random() < 0.3:
            for l in r.choice([[""], ["# comment"], ["", "########", "#", "# Local", "#", ""], ["\t"], ["# " + "x" * r.choice([60, 300, 5000])]]): self.put(l)

    def te(self, m):
        r = self.rng
        self.begin(m, "te")
        for _ in range(r.choice([0, 0, 2])): self.put("# head")
        hn = m.name if r.random() < 0.93 else m.name + "x"
        w9 = [] if hn == m.name else [("W-009", hn)]
        if r.random() < 0.93: self.put("policy_module(%s, 1.0)" % hn, *w9)
        else: self.put("module %s 1.0;" % hn, ("S-006", ""), *w9)
        self.put("")
        decl = [("type %s;" % t, []) for t in m.types] + [("attribute %s;" % a, []) for a in m.attrs] + [("attribute_role %s;" % a, []) for a in m.rattrs]
        decl += [("role %s;" % a, []) for a in m.roles] + [(r.choice(["bool %s;", "gen_bool(%s, false)", "gen_tunable(%s, true)"]) % b, []) for b in m.bools]
        if m.aliases and r.random() < 0.5:      # declared along with its type
            decl[0] = ("type %s alias %s%s;" % (m.types[0], r.choice([m.aliases[0], "{ %s_older_t %s }" % (m.name, m.aliases[0])]), r.choice(["", ", undeclared_attr"])), [])
        else: decl += [("typealias %s alias %s;" % (m.types[0], a), []) for a in m.aliases]
        decl += [("%s(%s)" % (t, ", ".join(a)), self.callexp(m, t, False)) for t, a in m.tcalls]
        if m in self.clash: decl.append((r.choice(["type %s;", "attribute %s;", "role %s;"]) % self.clash[m], [("E-006", self.clash[m])]))
        f = self.foreign(m, lambda o: o.attrs)
        if f and r.random() < 0.3:
            self.uniq += 1
            decl.append((r.choice(["type %s_new%d_t, %s;", "type %s_new%d_t, undeclared_attr, %s;", "type %s_new%d_t alias x%%d_t, %s;".replace("%%d", str(self.uniq) + m.name)]) % (m.name, self.uniq, f[1]), [("W-001", f[1])]))
        if r.random() < 0.4: r.shuffle(decl)
        for l, e in decl:
            if r.random() < 0.12:       # declared somewhere inside
                o, c = r.choice([("optional_policy(`", "')"), ("ifdef(`x',`", "')"), ("ifndef(`x',`", "')"), ("tunable_policy(`a && !b',`", "')"), ("userdebug_or_eng(`", "')")])
                self.put(o)
                self.put("\t" + l, *([q for q in e if q[0][-5:] != "W-005"] if o[0] == "o" else e))
                self.put(c)
            else: self.put(l, *e)
            if r.random() < 0.1: self.noise()
        top = set()         # required so far outside any block
        for _ in range(r.randrange(2, 16)):
            self.noise()
            self.stmt(m, top, False, 0)
        m.files["te"] = self.cur

    def stmt(self, m, req, opt, depth):
        """one statement of a te file; req: names required in this scope"""
        r = self.rng
        ind = "\t" * depth
        put = lambda l, *e: self.put(ind + l, *e)
        w1 = lambda s, o: [] if o is m or s in req else [("W-001", s)]
        x = r.random()
        if x < 0.22:
            a = r.choice(self.mods)
            s, t = r.choice(self.alltypes(a) + self.allattrs(a)), self.own(m)
            f = r.choice(TA)
            put(f.format(T=t, S=s), *w1(s, a), *([("C-007", "")] if s == t and f in AV_SAME else []))
        elif x < 0.25:          # two of them: the first that is missing counts
            a, b = r.choice(self.mods), r.choice(self.mods)
            s, t = r.choice(self.alltypes(a)), r.choice(self.alltypes(b) + self.allattrs(b))
            f = r.choice(["allow %s { undeclared_t %s }:file getattr;", "some_pattern(%s, %s)", "type_transition %s undeclared_t:file %s;", "allow { %s -%s } self:file getattr;", "role nobody_r types { %s %s };"])
            put(f % (s, t), *(w1(s, a) or w1(t, b)))
        elif x < 0.28:
            a = r.choice(self.mods)
            rr = r.choice(a.rattrs + ["nobody2_r"])
            put(r.choice(RO).format(S=rr, T=self.own(m)), *w1(rr, a if rr in a.rattrs else m))
        elif x < 0.42:
            o = r.choice(self.mods)
            pool = o.ifs
            y = r.random()
            ab = ABBREVIATED.get(o.name, o.name)
            c = r.choice(pool) if pool and y < 0.7 else r.choice([o.name, ab]) + "_" + r.choice(["nosuch", "reads", "x_y"]) if y < 0.9 else \
                r.choice(["unheard_of", "macro", o.name + "z_read", "domain_transition_pattern", "domain_nosuch", "fs_nosuch", o.name])
            e = self.callexp(m, c, opt)
            y = r.random()
            if y < 0.7: put("%s(%s)" % (c, self.own(m)), *e)
            elif y < 0.8:
                a = r.choice(self.mods)
                s = r.choice(self.alltypes(a))
                put("%s(%s, { %s %s })" % (c, self.own(m), self.own(m), s), *e, *w1(s, a))
            elif y < 0.9: put("%s()" % c, ("W-006", c), *e)
            elif y < 0.95: put(r.choice(["%s(%s %s)", "%s(%s -%s)", "%s(x, %s %s)"]) % (c, self.own(m), self.own(m)), ("W-007", c), *e)
            else: put("%s(%s, s0 - mcs_systemhigh)" % (c, self.own(m)), *e)      # a range
        elif x < 0.5:
            bp = ["bogus_perm", "rw_thing_perm", "getatr", "all_file_perm", "file", "allx_perms"]
            ps = r.choice([[p] for p in bp] + [["rw_thing_perms"], ["getattr"], ["all_file_perms"], ["all_bogus_perms"], ["use_things_perms"]] + [r.sample(bp[:3] + ["read", "getattr", "rw_thing_perms"], k) for k in (2, 2, 3)])
            ks = r.choice([["file"]] * 4 + [["filee"], ["File"], ["x_class_set"], ["getattr"]] + [r.sample(["file", "dir", "process", "filee", "x_class_set", "dirr"], k) for k in (2, 3)])
            e, lst = [], lambda l: l[0] if len(l) == 1 and r.random() < 0.8 else "{ %s }" % " ".join(l)
            bad = [p for p in ps if p in bp]
            badk = [k for k in ks if k in ("filee", "File", "dirr", "getattr")]
            av = r.choice(["allow"] * 4 + ["dontaudit", "auditallow", "neverallow"])
            y = r.random()
            pl = "*" if y < 0.08 else ("~" if y < 0.2 else "") + lst(ps)
            if pl == "*": bad = []
            if bad: e.append(("E-007", bad[0]))
            if pl[0] in "*~" and av == "allow": e.append(("W-008", ""))
            if badk: e.append(("E-008", badk[0]))
            y = r.random()
            if y < 0.8: put("%s %s self:%s %s;" % (av, self.own(m), lst(ks), pl), *e)
            elif y < 0.9: put("%s %s undeclared_t:%s %s;" % (r.choice(["type_transition", "type_member", "type_change"]), self.own(m), lst(ks), self.own(m)), *[q for q in e if q[0] == "E-008"])
            elif y < 0.95: put("role_transition nobody_r %s:%s other_r;" % (self.own(m), lst(ks)), *[q for q in e if q[0] == "E-008"])
            else: put("range_transition %s undeclared_t:%s s0;" % (self.own(m), lst(ks)), *[q for q in e if q[0] == "E-008"])
        elif x < 0.54: put(";", ("S-003", ""))
        elif x < 0.58:
            w = r.choice(["stray_word", "my_simple_macro", "two_macro", "sm", "sma", self.own(m)])
            put(w, *([] if w in self.simple else [("E-010", w)]))
        elif x < 0.62:
            put("optional_policy(`", ("E-009", ""))
            if r.random() < 0.5: put("\t# nothing")
            put("')")
        elif x < 0.66 and depth == 0: put("genfscon proc / gen_context(system_u:object_r:%s,s0)" % self.own(m))
        elif x < 0.78 and depth < 3:
            self.block(m, req, opt, depth)
        elif x < 0.84 and depth == 0:
            a = r.choice(self.mods)
            s = r.choice(self.alltypes(a) + self.allattrs(a) + a.rattrs)
            more = []
            if s in self.alltypes(a) and r.random() < 0.35:
                more = [x for o in r.sample(self.mods, min(2, len(self.mods))) for x in self.alltypes(o) if x != s]
                more = r.sample(more, min(len(more), r.choice([1, 1, 2, 3])))
            fl = "type" if s in self.alltypes(a) else "attribute_role" if s in a.rattrs else "attribute"
            o, c, u = r.choice([("gen_require(`", "')", []), ("require {", "}", []), ("gen_require(", ")", [("S-008", "")])])
            put(o, ("S-001", ""), *u)
            if r.random() < 0.3: put("\tclass file { read write };")
            if r.random() < 0.2: put("\t# needed")
            put("\t%s %s;" % (fl, ", ".join(r.sample([s] + more, 1 + len(more)))))
            put(c)
            req.update([s] + more)
            if fl != "attribute_role":
                for _ in range(r.choice([1, 1, 2])): put(r.choice(TA).format(T="undeclared_t", S=r.choice([s] + more)))
        elif x < 0.88:
            o, c, u = r.choice([("gen_require(`", "')", []), ("require {", "}", []), ("gen_require(", ")", [("S-008", "")])])
            empty = r.random() < 0.2
            put(o, *u, *([("E-009", "")] if empty else []))
            put("\t# only this" if empty else "\tclass file { read write };")
            put(c)
        elif x < 0.9 and not opt: put("ifelse(`word_a',`word_b',`stray_word')", ("E-010", "stray_word"))
        else: put("allow %s self:process %s;" % (self.own(m), r.choice(["fork", "signal", "{ fork signal }"])))

    def block(self, m, req, opt, depth):
        r, start = self.rng, len(self.cur) + 1
        ind = "\t" * depth
        put = lambda l, *e: self.put(ind + l, *e)
        kind = r.choice(["opt"] * 5 + ["ifdef"] * 3 + ["tun"] * 2 + ["if", "user", "ifelse"])
        put({"opt": "optional_policy(`", "ifdef": r.choice(["ifdef(`distro_x',`", "ifndef(`distro_x',`"]), "tun": r.choice(["tunable_policy(`some_bool',`", "tunable_policy(`a && !b',`"]),
             "if": r.choice(["if (some_bool) {", "if (a || b) {"]), "user": "userdebug_or_eng(`", "ifelse": "ifelse(`word_a',`word_b',`"}[kind])
        inner = opt or (True if kind == "opt" else False)
        for part in range(2 if r.random() < 0.25 and kind != "user" else 1):
            scope = set(req)
            if part:
                put("} else {" if kind == "if" else "',`")
                if kind == "opt" and not opt: inner = "?"
            if kind in ("opt", "ifdef") and r.random() < 0.5:
                a = r.choice(self.mods)
                s = r.choice(self.alltypes(a) + self.allattrs(a))
                put("\tgen_require(`", ("S-001", ""))
                put("\t\t%s %s;" % ("attribute" if s in self.allattrs(a) else "type", s))
                put("\t')")
                scope.add(s)
                put("\t" + r.choice(TA).format(T="undeclared_t", S=s))
            for _ in range(r.randrange(1, 4)): self.stmt(m, scope, inner, depth + 1)
            body = [l.strip() for l in self.cur[start:]]
            if not part and kind == "opt" and all(l in ("", ";", "userdebug_or_eng(`", "')") or l[0] == "#" for l in body):
                self.exp.append((self.file, start, "E-009" if all(l in ("", ";") or l[0] == "#" for l in body) else "?E-009", ""))
        put("}" if kind == "if" else "')")

    def iff(self, m):
        r = self.rng
        self.begin(m, "if")
        self.put("## <summary>%s</summary>" % m.name)
        todo = [("interface", i) for i in m.ifs] + [("template", t) for t in m.temps]
        r.shuffle(todo)
        for kind, name in todo:
            if r.random() < 0.8: self.put("")
            e = []
            if r.random() < 0.7 or [x for x in self.cur if x.strip()][-1].startswith("#"): self.put("##\tdoes %s" % name)
            else: e = [("C-004", name)]
            self.put("%s(`%s',`" % (kind, name), *e)
            self.ifbody(m, kind, name)
            self.put("')")
            if r.random() < 0.3: self.noise()
        self.put("")
        m.files["if"] = self.cur if todo else self.cur[:1]

    def ifbody(self, m, kind, name):
        r = self.rng
        req, unused = [], []
        need = []           # (flavour, name, expectation of the require line)
        pool = [("type", t, []) for t in m.types + m.made[:1] + m.aliases] + [("attribute", a, []) for a in self.allattrs(m)] + [("role", x, []) for x in m.roles + m.mroles[:1]] + \
            [("attribute_role", x, []) for x in m.rattrs] + [("bool", x, []) for x in m.bools]
        for o in self.others(m):
            pool += [("type", t, [("W-011", t)]) for t in (o.types + o.made)[:2]]
            pool += [("role", t, [("W-011", t)] if o.name != "kernel" else []) for t in o.roles]
            pool += [("bool", t, [("W-011", t)]) for t in o.bools] + [("attribute", t, [("W-011", t)]) for t in self.allattrs(o)] + [("attribute_role", t, [("W-011", t)]) for t in o.rattrs]
        pool += [("role", "nowhere_r", [("W-011", "nowhere_r")]), ("type", "$1_own_t", [])]
        pool += [("type", "nowhere_t", [("W-011", "nowhere_t")])]
        need = r.sample(pool, min(len(pool), r.choice([0, 1, 1, 2, 4])))
        uses = {}
        if need:
            q = r.random()
            op, cl = ("gen_require(`", "')") if q < 0.8 else ("require {", "}") if q < 0.9 else ("gen_require(", ")")
            wrap = r.choice(WRAPS) if r.random() < 0.15 else None       # required inside a block
            if wrap: self.put("\t" + wrap[0])
            self.put("\t" + op, *([("S-008", "")] if op == "gen_require(" else []))
            lines = []
            for fl, s, e in need:
                use = fl == "bool" or r.random() < 0.85
                if use: uses[s] = fl
                e = e + ([] if use or fl == "bool" or (kind == "interface" and name.endswith("_stub")) else [("W-003", s)])
                if wrap and use: e = e + [("?W-003", s)]        # used, but maybe not where it is required
                same = [l for l in lines if l[0] == fl]
                if same and r.random() < 0.4: same[-1][1].append(s); same[-1][2].extend(e)
                else: lines.append((fl, [s], list(e)))
            for fl, l, e in lines: self.put("\t\t%s %s;" % (fl, ", ".join(l)), *e)
            if r.random() < 0.1: self.put("\t\tclass file { read };")
            self.put("\t" + cl)
            if wrap: self.put("\t" + wrap[1])
        elif r.random() < 0.1:
            self.put("\tgen_require(`")
            self.put("\t\tclass file { read };")
            self.put("\t')")
        have = {s for _, s, _ in need}
        stm = []
        for s, fl in uses.items():
            if fl == "bool": continue
            stm.append((r.choice(TA if fl in ("type", "attribute") else RO).format(T="$1", S=s), []))
        for _ in range(r.choice([0, 0, 1, 2])):
            o = r.choice(self.mods)
            y = r.random()
            free = [s for s in self.alltypes(o) + self.allattrs(o) + o.roles + o.mroles + o.rattrs if s not in have]
            if y < 0.4 and free:
                s = r.choice(free)
                stm.append((r.choice(TA + ["dontaudit {{ $1 $2 }} {{ {S} $3 }}:dir getattr;"] if s not in o.roles + o.mroles + o.rattrs else RO).format(T="$1", S=s), [("W-002", s)]))
            elif y < 0.6:
                c = r.choice(o.ifs) if o.ifs and r.random() < 0.7 else o.name + "_nosuch"
                stm.append(("%s($1)" % c, self.callexp(m, c, False)))
            elif y < 0.7: stm.append((r.choice(["allow $1 undeclared_t:file getattr;", "allow $1 $1_older_t:file getattr;", "allow $1_mine_t $1:file getattr;", "role $1_mine_t types $1;", "typealias undeclared_t alias $1_older_t;", "allow $1 $1:file getattr;", "role_transition $1 $2:{ $3 file } $1;"]), []))
            elif y < 0.75: stm.append((r.choice(["allow $1_t $1_t:file getattr;", "allowxperm $2_t $2_t:file ioctl 0x1;"]), [("C-007", "")]))
            elif y < 0.8: stm.append(r.choice([("allow $1 $2:file { bogus_perm };", [("E-007", "bogus_perm")]), ("allow $1 $2:{ $3 filee } read;", [("E-008", "filee")]), ("allow $1 $2:$3 *;", [("W-008", "")])]))
            elif y < 0.84: stm.append((";", [("S-003", "")]))
            elif y < 0.86:
                w = r.choice(["stray_word", "my_simple_macro", "two_macro", "sm", "sma"])
                stm.append((w, [] if w in self.simple else [("E-010", w)]))
            elif y < 0.9: stm.append(("allow $1 $1_t:$2 getattr;", []))
            else: stm.append(("role system_r types $1;", []))
        if kind == "template":
            for k, pat in m.tdecl[name]: stm.append(("%s %s;" % (k, pat), []))
            if name in self.sub: stm.append(("%s(%s)" % (self.sub[name], ", ".join(self.subargs[name])), self.callexp(m, self.sub[name], False)))
        elif r.random() < 0.1:
            self.uniq += 1
            s = "%s_in%d_t" % (m.name, self.uniq) if r.random() < 0.7 else "$1_mine_t"
            y = r.random()
            free = [a for o in self.mods for a in self.allattrs(o) if a not in have]
            if y < 0.2 and free:
                a = r.choice(free)
                stm.append((r.choice(["type %s, %s;", "type %s, undeclared_attr, %s;"]) % (s, a), [("S-005", s), ("W-002", a)]))
            else: stm.append((r.choice(["type %s;", "attribute %s;", "role %s;", "gen_tunable(%s, false)", "attribute_role %s;"]) % s, [("S-005", s)]))
        elif self.temps and r.random() < 0.1:
            t = r.choice(self.temps)[1]
            stm.append(("%s($1)" % t, [("S-004", t)] + self.callexp(m, t, False)))
        if not stm: stm.append(("allow $1 $2:file getattr;", []))
        r.shuffle(stm)
        for l, e in stm:
            if l != ";" and r.random() < 0.25:
                o, c = r.choice([("optional_policy(`", "')")] * 2 + [("ifdef(`x',`", "')"), ("tunable_policy(`a',`", "')"), ("ifndef(`x',`\n\t\tallow $1 $2:file getattr;\n\t',`", "')")])
                for k in o.split("\n"): self.put(k if k[:1] == "\t" else "\t" + k)
                self.put("\t\t" + l, *[x for x in e if x[0][-5:] != "W-005" or o[0] != "o"])
                self.put("\t" + c)
            else: self.put("\t" + l, *e)

    def fc(self, m, generated=None):
        r = self.rng
        self.begin(m, "fc")
        if generated: self.file = generated
        inside = False
        for k in range(r.choice([0, 1, 3, 6, 12])):
            o = r.choice(self.mods)
            own = r.random() < 0.5 and not generated
            s = r.choice(self.alltypes(m if own else o))
            e = [] if s in self.alltypes(m) or generated and self.skip else [("S-002", s)]
            if r.random() < 0.15: s, e = "nowhere_t", [("E-005", "nowhere_t")]
            u, ro = r.choice(["system_u"] * 6 + ["bad_u", "staff_u", "other_u"]), r.choice(["object_r"] * 6 + ["bad_r", "staff_r"] + [x for y in self.mods for x in y.roles + y.mroles][:2])
            if u not in self.users: e.append(("E-003", u))
            if ro in ("bad_r", "object_r", "staff_r") and ro not in self.assumed_roles: e.append(("E-004", ro))
            p = "/usr/%s%d" % (m.name, k)
            y = r.random()
            if y < 0.15: p += ".conf"; e.append(("W-004", p))
            elif y < 0.3: p += r.choice(["(/.*)?", "\\.d", "/[^.]+", "-x.*"])
            ty = r.choice(["", "\t--", "\t-d", "\t-l", "\t-s", "\t-p", "\t-b", "\t-c"])
            if self.huge and r.random() < 0.2: p += "/x" * r.choice([50, 130, 600, 3000, 20000]); e = [(i, p if i == "W-004" else w) for i, w in e]
            y = r.random()
            rng = r.choice([",s0"] * 4 + [", s0", ",s0 - s15:c0.c1023", ",\ts0,c1", ",s0 - mls_systemhigh, mcs_allcats", ",mls_systemhigh"])
            end = r.choice([""] * 5 + [" ", "\t", "\r", "  \t "])
            sep = r.choice(["\t", "\t", " ", " \t ", "\t\t\t"])
            ctx = "%s:%s:%s" % (u, ro, s)
            if y < 0.7: self.put("%s%s%sgen_context(%s%s)%s%s" % (p, ty, sep, ctx, rng, r.choice(["", "", "", " # why"]), end), *e)
            elif y < 0.78: self.put("%s%s%sgen_context(%s)%s" % (p, ty, sep, ctx, end), *e, ("S-007", ""))
            elif y < 0.84: self.put("%s%s%s<<none>>%s" % (p, ty, sep, end))
            elif y < 0.9: self.put("%s%s%s%s%s%s" % (p, ty, sep, ctx, r.choice(["", ":s0", ":s0-s15"]), end), *e)
            elif y < 0.95: self.put(r.choice(["%s -dd\tgen_context(system_u:object_r:a_t,s0)", "%s -\tgen_context(system_u:object_r:a_t,s0)", "%s gen_erquire(system_u:object_r:a_t,s0)", "%s"]) % p, ("E-002", ""))
            else: self.put("%s%s\t%s:%s:%s:s0" % (p, ty, u, ro, s), *e)
            if r.random() < 0.2: self.put(r.choice(["", "# comment", "# /x gen_context(bad)"]))
            if r.random() < 0.08:
                c = r.choice(["my_fc_macro", "my_fc", "fcm", "fc"])
                k = r.choice(["%s(one, two)", "%s(x)", "%s(", "%sx(one, two)", "%s one", "%s (x)", "%s"])
                self.put(k % c, *([] if c in self.fcmacros and k[:3] == "%s(" else [("E-002", "")]))
            if r.random() < 0.1:
                if inside: self.put("')"); inside = False
                else: self.put(r.choice(["ifdef(`distro_x',`", "ifndef(`distro_x', `"])); inside = True
            elif inside and r.random() < 0.2: self.put(r.choice(["',`", "', `"]))
        if inside: self.put("')")
        m.files["fc"] = self.cur

    def modules_conf(self):
        r = self.rng
        out = []
        for m in self.mods:
            if m.status: out.append(r.choice(["# %s = off\n%%s = %%s\n" % m.layer] * 3 + ["%s=%s\n", "%s\t=\t%s\n", "  %s = %s  \n", "\n\t\n%s =%s\n", "\t # x = module\n%s= %s\n", "  #\n%s = %s\r\n"]) % (m.name, m.status))
        text = "".join(out)
        return text[:-1] if text.endswith("\n") and r.random() < 0.1 else text

    def config(self):
        r = self.rng
        sep = lambda l: "{ %s }" % ", ".join(r.choice(["%s", '"%s"']) % x for x in r.sample(sorted(l), len(l)))
        L = ["%s = %s" % (k, sep(v)) for k, v in (("assume_users", self.users), ("assume_roles", self.assumed_roles), ("custom_fc_macros", self.fcmacros), ("custom_te_simple_macros", self.simple)) if v or r.random() < 0.5]
        L += [x for x in ('severity = convention', 'ordering_rules = "%s"' % r.choice(["refpolicy", "refpolicy-light", "refpolicy-lax"]), "ordering_requires_same_flavor = %s" % r.choice(["true", "false"]),
                          "disable = {}", "# custom_fc_macros = { fc }", "", "enable_source = { W-010 }") if r.random() < 0.4]
        if not self.skip or r.random() < 0.5: L.append("skip_checking_generated_fcs = %s" % r.choice(["yes", "true", "Yes", "TRUE", "YES", "True"] if self.skip else ["no", "false", "No", "FALSE", "NO", "False"]))
        r.shuffle(L)
        return "\n".join(L) + r.choice(["", "\n"])

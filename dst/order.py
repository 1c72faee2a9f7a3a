"""Reference model of the te ordering convention (C-001), for policies of several modules.

Where a statement belongs follows from the style guide as selint.conf and the README name it: declarations
first (booleans, attributes, the rest), then a section per source type, each with self rules, rules about the
module's own types, interface calls by where the interface is defined, and the conditional blocks by kind.
Which of those a call is depends on the other files: the module, the layer, what the interface does.
"""
import gen

SELF, OWN, RELATED, KMOD, KERNEL, SYSTEM, OTHER, BUILD, BOOL, TUN, OPT = range(11)
TYPE = {SELF: "self rule", OWN: "own module rule", RELATED: "related module interface", KMOD: "kernel module interface", KERNEL: "kernel layer interface", SYSTEM: "system layer interface",
        OTHER: "general interface", BUILD: "build option", BOOL: "boolean policy block", TUN: "tunable policy block", OPT: "optional policy block"}
DECL = "_declaration"
TRANSFORMS = ["type", "file", "domain", "node", "agent", "delivery", "sender", "boolean", "content", "constrained", "executable", "exemption", "object", "mountpoint"]
BLOCKS = {BUILD: [("ifdef(`distro_x',`", "')"), ("ifndef(`hide_x',`", "')")], BOOL: [("if (some_bool) {", "}")], TUN: [("tunable_policy(`some_use && !other',`", "')"), ("tunable_policy(`x',`", "')")],
          OPT: [("optional_policy(`", "')")]}


class M:
    pass


WHY = {SELF: "that is a self rule", OWN: "that refers to types owned by this module", RELATED: "that calls an interface located in a related module", KMOD: "that calls an interface located in the kernel module",
       KERNEL: "that calls an interface located in the kernel layer", SYSTEM: "that calls an interface located in the system layer", BUILD: "that is controlled by a build option", BOOL: "that is in a boolean block",
       TUN: "that is in a tunable block", OPT: "that is in an optional block"}
ELSE = {BUILD: "',`", BOOL: "} else {", TUN: "',`", OPT: "',`"}


def stem(s):
    return s[:-2] if len(s) >= 3 and s[-2:] in ("_t", "_r") else s


class Ordered:
    def __init__(self, rng):
        r = self.r = rng
        self.variant = r.choice(["refpolicy", "refpolicy-light", "refpolicy-lax"])
        self.wild = r.random() < 0.35           # statements without a fixed place, too
        self.blocks = r.random() < 0.5
        self.conditional = r.random() < 0.5     # of more than one statement, of other sections
        self.nested = r.random() < 0.35         # blocks in blocks, and else branches
        n = r.choice([1, 2, 3, 4, 6])
        ws = r.sample(gen.WORDS, n)
        if n > 1 and r.random() < 0.6: ws[r.randrange(n)] = "kernel"
        if n > 1 and r.random() < 0.05: ws[r.randrange(n)] = r.choice(["mls", "mcs"])
        for i in range(n):
            if i and r.random() < 0.35: ws[i] = ws[r.randrange(i)].split("_")[0] + "_" + r.choice(["utils", "x", "net"])
            elif i and r.random() < 0.1: ws[i] = ws[r.randrange(i)] + r.choice(["d", "_", "ctl"])
        ws = list(dict.fromkeys(ws))
        self.mods, self.where = [], {}
        uniq = 0
        for w in ws:
            m = M()
            m.name, m.layer = w, r.choice(["kernel", "system", "system", "kernel", "services", "apps", "kern", "systemd"])
            m.types = [w + s for s in r.sample(["_t", "_exec_t", "_conf_t", "_var_lib_t", "_a_t"], r.randrange(1, 5))]
            m.attrs = [w + "_attr"] if r.random() < 0.4 else []
            m.plain, m.decls, m.loose, m.temps = [], [], [], []      # calls that are rules, declarations, neither
            m.text = []
            self.mods.append(m)
        # interfaces; wrappers of transforming ones in any module
        pool = []
        for m in self.mods:
            b = m.name
            for v in r.sample(["read", "manage", "rw", "signal", "list"], r.randrange(4)):
                m.plain.append(b + "_" + v)
                body = r.choice([["\tallow $1 %s:file getattr;" % m.types[0]], ["\tgen_require(`", "\t\ttype %s;" % m.types[0], "\t')", "\tallow $1 %s:file getattr;" % m.types[0]],
                                 ["\toptional_policy(`", "\t\ttypeattribute $1 some_attr;", "\t')"], ["\ttypeattribute $1 some_attr;"] * (b not in ("mls", "mcs")), ["\ttype_transition $1 $2:process $3;"],
                                 ["\trole $1 types %s;" % m.types[0]], ["\tgen_require(`", "\t\ttype %s;" % m.types[0], "\t')"], ["\tifdef(`x',`", "\t\trole system_r types $1;", "\t')"]])
                m.text.append((b + "_" + v, body or ["\tallow $1 self:file read;"]))
            for v in r.sample(TRANSFORMS, r.choice([0, 0, 1, 2])):
                m.decls.append(b + "_" + v)
                m.text.append((m.decls[-1], ["\tgen_require(`", "\t\tattribute %s_attr;" % b, "\t')"] * (r.random() < 0.5) + ["\ttypeattribute $1 %s_attr;" % b]))
                pool.append(m.decls[-1])
            if r.random() < 0.2:
                c = b + "_fs"
                m.decls.append(c); pool.append(c)
                m.text.append((c, ["\tallow $1 %s:filesystem associate;" % m.types[0]]))
            if r.random() < 0.2:
                c = b + "_run"
                m.decls.append(c)
                m.text.append((c, ["\tallow $2 self:process fork;"] * (r.random() < 0.3) + ["\trole $2 types %s;" % r.choice(["$1", "{ x_t $1 }"])]))
            if r.random() < 0.25:
                c = b + r.choice(["_filetrans", "_etc_create", "_named_filetrans"])
                m.loose.append(c)
                m.text.append((c, r.choice([["\ttype_transition $1 %s:file $2;" % m.types[0]], ["\tfiletrans_pattern($1, %s, $2, $3)" % m.types[0]], ["\tfiles_etc_filetrans($1, $2, file)"]])))
            if r.random() < 0.25:
                m.temps.append(b + "_template")
        for _ in range(r.choice([0, 0, 1, 2, 5])):      # chains, across files
            m = r.choice(self.mods)
            if not pool: break
            uniq += 1
            c, t = "%s_wrap%d" % (m.name, uniq), r.choice(pool)
            first = r.random() < 0.75
            usual = [i for o in self.mods for i in o.plain]
            if usual and r.random() < 0.25: first, t = False, r.choice(usual + [c])       # nothing to hand on
            m.text.append((c, ["\tgen_require(`", "\t\ttype %s;" % m.types[0], "\t')"] * (r.random() < 0.4) + (["\t%s($1)" % t, "\tallow $1 self:file read;"] if first or t not in pool and r.random() < 0.7 else ["\tallow $1 self:file read;", "\t%s($1)" % t])))
            if first:
                m.decls.append(c); pool.append(c)
            else: m.plain.append(c)
        for m in self.mods:
            r.shuffle(m.text)
            for c in m.plain + m.decls + m.loose: self.where[c] = m
        self.trans = set(pool)
        for m in self.mods: self.te(m)

    # ---- what is where
    def place(self, m, c):
        """of a call of c in module m"""
        o = self.where.get(c)
        if o is None: return None
        if o is m: return OWN
        if self.variant != "refpolicy" and o.name.split("_")[0] == m.name.split("_")[0]: return RELATED
        if o.name == "kernel": return KMOD
        if self.variant != "refpolicy-light" and o.layer == "kernel": return KERNEL
        if self.variant != "refpolicy-light" and o.layer == "system": return SYSTEM
        return OTHER

    def rank(self, l):
        if self.variant == "refpolicy-lax": return min(l, 2)
        return l

    def leq(self, a, b):
        """may a come before b?  None: not specified"""
        if a["sec"] is None or b["sec"] is None: return True
        if stem(a["sec"]) != stem(b["sec"]):
            if a["sec"] == DECL: return True
            if b["sec"] == DECL: return False
            if a["sec"] < b["sec"]: return True         # alphabetically
            d = [v[a["sec"]] - v[b["sec"]] for v in self.avg]
            return None if max(d) > -1.1 and min(d) < 1.1 else d[0] < 0
        if a["sec"] == DECL:
            x, y = a["dfl"], b["dfl"]
            return True if x is None or y is None else x <= y
        x, y = a["lss"], b["lss"]
        if x is None or y is None: return True
        if self.rank(x) != self.rank(y): return x < y
        if self.variant == "refpolicy-lax": return True
        if x in (BUILD, BOOL, TUN): return True
        if a["mod"] and b["mod"] and (x != OPT or a["first"] and b["first"]):
            if a["mod"] != b["mod"]: return a["mod"] < b["mod"]
        if x == OPT and a["child"] and b["child"]: return self.leq(a["child"], b["child"])
        return True

    # ---- statements: a list of (text, element)
    def el(self, sec, lss=None, mod=None, dfl=None, silent=False):
        return {"sec": sec, "lss": lss, "mod": mod, "dfl": dfl, "silent": silent, "first": False, "child": None, "tra": False}

    def rule(self, m, t, l, known=True):
        """a statement of section t in subsection l"""
        r = self.r
        if r.random() < 0.1: t = stem(t) + r.choice(["", "_r", "_t"] if l > OWN else [""])      # the same section
        if l == SELF: return [(r.choice(["allow %s self:process signal;", "allow %s self:file { read write };", "dontaudit %s self:capability sys_admin;", "allowxperm %s self:file ioctl 0x1;", "allow { %s other_x_t } self:file read;"]) % t, self.el(t, SELF))]
        c = [i for o in self.mods for i in o.plain if self.place(m, i) == l]
        if l == OWN and (not c or r.random() < 0.8):
            u = r.choice(m.types + m.attrs)
            return [(r.choice(["allow %s %s:file read;", "allow %s { %s undeclared_t }:file read_file_perms;", "dontaudit %s %s:dir search;", "read_files_pattern(%s, %s)", "allowxperm %s %s:file ioctl { 0x1 0x2 };", "a_pattern(%s, { %s }, x)"]) % (t, u), self.el(t, OWN))]
        if not c: return []
        c = r.choice(c)
        return [("%s(%s)" % (c, r.choice([t, t, "%s, x" % t, "%s, %s" % (t, r.choice(self.mods).types[0])])), self.el(t, l, self.where[c].name))]

    def block(self, m, t, l, secs, outer=None):
        """a conditional block; all in it counts as of the kind of the outermost block"""
        r, lss = self.r, l if outer is None else outer
        op, cl = r.choice(BLOCKS[l])

        def body(n):
            kids = []       # statements: a list of (text, element), the first of which stands for it
            for _ in range(n):
                s = r.choice(secs) if self.conditional and r.random() < 0.2 else t
                y = r.random()
                if self.nested and y < (0.3 if outer is None else 0.1):
                    k = self.block(m, s, r.choice([BUILD, BOOL, TUN, OPT]), secs, lss)
                elif m.decls and y < (0.6 if self.nested else 0.15): k = [("%s(%s)" % (r.choice(m.decls), s), self.el(s, 0, m.name))]
                else: k = self.rule(m, s, r.choice([SELF, OWN, RELATED, KMOD, KERNEL, SYSTEM, OTHER]))
                if k: kids.append(k)
            if not kids: kids.append(self.rule(m, t, OWN))
            for k in kids: k[0][1]["lss"] = lss
            return kids
        kids = body(r.choice([1, 1, 2, 3]) if self.conditional else 1)
        kids[0][0][1]["first"] = True
        b = self.el(kids[0][0][1]["sec"], lss, silent=True)
        b["child"] = kids[0][0][1]
        if l in (BUILD, TUN): b["sec"] = None       # anything goes with these themselves
        out = [(op, b)] + [("\t" + x, e) for k in kids for x, e in k]
        if self.nested and r.random() < 0.4:
            kids, e = body(r.choice([1, 1, 2])), None
            if l == OPT:        # an optional block of its own
                e = self.el(kids[0][0][1]["sec"], lss, silent=True)
                e["child"] = kids[0][0][1]
                kids[0][0][1]["first"] = True
            elif l != BOOL:
                e = self.el(None, lss, silent=True)
                e["child"] = kids[0][0][1]
                kids[0][0][1]["first"] = True
            out += [(ELSE[l], e)] + [("\t" + x, e) for k in kids for x, e in k]
        return out + [(cl, None)]

    def te(self, m):
        r = self.r
        unit = []       # (sort key, [(text, element)])
        for t in m.types: unit.append(((0, 2), [("type %s;" % t, self.el(DECL, dfl=2))]))
        for a in m.attrs: unit.append(((0, 1), [("attribute %s;" % a, self.el(DECL, dfl=1))]))
        for k in range(r.choice([0, 0, 1, 2])): unit.append(((0, 0), [(r.choice(["gen_tunable(%s_b%d, false)", "bool %s_b%d;", "gen_bool(%s_b%d, false)"]) % (m.name, k), self.el(DECL, dfl=0))]))
        if r.random() < 0.3: unit.append(((0, 2), [(r.choice(["role %s_r;", "attribute_role %s_roles;"]) % m.name, self.el(DECL, dfl=2))]))
        every = [c for o in self.mods for c in o.decls]
        if every:
            for _ in range(r.choice([0, 1, 1, 2])):
                c = r.choice(every)
                unit.append(((0, 3), [("%s(%s)" % (c, r.choice(m.types)), dict(self.el(DECL), tra=c in self.trans))]))
        temps = [c for o in self.mods for c in o.temps]
        if temps and r.random() < 0.3: unit.append(((0, 3), [("%s(%s_sub)" % (r.choice(temps), m.name), self.el(DECL))]))
        secs = sorted(r.sample(m.types, r.randrange(1, len(m.types) + 1)))
        for t in secs:
            for l in (SELF, OWN, RELATED, KMOD, KERNEL, SYSTEM, OTHER):
                for _ in range(r.choice([0, 1, 1, 2])):
                    k = self.rule(m, t, l)
                    if k: unit.append(((1, t, self.rank(l), k[0][1]["mod"] or ""), k))
            if self.blocks:
                for l in (BUILD, BOOL, TUN, OPT):
                    for _ in range(r.choice([0, 0, 0, 1, 2])):
                        b = self.block(m, t, l, secs)
                        unit.append(((1, t, self.rank(l), b[1][1]["mod"] or ""), b))
        if r.random() < 0.2: r.shuffle(unit)
        unit.sort(key=lambda u: u[0])
        if self.wild:
            for _ in range(r.choice([1, 2, 4])):
                t = r.choice(secs)
                o = r.choice(self.mods)
                w = r.choice([("# comment", None), ("neverallow %s self:file write;" % t, None), ("auditallow %s self:file write;" % t, None), ("allow %s %s:filesystem associate;" % (t, t), None),
                              ("allow %s %s:dir { mounton read };" % (t, t), None), ("role some_r types %s;" % t, None), ("allow some_r other_r;", None), ("permissive %s;" % t, None),
                              ("some_macro()", None), ("type_transition %s %s:process %s;" % (t, t, t), t), ("type_transition %s some_t:file %s;" % (t, t), t), ("role_transition a_r %s b_r;" % t, None)] +
                             [("%s(%s)" % (c, t), None) for c in o.loose] + ([("allow %s %s:file read;" % (t, o.types[0]), t)] if o is not m else []))
                silent = w[0][:1] == "#" or w[0].split()[0] in ("role", "role_transition", "permissive") or w[0].startswith("allow some_r")
                unit.insert(r.randrange(len(unit) + 1), (None, [(w[0], self.el(w[1], silent=silent))]))
        y = r.random()
        if y < 0.7:
            for _ in range(r.choice([1, 1, 1, 2, 3, 5])):      # displaced
                u = unit.pop(r.randrange(len(unit)))
                unit.insert(r.randrange(len(unit) + 1), u)
        elif y < 0.78: r.shuffle(unit)
        L = ["policy_module(%s, 1.0)" % m.name]
        m.els = []
        for k, u in unit:
            while r.random() < 0.08: L.append("")
            if r.random() < 0.04 and len(u) == 1 and not u[0][1]["silent"] and "\n" not in u[0][0] and u[0][0][:1] != "#":
                L.append(u[0][0] + " #selint-disable:C-001")        # not considered at all
                continue
            for text, e in u:
                L.append(text)
                if e is not None:
                    e["line"] = len(L)
                    m.els.append(e)
        m.lines = L

    def iff(self, m):
        L = ["## <summary>%s</summary>" % m.name]
        todo = [("interface", c, b) for c, b in m.text] + [("template", c, ["\ttype $1_t;"]) for c in m.temps]
        for kind, c, b in todo: L += ["", "## <summary>x</summary>", "%s(`%s',`" % (kind, c)] + b + ["')"]
        return L

    # ---- the oracle: got {line: message}
    @classmethod
    def verdict(cls, variant, els, lines, got):
        o, m = cls.__new__(cls), M()
        o.variant, m.els, m.lines = variant, els, lines
        return o.judge(m, got)

    def judge(self, m, got):
        els = m.els
        self.avg = []           # where a section is; how much a block counts for it is not specified
        for k, j in [(k, j) for k in (0, 1, 2) for j in (0, 1, 2)]:
            sums = {}
            for e in els:
                c = e["child"] or e
                if c["sec"] not in (None, DECL): sums.setdefault(c["sec"], []).extend([e["line"]] * (1 if not e["child"] else j if e["sec"] is None else k))
            self.avg.append({s: sum(l) / len(l) for s, l in sums.items() if l})
        at = {e["line"]: e for e in els}
        text = lambda l: "line %d, %s" % (l, m.lines[l - 1].strip())
        for l, msg in got.items():
            e = at.get(l)
            if e is None or e["silent"] or e["sec"] is None: return ("foreign", "%s has no place in the order, but is reported: %s" % (text(l), msg))
            w = msg.split(" of type ")[-1]
            for q in (" before line ", " after line "):
                if q in w:
                    kind, rest = w.split(q)
                    n = int(rest.split()[0])
                    break
            else: return ("message", "%s: %s" % (text(l), msg))
            o = at.get(n)
            if o is None or n in got: return ("other", "%s is said to be out of order with %s, which %s: %s" % (text(l), n, "is itself out of order" if o else "is not there", msg))
            if (q == " before line ") != (n > l): return ("side", "%s: %s" % (text(l), msg))
            ok = self.leq(e, o) if n > l else self.leq(o, e)
            if ok: return ("no conflict", "%s is said to be out of order with %s, but is not: %s" % (text(l), text(n), msg))
            why = msg.split("line %d " % n)[1]
            if e["sec"] != DECL and o["sec"] != DECL and stem(e["sec"]) == stem(o["sec"]) and not (o["child"] or e["child"]):
                if e["lss"] is not None and self.rank(e["lss"]) != self.rank(o["lss"]):
                    want = WHY.get(o["lss"], "that calls an interface not located in the kernel or system layer" if self.variant == "refpolicy" else "that calls a non-optional interface") + "."
                    if o["lss"] in (KERNEL, SYSTEM, OTHER):
                        want += {KERNEL: "  (This interface is in the kernel layer.)", SYSTEM: "  (This interface is in the system layer.)", OTHER: "  (This interface is in a layer other than kernel or system.)",
                                 KMOD: "  (This interface is in the kernel module.)"}.get(e["lss"], "")
                else: want = "that is alphabetically %s." % ("earlier" if n > l else "later")
            elif e["sec"] == DECL == o["sec"]: want = "that is associated with a different sort of declaration."
            elif stem(e["sec"]) != stem(o["sec"]):
                want = "that is not a declaration." if e["sec"] == DECL else "that is a transform interface." if o["sec"] == DECL and o.get("tra") else "that is a declaration." if o["sec"] == DECL else "that is in a different section."
                want += "  (This node is in the section for %s rules and the other is in the section for %s rules.)" % (e["sec"], o["sec"])
            else: want = why
            if why != want: return ("reason", "%s is out of order with %s because %r, but the message is %s" % (text(l), text(n), want, msg))
            if e["lss"] is not None and e["sec"] != DECL and kind != TYPE[e["lss"]]: return ("kind", "%s is a %s: %s" % (text(l), TYPE[e["lss"]], msg))
        pair = [[self.leq(a, b) for b in els] for a in els]
        n = len(els)
        # what is left is in order
        keep = [i for i in range(n) if els[i]["silent"] or els[i]["line"] not in got]
        reach = None
        prev = None
        for i in keep:
            if els[i]["silent"]: continue
            if prev is not None and pair[prev][i] is False:
                via = any(pair[prev][b] is not False and pair[b][i] is not False for b in keep if prev < b < i) or sum(1 for b in keep if prev < b < i) > 1
                if not via: return ("unreported", "%s comes before %s, and neither is reported" % (text(els[prev]["line"]), text(els[i]["line"])))
            prev = i
        if all(pair[i][j] for i in range(n) for j in range(i + 1, n)):
            if got: return ("in order", "everything is in order, but reported: %s" % {l: got[l] for l in sorted(got)[:3]})
            return None
        # a weak order: nothing but a longest ordered subsequence is left
        if any(p is None for row in pair for p in row): return None
        for i in range(n):
            for j in range(n):
                if not pair[i][j] and not pair[j][i]: return None
                for k in range(n):
                    if pair[i][j] and pair[j][k] and not pair[i][k]: return None
        best = [1] * n
        for j in range(n): best[j] = max([1] + [best[i] + 1 for i in range(j) if pair[i][j]])
        need = n - max(best)
        silent = sum(1 for e in els if e["silent"])
        if not max(0, need - silent) <= len(got) <= need: return ("minimum", "%d lines are reported, %d would do: %s" % (len(got), need, sorted(got)))
        return "exact"

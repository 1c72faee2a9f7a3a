"""Reference model of the rules about how permissions and requires are written: C-005, C-006, S-009, S-010.

What a permission macro stands for is what obj_perm_sets.spt says (or nothing, without one), the order of
a require block what the configuration says (or the documented default).
"""
import gen

MODELLED = ("C-005", "C-006", "S-009", "S-010")
CLASSES = ["dir", "file", "lnk_file", "chr_file", "blk_file", "sock_file", "fifo_file"]
# what a permission may reasonably be extended by
EXT = {"read": "ioctl getattr search lock", "lock": "getattr", "append": "getattr", "write": "ioctl getattr append lock", "create": "getattr link", "setattr": "getattr", "map": "ioctl getattr",
       "unlink": "getattr rmdir", "link": "getattr", "rename": "getattr", "open": "getattr", "execute": "read getattr map", "relabelfrom": "getattr", "relabelto": "getattr", "mounton": "getattr",
       "watch": "read", "add_name": "write ioctl getattr append lock", "remove_name": "write ioctl getattr append lock", "reparent": "getattr", "search": "getattr", "rmdir": "unlink getattr",
       "execute_no_trans": "execute read getattr map"}
EXT = {k: {k} | set(v.split()) for k, v in EXT.items()}
PERMS = sorted(set(EXT) | {"ioctl", "getattr", "entrypoint"})
UNCOVERED = ["quotaon", "audit_access", "execmod", "watch_mount", "watch_sb", "watch_with_perm", "watch_reads", "no_such_perm"]
FLAVORS = ["bool", "class", "role", "attribute_role", "attribute", "type"]
CALLED = {"bool": "boolean", "attribute_role": "attribute role"}
DEFAULT = ["bool", "class", "role", "attribute_role", "attribute", "type"]


class M:
    pass


class Styled:
    def __init__(self, rng):
        r = self.r = rng
        self.source = r.random() < 0.85
        self.exp = {}           # file -> {(line, id): what}
        self.macros, self.poison = {}, set()
        self.spt = self.define()
        if not self.source: self.macros = {}
        self.order = None if r.random() < 0.25 else r.sample(FLAVORS, 6) if r.random() < 0.8 else list(DEFAULT)
        self.same = r.choice([None, True, True, False])
        self.files = {}
        ws = r.sample(gen.WORDS, r.choice([1, 2, 3]))
        for w in ws:
            m = M()
            m.name, m.layer = w, r.choice(gen.LAYERS)
            self.te(m)
            self.iff(m)

    def conf(self):
        L = []
        if self.order: L.append("ordering_requires = { %s }" % ", ".join(self.order))
        if self.same is not None: L.append("ordering_requires_same_flavor = %s" % ("true" if self.same else "false"))
        self.r.shuffle(L)
        return L

    # ---- permission macros
    def define(self):
        r, out = self.r, []
        names = []
        for _ in range(r.choice([0, 1, 3, 6, 12, 25])):
            c = r.choice(CLASSES[:2] * 3 + CLASSES + ["chr_file:term", "process", "x_socket", "netlink_x_socket"])
            k = c.split(":")[-1]
            names.append("%s_%s_perms" % (r.choice(["read", "rw", "manage", "mmap_read", "w", "x_y", "signal", "getattr"]), k))
        names = list(dict.fromkeys(names))
        order = list(names)
        for i, n in enumerate(names):
            y = r.random()
            near = r.choice([PERMS, PERMS, ["getattr", "open", "read", "lock", "ioctl", "search", "write", "append", "create", "unlink", "rename", "setattr"]])
            ps = r.sample(near, r.choice([1, 2, 3, 4, 6, 9]))
            if i and y < 0.4: ps += r.sample(names[:i], r.choice([1, min(i, 2)]))       # other macros, of any class
            if y > 0.93: ps.append(r.choice(UNCOVERED))
            if 0.9 < y < 0.93 and i + 1 < len(names): ps.append(names[i + 1])           # also in a circle
            if r.random() < 0.05: ps.append(n)
            r.shuffle(ps)
            self.macros[n] = ps
        r.shuffle(order)
        for n in order:
            l = "define(`%s',`{ %s }')" % (n, " ".join(self.macros[n]))
            if r.random() < 0.08:
                l = "define(`%s',`{ %s } refpolicywarn(`$0 is obsolete')')" % (n, " ".join(self.macros[n]))
                self.macros[n] = None
            out.append(l)
            if r.random() < 0.1: out.append(r.choice(["", "#", "# getattr open", "define(`all_x',`{ a b c }')"]))
        self.macros = {k: v for k, v in self.macros.items() if v is not None}
        if not self.macros: out.append("define(`other_things_perms',`{ a b }')")
        if not out or not out[0].startswith("define"): out.insert(0, "define(`first_perms',`{ no_such_perm }')")
        return out

    def raw(self, ps):
        """(permissions, anything else in it?)"""
        got, todo, seen, odd = set(), list(ps), set(), False
        while todo:
            p = todo.pop()
            if p in PERMS: got.add(p)
            elif p in self.macros and p not in UNCOVERED:
                if p not in seen:
                    seen.add(p)
                    todo += self.macros[p]
            else: odd = True
        return got, odd

    def of_class(self, c):
        out = []
        for n in self.macros:
            for s, k in (("_dir_perms", "dir"), ("_lnk_file_perms", "lnk_file"), ("_chr_file_perms", "chr_file"), ("_term_perms", "chr_file"), ("_blk_file_perms", "blk_file"), ("_sock_file_perms", "sock_file"),
                         ("_fifo_file_perms", "fifo_file"), ("_file_perms", "file")):
                if n.endswith(s):
                    if k == c and not self.raw([n])[1]: out.append(n)
                    break
        return out

    def suggestion(self, c, ps):
        """the set of messages that would be right; None is no message"""
        have, _ = self.raw(ps)
        if len(have) < 2: return {None}
        ext = set()
        for p in have: ext |= EXT.get(p, {p})
        if ext & {"create", "write"}: ext |= {"setattr", "getattr"}
        if ext & {"create", "unlink"}: ext |= {"rename", "reparent", "getattr"}
        fit = []
        for n in self.of_class(c):
            m = self.raw([n])[0]
            if m - ext or len(m & have) < 2: continue
            inside = [p for p in ps if not self.raw([p])[1] and self.raw([p])[0] <= m & have]
            if len(inside) < 2: continue
            fit.append((-len(m & have), len(m - have), n, inside, m - have))
        best = [f for f in fit if f[:2] == min(g[:2] for g in fit)]
        out = set()
        for _, _, n, inside, new in best:
            if n in ps: out.add(None)
            else: out.add("Suggesting permission macro: %s (replacing { %s }, would add %s)" % (n, " ".join(inside), " ".join(["{"] + sorted(new) + ["}"]) if new else "(none)"))
        return out or {None}

    @staticmethod
    def norm(msg):
        """the permissions that would be added, in any order"""
        if ", would add { " not in msg: return msg
        a, b = msg.split(", would add { ")
        return "%s, would add { %s })" % (a, " ".join(sorted(b.replace("})", "").split())))

    def mismatch(self, cs, ps):
        if cs[0].endswith("_class_set"): return None
        alias = {"chr_file": "term", "process": "signal"}
        for p in ps:
            if not p.endswith("_perms"): continue
            base = p[:-6]
            if all(base.endswith(c) or c in alias and base.endswith(alias[c]) for c in cs):
                if "file" in cs and any(base.endswith(k) for k in CLASSES[2:]): pass
                else: continue
            elif all(c.startswith("netlink_") for c in cs):
                if p.endswith("_socket_perms"): continue
            elif all(c.endswith("_socket") for c in cs) and p.endswith("_socket_perms") and not p.endswith("netlink_socket_perms"): continue
            return "Permission macro %s does not match class %s" % (p, cs[0] if len(cs) == 1 else "(multi class av rule)")
        return None

    @staticmethod
    def unordered(ps, what):
        for a, b in zip(ps, ps[1:]):
            if a == "~": continue
            if a > b: return "Permissions in %s not ordered (%s before %s)" % (what, a, b)
            if a == b: return "Permissions in %s repeated (%s)" % (what, a)
        return None

    # ---- statements
    def begin(self, name):
        self.cur, self.name = [], name
        self.exp[name] = []

    def put(self, ind, text): self.cur.append("\t" * ind + text)

    def expect(self, i, msgs):
        """of the next line"""
        self.exp[self.name].append((len(self.cur) + 1, i, sorted(m or "" for m in msgs)))

    def av(self, ind, src, tgt):
        r = self.r
        kind = r.choice(["allow"] * 5 + ["dontaudit", "auditallow", "neverallow"])
        cs = [r.choice(CLASSES[:2] * 2 + CLASSES)] if r.random() < 0.75 else r.choice([["process"], ["capability"], ["x_socket"], ["netlink_x_socket"], ["netlink_x_socket", "netlink_y_socket"], ["x_socket", "y_socket"],
                                                                                        ["file", "dir"], ["file", "lnk_file"], ["chr_file", "blk_file"], ["file_class_set"], ["dir_file_class_set"], ["netlink_x_socket", "x_socket"],
                                                                                        ["dir", "file", "process"]])
        known = list(self.macros)
        mine = self.of_class(cs[0])
        y = r.random()
        if y < 0.35 and mine:           # near a macro
            m = r.choice(mine)
            ps = sorted(self.raw([m])[0])
            if len(ps) > 1 and r.random() < 0.5: ps.remove(r.choice(ps))
            if r.random() < 0.5: ps.append(r.choice(PERMS + known))
            if r.random() < 0.15: ps.append(r.choice(UNCOVERED))
        elif y < 0.5: ps = r.sample(["read_file_perms", "rw_fifo_file_perms", "rw_socket_perms", "create_netlink_socket_perms", "signal_perms", "rw_term_perms", "list_dir_perms", "no_macro_perm", "perms", "manage_x_socket_perms"] + known,
                                    r.choice([1, 1, 2, 3]))
        else: ps = r.sample(PERMS + UNCOVERED[:3] + known[:4], r.choice([1, 2, 2, 3, 4, 6]))
        if r.random() < 0.08: ps.append(r.choice(ps))
        if r.random() < 0.7: ps.sort()
        else: r.shuffle(ps)
        if not ps: ps = ["read"]
        neg = r.random() < 0.05
        lst = "{ %s }" % " ".join(ps) if len(ps) > 1 or r.random() < 0.3 else ps[0]
        if r.random() < 0.04:
            lst, ps, neg = "*", ["*"], False
        if neg:
            lst = "~" + lst
            if lst[1] != "{": lst = "~{ %s }" % ps[0]
        u = self.unordered((["~"] if neg else []) + ps, "av rule")
        if u: self.expect("C-005", [u])
        w = self.mismatch(cs, ps)
        if w: self.expect("S-009", [w])
        if kind == "allow" and len(cs) == 1 and not cs[0].endswith("_class_set") and cs[0] in CLASSES:
            if neg: self.exp[self.name].append((len(self.cur) + 1, "S-010", None))       # what holds for the complement is not specified
            else:
                s = self.suggestion(cs[0], ps)
                if s != {None}: self.expect("S-010", s)
        text = "%s %s %s:%s %s;" % (kind, src, tgt, cs[0] if len(cs) == 1 else "{ %s }" % " ".join(cs), lst)
        if len(ps) > 2 and r.random() < 0.15:
            a, sep, b = text.partition(" { ")
            if sep:
                self.put(ind, a + " {")
                self.put(ind + 1, b)
            else: self.put(ind, text)
        else: self.put(ind, text)

    def require(self, ind):
        r = self.r
        o, c = r.choice([("gen_require(`", "')"), ("gen_require(`", "')"), ("require {", "}")])
        words = ["ssh", "ssh_exec", "foo", "foo_var", "a_b", "zed"]
        order = self.order or DEFAULT
        same = True if self.same is None else self.same
        decl = []       # (flavor, name)
        for f in r.choice([order, order, order, r.sample(FLAVORS, 6)]):
            if r.random() < 0.55: continue
            ns = [self.name_of(f, w) for w in r.sample(words, r.choice([1, 1, 2, 3]))]
            if r.random() < 0.7: ns.sort(key=self.key)
            if r.random() < 0.05: ns.append(ns[-1])
            decl += [(f, n) for n in ns]
        if r.random() < 0.15: r.shuffle(decl)
        if not decl: decl = [("type", "foo_t")]
        bad = None
        for (f, a), (g, b) in zip(decl, decl[1:]):
            if f != g: k = order.index(f) > order.index(g)
            elif not same: continue
            elif a == b:
                bad = "Repeated declaration in require block (%s %s)" % (CALLED.get(g, g), b)
                break
            else: k = self.key(a) > self.key(b)
            if k:
                bad = "Unordered declaration in require block (%s %s before %s %s)" % (CALLED.get(f, f), a, CALLED.get(g, g), b)
                break
        if bad: self.expect("C-006", [bad])
        self.put(ind, o)
        i = 0
        while i < len(decl):
            f = decl[i][0]
            n = 1
            if f != "class":
                while i + n < len(decl) and decl[i + n][0] == f and r.random() < 0.5: n += 1
            if r.random() < 0.06: self.put(ind + 1, r.choice(["# comment", "", "ifdef(`x',`type aaa_t;')", "ifdef(`x',`bool zzz;')"]))
            if f == "class":
                ps = r.sample(["read", "write", "getattr", "open"], r.choice([1, 2, 3]))
                if r.random() < 0.6: ps.sort()
                if r.random() < 0.1: ps.append(ps[-1])
                u = self.unordered(ps, "class declaration")
                if u: self.expect("C-005", [u])
                self.put(ind + 1, "class %s %s;" % (decl[i][1], "{ %s }" % " ".join(ps) if len(ps) > 1 or r.random() < 0.5 else ps[0]))
            else: self.put(ind + 1, "%s %s;" % (f, ", ".join(d[1] for d in decl[i:i + n])))
            i += n
        self.put(ind, c)

    @staticmethod
    def name_of(f, w):
        return w + {"type": "_t", "role": "_r", "attribute_role": "_roles", "attribute": "_attr", "bool": "_use", "class": ""}[f]

    @staticmethod
    def key(n):
        """the suffix of types does not count"""
        return n[:-2] if n.endswith("_t") else n

    def te(self, m):
        r = self.r
        self.begin(m.name + ".te")
        self.cur = ["policy_module(%s, 1.0)" % m.name, "", "type %s_t;" % m.name]
        for _ in range(r.choice([1, 3, 6, 12])):
            y = r.random()
            if y < 0.1: self.put(0, r.choice(["", "# allow a b:file { write read };", "dontaudit %s_t self:file *;" % m.name]))
            elif y < 0.2: self.require(0)
            elif y < 0.35:
                o, c = r.choice([("optional_policy(`", "')"), ("ifdef(`x',`", "')"), ("tunable_policy(`a',`", "')"), ("if (a) {", "}")])
                self.put(0, o)
                for _ in range(r.choice([1, 2])): self.av(1, m.name + "_t", "other_t")
                if o[0] == "o" and r.random() < 0.3: self.require(1)
                self.put(0, c)
            else: self.av(0, m.name + "_t", r.choice(["self", "other_t", "{ a_t b_t }"]))
        self.files[m.name + ".te"] = (m.layer, self.cur)

    def iff(self, m):
        r = self.r
        self.begin(m.name + ".if")
        self.cur = ["## <summary>x</summary>", ""]
        for k in range(r.choice([0, 1, 2, 4])):
            self.put(0, "## <summary>x</summary>")
            self.put(0, "%s(`%s_%s%d',`" % (r.choice(["interface", "interface", "template"]), m.name, r.choice(["read", "x"]), k))
            if r.random() < 0.6: self.require(1)
            for _ in range(r.choice([1, 2])): self.av(1, "$1", "foo_t")
            self.put(0, "')")
            self.put(0, "")
        self.files[m.name + ".if"] = (m.layer, self.cur)

    @classmethod
    def verdict(cls, exp, lines, got):
        """got: [(line, id, message)]"""
        want = {}
        for l, i, ms in exp: want[(l, i)] = ms
        seen = {}
        for l, i, m in got:
            if (l, i) in seen: return ("twice", "line %d: %s: %s" % (l, i, m))
            seen[(l, i)] = m
            w = want.get((l, i), [""])
            if w is None: continue
            if cls.norm(m) not in [cls.norm(x) for x in w]:
                return ("message" if w != [""] else "unexpected", "line %d, %s: %s: %s, expected: %s" % (l, lines[l - 1].strip() if 0 < l <= len(lines) else "", i, m, w))
        for (l, i), ms in want.items():
            if ms is not None and "" not in ms and (l, i) not in seen: return ("missing", "line %d, %s: %s: %s" % (l, lines[l - 1].strip(), i, ms))
        return None

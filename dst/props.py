"""The properties: for each one a seeded experiment generator and a judge (oracle)."""
import random, re
import gen, model, order, style
from core import Report, world

OK = (0, 65)            # exit codes that claim "the whole input was analysed"
ERRNO = {"EPERM": 1, "ENOENT": 2, "EIO": 5, "ENOMEM": 12, "EACCES": 13, "ENFILE": 23, "EMFILE": 24, "ENOSPC": 28, "ELOOP": 40, "ESTALE": 116,
         "EDQUOT": 122, "ETIMEDOUT": 110, "ENOTCONN": 107, "EPIPE": 32}
DEFINED_EXITS = {"exit:0", "exit:2", "exit:64", "exit:65", "exit:70", "exit:74", "exit:78"}
POL = (".te", ".if", ".fc")
ROOT = "/w/policy"
CONF = "/w/selint.conf"


# ------------------------------------------------------------------ workloads

def weather(rng, order=True, strong=False):
    """benign nondeterminism of a real deployment; every knob independently on or off"""
    p = 0.9 if strong else 0.55
    on = lambda: rng.random() < p
    s = lambda: rng.randrange(1, 1 << 62)
    w = {}
    if order and on(): w["order"] = s()
    if on():
        w["read"] = s()
        w["read_max"] = rng.choice([1, 2, 3, 5, 7, 16, 61, 100, 255, 1000, 4095])
    if on(): w["dents"] = s()
    if on():
        w["write"] = s()
        w["write_max"] = rng.choice([1, 3, 17, 100, 4000])
    if on(): w["blksize"] = rng.choice([1, 16, 64, 512, 1000, 8192, 65536])
    if on(): w["out"] = rng.choice([0, 2])
    if on(): w["err"] = rng.choice([0, 1, 2])
    if on(): w["in"] = rng.choice([0, 1, 2])
    if rng.random() < 0.1: w["closed"] = 1
    if on(): w["size"] = rng.choice([1, s(), s()])
    if on(): w["nlink1"] = rng.choice([1, 2])
    if on(): w["dtype_unknown"] = 1
    if on(): w["ino"] = s()
    if on(): w["dev"] = s()
    if on(): w["env"] = s()
    if on(): w["heap"] = s()
    if on(): w["heap_mode"] = rng.choice([1, 1, 2, 3])
    if on(): w["lat"] = s()
    return w


def calm(rng):
    """weather that leaves the order of the report alone"""
    w = weather(rng)
    for k in ("order", "out"): w.pop(k, None)
    return w


def options(rng, summary=True):
    o = []
    if summary and rng.random() < 0.4: o.append(rng.choice(["-S", "--summary"]))
    if rng.random() < 0.4: o.append(rng.choice(["-F", "--fail"]))
    if rng.random() < 0.15: o += ["-l", rng.choice("CSWE")]
    for _ in range(rng.choice([0, 0, 0, 1, 3])): o += ["-d", rng.choice(gen.CHECK_IDS)]
    for _ in range(rng.choice([0, 0, 0, 1, 3])): o += ["-e", rng.choice(gen.CHECK_IDS)]
    if rng.random() < 0.08: o += ["-E", "-e", rng.choice(gen.CHECK_IDS), "-e", rng.choice(gen.CHECK_IDS)]
    return o


MODES = ["source", "source", "source", "files", "normal", "context", "dirs"]


def policy(rng, mode=None, nmods=None, config=None, opts=None, support=True, mess=None):
    """a policy tree and a way to run selint on it -> experiment without variants"""
    mode = mode or rng.choice(MODES)
    M = mess or gen.Messy(rng, nmods)
    tree, argv, paths = {}, ["selint"], []
    tree["/w"] = ["d"]
    base = ROOT + rng.choice(["", "", "/modules", "/policy/modules", "/a/b/c/d/e"])
    if mode == "context":
        k = rng.randrange(1, len(M.mods) + 1)
        every = M.mods
        M.mods = every[:k]
        tree.update(M.files(base))
        M.mods = every[k:]
        if M.mods:
            tree.update(M.files("/w/ctx"))
        else:
            tree["/w/ctx"] = ["d"]
        M.mods = every
        if support: tree.update(gen.support(rng, M.mods, rng.choice([ROOT, "/w/ctx"])))
        argv += ["-r", "--context=" + rng.choice(["ctx", "/w/ctx", "./ctx"])]
        paths = ["policy"]
    else:
        tree.update(M.files(base))
        if mode == "normal":
            if rng.random() < 0.8: tree.update(gen.kernel_classes(rng))
            if rng.random() < 0.7:
                D = gen.Messy(rng, rng.choice([1, 2, 3]), tag="dev")
                for p, n in D.files("/usr/share/selinux/devel/include").items():
                    if p.endswith(".if"): tree[p] = n
            argv += ["-r"]
            paths = ["policy"]
        else:
            if support: tree.update(gen.support(rng, M.mods, ROOT))
            argv += ["-s"]
            if mode == "source":
                argv += ["-r"]
                paths = [rng.choice(["policy", "./policy", "/w/policy", "policy/"])]
            elif mode == "files":
                paths = [p[3:] for p in tree if p.startswith(ROOT + "/") and tree[p][0] == "f"]
            elif mode == "dirs":
                argv += ["-r"]
                seen = {}
                for p in tree:
                    if p.startswith(ROOT + "/"): seen[p.split("/")[3]] = 1
                paths = ["policy/" + d for d in seen]
    if support and mode in ("source", "context", "dirs") and rng.random() < 0.12:      # support files of another policy in between
        for d in rng.sample(sorted({p.rsplit("/", 1)[0] for p in tree if p.startswith("/w/") and p.endswith(".te")}), 1) * rng.choice([1, 2]):
            other = gen.support(rng, [m for m in M.mods if rng.random() < 0.7], "/o")
            for p in rng.sample(sorted(other), rng.choice([1, 1, 2])):
                q = d + "/" + p.rsplit("/", 1)[1]
                if q not in tree: tree[q] = ["f", other[p][1].replace("= base", "= off").replace("read", "getattr")]
    for _ in range(rng.choice([0, 0, 1, 3])):       # bystanders that are not policy
        d = rng.choice([p.rsplit("/", 1)[0] for p in tree if p.endswith(".te")] or [ROOT])
        tree[d + "/" + rng.choice(["README", "Makefile", ".te~", "x.te.bak", "metadata.xml", "core.in", ".gitignore"])] = ["f", "junk ( ' ` \x00\n"]
    if mode != "files" and rng.random() < 0.2:
        tree[ROOT + "/.git/objects/x.te"] = ["f", "this is not policy ((("]
    if config if config is not None else rng.random() < 0.5:
        tree[CONF] = ["f", gen.config(rng, None if rng.random() < 0.4 else "convention", [rng.choice(gen.CHECK_IDS) for _ in range(rng.choice([0, 0, 2]))])]
        argv += ["-c", rng.choice(["selint.conf", CONF])]
    argv += options(rng) if opts is None else opts
    # directory order as stored must not be the order of creation
    keys = list(tree)
    rng.shuffle(keys)
    keys.sort(key=lambda k: 0 if k == "/w" else 1)
    return {"tree": {k: tree[k] for k in keys}, "cwd": "/w", "env": [], "argv": argv + paths, "p": {"mode": mode, "npaths": len(paths)}, "variants": [{}]}


def shuffled_args(rng, x):
    n = x["p"]["npaths"]
    a = x["argv"]
    if n < 2: return a
    head, paths = a[:len(a) - n], a[len(a) - n:]
    paths = list(paths)
    rng.shuffle(paths)
    return head + paths


def mangle(rng, s, hard=True):
    """textual damage: what a torn write, a bad merge, an editor or another OS leaves behind"""
    k = rng.randrange(12 if hard else 5)
    if k == 0: return s.replace("\n", "\r\n")
    if k == 1: return s.rstrip("\n")
    if k == 2: return s + "# " + "x" * rng.choice([1000, 5000, 20000]) + "\n"
    if k == 3: return "\n" * rng.choice([1, 300]) + s
    if k == 4: return s.replace("\t", " " * rng.choice([1, 8, 200]))
    if not s: return rng.choice(["", "\0", "\n", "(", "'"])
    i = rng.randrange(len(s))
    if k == 5: return s[:i]
    if k == 6: return s[:i] + chr(rng.randrange(256)) + s[i + 1:]
    if k == 7: return s[:i] + "\0" * rng.choice([1, 512]) + s[i:]
    if k == 8:
        j = min(len(s), i + rng.choice([1, 5, 40, 400]))
        return s[:i] + s[j:]
    if k == 9:
        j = min(len(s), i + rng.choice([5, 40, 400]))
        return s[:j] + s[i:]
    if k == 10:
        L = s.split("\n")
        j = rng.randrange(len(L))
        L[j] = rng.choice(["')", "',`", "interface(`x',`", "optional_policy(`", "}", "{", "ifdef(`a',`", "gen_require(`", ";;", "$1", "$*", "`", "'", "allow a b:c d",
                           "class x { y }", "define(`a',`{ a }')", "#selint-disable:", "#selint-disable: W-001", "/x -", "- - -", "/x gen_context(", "=", "a=b=c", "x=", "\\"])
        return "\n".join(L)
    return "".join(chr(rng.randrange(256)) for _ in range(rng.choice([1, 10, 300])))


TOK = re.compile(r"[A-Za-z0-9_$.+/-]+|\\s+|.", re.S)


def retoken(rng, s, pool):
    """damage that keeps most of the grammar: tokens swapped, repeated, lengthened, taken from elsewhere"""
    T = TOK.findall(s)
    if not T: return s
    for _ in range(rng.choice([1, 1, 2, 4, 12])):
        i = rng.randrange(len(T))
        k = rng.randrange(9)
        if k == 0: T[i] = rng.choice(T)
        elif k == 1 and pool: T[i] = rng.choice(TOK.findall(rng.choice(pool)) or [""])
        elif k == 2: T[i] = T[i][:1] * rng.choice([2, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024, 4096, 9000])
        elif k == 3: T[i] = ""
        elif k == 4: T[i] = T[i] + T[i]
        elif k == 5: T[i] = rng.choice(["$", "$0", "$1", "$10", "$99999999999", "$*", "$$1", "$-1", "$1$2$1", "-", "~", "~{", "*", "{ }", "{", "}", "`'", "``", "''", '""', '"', "_", ".", ",", ":", "::", ";", "(", ")", "()",
                                        "self", "all_perms", "x_class_set", "gen_context", "\0", "\xff", "#", "\n", "0x", "0xffffffffff", "4294967296", "-1", "<<none>>", "dnl", "s0:c0.c1023", "\r\n"])
        elif k == 6:
            j = rng.randrange(len(T))
            T[i], T[j] = T[j], T[i]
        elif k == 7:
            j = min(len(T), i + rng.choice([1, 3, 10, 40]))
            T[i:i] = T[i:j] * rng.choice([1, 1, 2, 30])
        else: T[i] = " ".join("%s%d" % (T[i].strip()[:20], q) for q in range(rng.choice([2, 7, 8, 9, 15, 16, 17, 33, 64, 65, 130])))
    return "".join(T)[:200000]


def scanfiles(x):
    return [p for p, n in x["tree"].items() if p.endswith(POL) and n[0] == "f" and "/.git/" not in p]


def verdict(r):
    """order-insensitive observable result"""
    if r.code in OK:
        return (r.outcome, sorted(r.out.split("\n")))
    if r.code == 70:
        return (r.outcome, None)
    return (r.outcome, sorted(r.out.split("\n")))


def diff(a, b):
    la, lb = list(a), list(b)
    for l in a:
        if l in lb:
            lb.remove(l)
            la.remove(l)
    return "only there: %s; only here: %s" % (la[:3], lb[:3])


class Prop:
    level = "exploration"
    min_variants = 1
    fixed_tree = False      # the minimiser leaves tree and command line alone
    quick, thorough = 1000, 20000
    assumptions = ["the simulated kernel answers like Linux for the calls selint, fts and stdio make (sim/sim.c)",
                   "seeded search: nothing is claimed about schedules, faults or inputs that were not drawn"]
    rule = ""

    def corner(self):
        return []


# ------------------------------------------------------------------ 1 order

def shared(rng, t):
    """declare some names in several files: declarations, interfaces and template calls of one in another, a file of the same name elsewhere"""
    tes, ifs = sorted(p for p in t if p.endswith(".te") and t[p][0] == "f"), sorted(p for p in t if p.endswith(".if") and t[p][0] == "f")
    for _ in range(rng.choice([1, 2, 4])):
        k = rng.randrange(5)
        if k < 2 and len(tes) > 1:
            a, b = rng.sample(tes, 2)
            L = [l for l in t[a][1].split("\n") if re.match(r"(type|attribute|attribute_role|role|bool|typealias) [^$]*;|\w+_template\(", l) and " types " not in l]
            B = t[b][1].split("\n")
            for l in rng.sample(L, min(len(L), 3)): B.insert(rng.randrange(2, len(B) + 1) if len(B) > 1 else len(B), l)
            t[b] = ["f", "\n".join(B) + ("" if B[-1] == "" else "\n")]
        elif k == 2 and len(ifs) > 1:
            a, b = rng.sample(ifs, 2)
            L = re.findall(r"^(?:interface|template)\(.*?^'\)\n", t[a][1], re.M | re.S)
            if L: t[b] = ["f", t[b][1].rstrip("\n") + "\n\n" + rng.choice(L)]
        elif tes + ifs:
            a = rng.choice(tes + ifs)
            b = a.rsplit("/", 1)[0] + "/" + rng.choice(["again", "x", "system", "kernel"]) + "/" + a.rsplit("/", 1)[1]
            t.setdefault(b, t[a])


class Order(Prop):
    id, title = "P01", "Verdict independent of directory and argument order"
    quick, thorough = 8000, 160000
    min_variants = 2
    rule = ("A case is a generated policy tree (1-10 modules, calls across files, template and transform chains) run once in stored order and 3 more "
            "times under seeded directory orders, argument permutations and other benign weather; all reports must agree as multisets of lines.")

    def gen(self, rng, R, tier, i):
        x = policy(rng)
        if rng.random() < 0.25: shared(rng, x["tree"])
        for _ in range(3):
            v = {"weather": {"order": rng.randrange(1, 1 << 62)}, "argv": shuffled_args(rng, x)}
            if rng.random() < 0.3: v["weather"] = {**weather(rng), **v["weather"]}
            x["variants"].append(v)
        if rng.random() < 0.15:         # unparsable files: the exit code must not depend on the order either
            for p in rng.sample(scanfiles(x), min(len(scanfiles(x)), rng.choice([1, 2]))):
                x["tree"][p] = ["f", mangle(rng, x["tree"][p][1])]
        return x

    def judge(self, x, R):
        a = R.run(world(x, 0))
        va = verdict(a)
        for i in range(1, len(x["variants"])):
            b = R.run(world(x, i))
            vb = verdict(b)
            if va[0] != vb[0]:
                if a.code is None and b.code is None: return None
                return ("exit", "exit status depends on the order: %s against %s" % (va[0], vb[0]))
            if va != vb:
                return ("report", "report depends on the order: " + diff(va[1], vb[1]))
        return None


# ------------------------------------------------------------------ 2 delivery

class Delivery(Prop):
    id, title = "P02", "Byte-identical report however the kernel delivers the bytes"
    quick, thorough = 2500, 60000
    min_variants = 2
    rule = ("A case is a policy tree, often with damaged, CRLF, unterminated or very long-lined files, run calmly and 3 times with seeded short reads, "
            "directory reads split into small batches, wrong st_size, other block sizes; stdout, stderr and exit status must be byte-identical.")

    def gen(self, rng, R, tier, i):
        x = policy(rng)
        ps = [p for p, n in x["tree"].items() if n[0] == "f" and not p.startswith("/sys")]
        for p in rng.sample(ps, min(len(ps), rng.choice([0, 0, 1, 1, 2, 4]))):
            x["tree"][p] = ["f", mangle(rng, x["tree"][p][1], rng.random() < 0.5)]
        for p in rng.sample(ps, min(len(ps), rng.choice([0, 0, 1, 3]))):
            x["tree"][p] = ["f", x["tree"][p][1], {"size": rng.choice([0, 1, 4096, 1 << 20, max(0, len(x["tree"][p][1]) - 1), len(x["tree"][p][1]) // 2])}]
        o = rng.randrange(1, 1 << 62)
        x["variants"] = [{"weather": {"order": o}}]
        for _ in range(3):
            w = {k: v for k, v in weather(rng, strong=True).items() if k in ("read", "read_max", "dents", "blksize", "write", "write_max", "lat", "dtype_unknown", "size")}
            w["order"] = o
            x["variants"].append({"weather": w})
        x["variants"][1]["weather"].update({"read": rng.randrange(1, 1 << 62), "read_max": 1 if rng.random() < 0.5 else rng.choice([2, 3, 7])})
        return x

    def judge(self, x, R):
        a = R.run(world(x, 0))
        for i in range(1, len(x["variants"])):
            b = R.run(world(x, i))
            if a.outcome != b.outcome:
                return ("exit", "exit status depends on how the bytes arrive: %s against %s" % (a.outcome, b.outcome))
            if a.code is None: continue
            if a.out != b.out:
                return ("stdout", "report depends on how the bytes arrive: " + diff(a.out.split("\n"), b.out.split("\n")))
            if a.err != b.err:
                return ("stderr", "diagnostics depend on how the bytes arrive")
        return None


# ------------------------------------------------------------------ faults on input

def trace(x, R, i=0):
    """(op, path) -> number of occurrences in the execution of variant i without its faults"""
    r = R.run(world(x, i, faults=[]), log=True)
    occ = {}
    fds = {}
    last = None
    for l in r.log.split("\n"):
        t = l.split(" ")
        if t[0] == "open" and "->" in t:
            j = t.index("->")
            p = " ".join(t[1:j])
            if int(t[j + 1]) >= 0: fds[int(t[j + 1])] = p
            last = p
        if t[0] == "stat" and len(t) == 2 and t[1].startswith("/"): occ[("stat", t[1])] = occ.get(("stat", t[1]), 0) + 1
        if t[0] == "getdents" and len(t) > 1: occ[("getdents", t[1])] = occ.get(("getdents", t[1]), 0) + 1
        if t[0] == "read" and len(t) > 1 and t[1].isdigit():
            p = fds.get(int(t[1]))
            if p: occ[("read", p)] = occ.get(("read", p), 0) + 1
        if t[0] == "open" and "->" in t and int(t[t.index("->") + 1]) >= 0:
            occ[("open", last)] = occ.get(("open", last), 0) + 1
        if t[0] == "fchdir": occ[("fchdir", None)] = occ.get(("fchdir", None), 0) + 1
        if t[0] == "access" and len(t) > 1: occ[("access", t[1])] = 1
    return r, occ


def resolve(x, p):
    """the tree path an opened name (relative, possibly below a directory fts changed into) stands for"""
    import sim
    t = x["tree"]
    q = sim.norm(p, x["cwd"])
    if q in t: return q
    return None


FILE_ERR = ["EIO", "EIO", "EACCES", "EACCES", "ENOMEM", "EMFILE", "ENFILE", "ESTALE", "ELOOP", "ENOENT", "EPERM", "ETIMEDOUT"]


def input_faults(rng, x, R, targets, dirs, n):
    """faults on the files in targets and the directories in dirs, placed where the calm run touches them"""
    r, occ = trace(x, R)
    rd = {}
    for (op, p), k in occ.items():
        if op == "read":
            q = resolve(x, p)
            if q: rd[q] = rd.get(q, 0) + k
    out = []
    for _ in range(n):
        y = rng.random()
        if dirs and y < 0.35:
            d = rng.choice(dirs)
            op = rng.choice(["open", "open", "stat", "fchdir", "getdents"])
            f = {"op": op, "path": d, "nth": 0 if op != "stat" else rng.choice([0, 0, 1]), "act": rng.choice(["errno", "sticky"]),
                 "arg": ERRNO[rng.choice(["EIO", "EACCES", "ESTALE", "EMFILE", "ENOMEM"])]}
            if op == "fchdir":
                f["nth"] = rng.randrange(max(1, occ.get(("fchdir", None), 1)))
                f["path"] = None
            if op == "getdents": return [f]         # alone: what it breaks is a known finding and must not hide others
            out.append(f)
        elif targets:
            p = rng.choice(targets)
            op = rng.choice(["open", "open", "read", "read", "read", "stat"])
            k = rd.get(p, 1)
            f = {"op": op, "path": p, "nth": 0, "act": rng.choice(["errno", "sticky"]), "arg": ERRNO[rng.choice(FILE_ERR if op != "read" else ["EIO", "ESTALE", "ENOMEM", "ETIMEDOUT", "ENOTCONN"])]}
            if op == "read": f["nth"] = rng.choice([0, k - 1, rng.randrange(max(1, k))])
            out.append(f)
    return out


def succeeded_differently(a, b):
    """b claims success although its report is not the one of the undisturbed execution a"""
    return b.code in OK and (b.outcome != a.outcome or b.out != a.out)


class NoOmission(Prop):
    id, title = "P03", "No silent omission of policy sources"
    quick, thorough = 3000, 100000
    min_variants = 2
    level = "fault_enumeration"
    rule = ("A case is a policy tree, a calm execution and 4 executions in which opening, reading, stat-ing or listing some scanned policy file, context "
            "file or directory fails at a drawn occurrence (once or for good). Each must end in a failing status with a diagnostic or give the calm report.")

    def gen(self, rng, R, tier, i):
        x = policy(rng)
        for p in list(x["tree"]):
            n = x["tree"][p]
            if n[0] == "f" and p.endswith(POL) and rng.random() < 0.2:     # several reads per file
                x["tree"][p] = ["f", n[1] + "# pad\n" * rng.choice([10, 900])]
        w = weather(rng)
        links = []
        for p in rng.sample(sorted(scanfiles(x)), 1 if rng.random() < 0.4 else 0):      # a source kept elsewhere, behind a link
            x["tree"]["/w/store/" + p.rsplit("/", 1)[1] + "_real"] = x["tree"][p]
            x["tree"][p] = ["l", "/w/store/" + p.rsplit("/", 1)[1] + "_real"]
            links.append(x["tree"][p][1])
        files = scanfiles(x) + links
        dirs = sorted({p.rsplit("/", 1)[0] for p in files} | {ROOT, "/w/ctx"} & {q for p in x["tree"] for q in parents(p)})
        dirs = [d for d in dirs if d.startswith("/w/")]
        x["variants"] = [{"weather": w}]
        for _ in range(4):
            x["variants"].append({"weather": w, "faults": input_faults(rng, x, R, files, dirs, rng.choice([1, 1, 1, 2, 3]))})
            if links and rng.random() < 0.3:        # what the link names is gone
                x["variants"][-1]["faults"] = [{"op": "tick", "path": links[0], "nth": 0, "act": "unlink"}]
        return x

    def judge(self, x, R):
        late = None         # what is a known finding must not hide a later variant
        for i in range(1, len(x["variants"])):
            v = x["variants"][i]
            a = R.run(world(x, i, faults=[]))
            if a.code not in OK: continue
            b = R.run(world(x, i))
            hit = [f for f, k in zip(v.get("faults", ()), b.fired) if k]
            if not hit: continue
            R.note("fault_fired")
            if b.code is None: return ("crash", "input fault ends in %s" % b.outcome)
            if b.code in OK:
                if b.out == a.out and b.outcome == a.outcome:
                    R.note("masked_by_identical_report")
                    continue
                ops = "+".join(sorted({f["op"] + ":" + kind_of(x, f) for f in hit}))
                if "fchdir:any" in ops and "-s" not in x["argv"]:
                    new = set(Report(b.out).other) - set(Report(a.out).other)
                    if any(l.startswith("Warning") and ("header" in l or "kernel" in l) for l in new):
                        R.note("support_lookup_announced")      # hit the search for headers or classes, not for sources: P04
                        continue
                bad = ("omission " + ops, "exit status %d although %s failed; %s" % (b.code, ops, diff(a.out.split("\n"), b.out.split("\n"))))
                if ops != "getdents:directory": return bad
                late = late or bad
                continue
            if not b.err.strip() and not any(l.startswith("Error") for l in Report(b.out).other):
                return ("mute", "failing exit status %d without a diagnostic" % b.code)
        return late


def parents(p):
    out = []
    while "/" in p[1:]:
        p = p.rsplit("/", 1)[0]
        out.append(p)
    return out


def kind_of(x, f):
    p = f.get("path")
    if p is None: return "any"
    n = x["tree"].get(p)
    if n is None or n[0] == "d": return "directory"
    return p.rsplit(".", 1)[-1] if "." in p.rsplit("/", 1)[-1] else p.rsplit("/", 1)[-1]


class SupportFaults(Prop):
    id, title = "P04", "Lost support knowledge is announced"
    quick, thorough = 3000, 100000
    min_variants = 2
    level = "fault_enumeration"
    rule = ("A case is a policy tree with configuration and support files (access_vectors, modules.conf, obj_perm_sets.spt, kernel class directory, "
            "development headers) and 4 executions in which accessing some of those fails at a drawn occurrence.")

    def gen(self, rng, R, tier, i):
        x = policy(rng, mode=rng.choice(["source", "normal", "normal", "context", "files"]), config=True)
        if rng.random() < 0.3:
            x["tree"]["/usr/local/etc/selint.conf"] = x["tree"].pop(CONF)
            j = x["argv"].index("-c")
            del x["argv"][j:j + 2]
        sup = [p for p, n in x["tree"].items() if n[0] == "f" and (p.endswith(("selint.conf", "modules.conf", "access_vectors", "obj_perm_sets.spt"))
                                                                  or p.startswith(("/sys", "/usr/share")))]
        top = [p for p in sup if not p.startswith("/sys")]
        if rng.random() < 0.5: x["argv"][1:1] = rng.choice([["-d", "E-007"], ["-d", "E-008"], ["-d", "E-007", "-d", "E-008"]])    # without the notes that go with these
        dirs = sorted({q for p in sup for q in parents(p) if q.startswith(("/sys/fs/selinux/class", "/usr/share/selinux/devel"))})
        w = weather(rng)
        x["variants"] = [{"weather": w}]
        for _ in range(4):
            tg = top if top and rng.random() < 0.75 else sup
            fs = input_faults(rng, x, R, tg, dirs, rng.choice([1, 1, 1, 2]))
            for p in tg:
                if "selint.conf" in p and rng.random() < 0.25: fs.append({"op": "access", "path": p, "nth": 0, "act": "errno", "arg": ERRNO[rng.choice(["EACCES", "EIO"])]})
            x["variants"].append({"weather": w, "faults": fs})
        return x

    def judge(self, x, R):
        for i in range(1, len(x["variants"])):
            v = x["variants"][i]
            a = R.run(world(x, i, faults=[]))
            if a.code not in OK: continue
            b = R.run(world(x, i))
            hit = [f for f, k in zip(v.get("faults", ()), b.fired) if k]
            if not hit: continue
            R.note("fault_fired")
            if b.code is None: return ("crash", "fault on a support file ends in %s" % b.outcome)
            if b.code in OK and b.out != a.out:
                new = set(Report(b.out).other) - set(Report(a.out).other)
                if not any(l.startswith(("Warning", "Error", "Note")) for l in new):
                    ops = "+".join(sorted({f["op"] + ":" + kind_of(x, f) for f in hit}))
                    return ("unannounced " + ops, "report changed without a warning although %s failed: %s" % (ops, diff(a.out.split("\n"), b.out.split("\n"))))
                R.note("announced")
            elif b.code not in OK:
                R.note("refused")
                if not b.err.strip() and not Report(b.out).other: return ("mute", "failing exit status %d without a diagnostic" % b.code)
        return None


# ------------------------------------------------------------------ output

class OutputFaults(Prop):
    id, title = "P05", "No success status unless the whole report was delivered"
    quick, thorough = 2500, 80000
    min_variants = 2
    level = "fault_enumeration"
    rule = ("A case is a policy tree and 5 executions on a failing output device: error on the n-th write (once or for good), a device full after n bytes, "
            "an error on close, or only short writes. Success status demands the byte-identical report; short writes alone must change nothing.")

    def gen(self, rng, R, tier, i):
        x = policy(rng)
        if rng.random() < 0.2: x["argv"].insert(1, "-v")
        if rng.random() < 0.1: x["argv"] = ["selint", rng.choice(["-h", "-V"])]
        w = weather(rng)
        a = R.run(world({**x, "variants": [{"weather": w}]}, 0))
        n, nw, nc = len(a.out), a.cnt["writes"], a.cnt["closes"]
        x["variants"] = [{"weather": w}]
        for _ in range(5):
            y = rng.random()
            e = ERRNO[rng.choice(["EIO", "ENOSPC", "EDQUOT", "EPIPE", "ESTALE"])]
            if y < 0.35: fs = [{"op": "write", "fd": 1, "nth": rng.choice([0, max(0, nw - 1), rng.randrange(max(1, nw))]), "act": rng.choice(["errno", "sticky"]), "arg": e}]
            elif y < 0.75: fs = [{"op": "write", "fd": 1, "nth": 0, "act": "sticky", "arg": e, "arg2": rng.choice([1, max(1, n - 1), rng.randrange(1, n + 2)])}]
            elif y < 0.85: fs = [{"op": "close", "path": None, "nth": max(0, nc - 1), "act": "errno", "arg": e}]
            else: fs = [{"op": "write", "fd": 1, "nth": rng.randrange(max(1, nw)), "act": "short", "arg": rng.randrange(1, 50)}]
            x["variants"].append({"weather": w, "faults": fs})
        x["variants"].append({"weather": {**w, "closed": rng.choice([2, 2, 1, 3, 4, 5, 6, 7])}})
        return x

    def judge(self, x, R):
        for i in range(1, len(x["variants"])):
            w = x["variants"][i].get("weather", {})
            a = R.run(world(x, i, faults=[], weather={k: v for k, v in w.items() if k != "closed"}))
            if a.code is None: continue
            b = R.run(world(x, i))
            if w.get("closed") and not x["variants"][i].get("faults"):
                R.note("descriptors_closed_at_start")
                if b.code is None: return ("crash", "closed standard descriptors end in %s" % b.outcome)
                if w["closed"] & 2:
                    if a.out and b.code in OK: return ("closed", "exit status %d although standard output is closed and %d bytes are lost" % (b.code, len(a.out)))
                elif b.out != a.out or b.outcome != a.outcome:
                    return ("closed", "closing descriptors other than standard output changes the report")
                continue
            fs = x["variants"][i].get("faults", [])
            if not any(b.fired[j] for j in range(len(fs))): continue
            short = all(f["act"] == "short" for f in fs)
            closes = any(f["op"] == "close" for f in fs)
            if b.code is None: return ("crash", "output fault ends in %s" % b.outcome)
            if b.out != a.out or (short and b.outcome != a.outcome):
                R.note("report_incomplete")
                if short: return ("short", "a short write changed the output or the status")
                if b.code in OK:
                    return ("lost", "exit status %d although %d of %d bytes of the report were lost" % (b.code, len(a.out) - len(b.out), len(a.out)))
            elif b.code in OK and b.code != a.code:
                return ("status", "exit status %s became %s" % (a.code, b.code))
            elif closes and b.code in OK: R.note("close_error_hit_an_input")
        return None


# ------------------------------------------------------------------ fail-stop

class FailStop(Prop):
    id, title = "P06", "An unparsable source stops the run, alone and in company"
    quick, thorough = 3000, 80000
    rule = ("A case is a policy tree in which 0-3 sources are damaged (torn, merged, garbage, crossed quotes) and run under seeded order and chunking; each "
            "source is also run alone. The joint run fails exactly when some source fails alone, and a failed run reports no check finding and no summary.")

    def gen(self, rng, R, tier, i):
        x = policy(rng, mode=rng.choice(["source", "dirs", "files", "context"]))
        fs = [p for p in scanfiles(x) if not p.endswith(".fc")]
        for p in rng.sample(fs, min(len(fs), rng.choice([0, 1, 1, 1, 2, 3]))):
            x["tree"][p] = ["f", mangle(rng, x["tree"][p][1])]
        x["variants"] = [{"weather": weather(rng)}]
        return x

    def judge(self, x, R):
        a = R.run(world(x, 0))
        if a.code is None: return None
        if a.code not in OK + (70,): return None
        conf = x["argv"][x["argv"].index("-c"):][:2] if "-c" in x["argv"] else []
        failing = []
        for p in scanfiles(x):
            w = x["variants"][0].get("weather", {})
            s = R.run(world(x, 0, argv=["selint", "-s"] + conf + [p], weather={k: v for k, v in w.items() if k != "order"}))
            if s.code is None: return None
            if s.code not in OK: failing.append((p, s))
        R.note("joint_failed" if a.code == 70 else "joint_passed")
        if failing and a.code in OK:
            return ("swallowed", "%s does not parse alone, but the joint run ends with status %d" % (failing[0][0], a.code))
        if not failing and a.code == 70:
            return ("contagion", "every source parses alone, but the joint run fails: %s" % [l for l in a.out.split("\n") if "rror" in l][:2])
        if a.code == 70:
            rep = Report(a.out)
            if [f for f in rep.findings if f[2] != "F"]:
                return ("findings", "failed run still reports %s" % (rep.findings[0],))
            if rep.summary is not None: return ("summary", "failed run prints a summary")
            if not any("rror" in l for l in rep.other): return ("mute", "failed run without an error message")
            bad = {p.rsplit("/", 1)[-1] for p, _ in failing}
            for f in rep.findings:
                if f[0].rsplit("/", 1)[-1] not in bad: return ("blame", "failure blamed on %s, which parses alone" % f[0])
        return None


# ------------------------------------------------------------------ fabricated findings

class NoFabrication(Prop):
    id, title = "P07", "Faults never fabricate findings"
    quick, thorough = 3000, 100000
    min_variants = 2
    level = "fault_enumeration"
    rule = ("A case is a policy tree with configuration and support files and 5 executions with 1-4 faults on any file, directory, access check or allocation; "
            "whatever the exit status, every check finding printed must also be in the calm report.")

    def gen(self, rng, R, tier, i):
        x = policy(rng, config=rng.random() < 0.3, mode=rng.choice([None, None, "context", "normal"]))
        fs = [p for p, n in x["tree"].items() if n[0] == "f"]
        dirs = sorted({q for p in fs for q in parents(p) if q.startswith(("/w/", "/sys/fs/selinux/class", "/usr/share/selinux/devel"))})
        w = weather(rng)
        a = R.run(world({**x, "variants": [{"weather": w}]}, 0))
        x["variants"] = [{"weather": w}]
        for _ in range(5):
            # what only informs matters most
            pool = [p for p in fs if p.startswith(("/w/ctx/", "/usr/share"))] or [p for p in fs if p.endswith(".if")]
            v = {"weather": w, "faults": input_faults(rng, x, R, pool if pool and rng.random() < 0.4 else fs, dirs, rng.choice([1, 1, 2, 4]))}
            if rng.random() < 0.2 and not any(f["op"] == "getdents" for f in v["faults"]): v["faults"].append({"op": "alloc", "path": None, "nth": rng.randrange(max(1, a.cnt["allocs"])), "act": "errno", "arg": 12})
            x["variants"].append(v)
        return x

    def judge(self, x, R):
        late = None
        for i in range(1, len(x["variants"])):
            v = x["variants"][i]
            a = R.run(world(x, i, faults=[]))
            if a.code not in OK: continue
            b = R.run(world(x, i))
            hit = [f for f, k in zip(v.get("faults", ()), b.fired) if k]
            if not hit: continue
            R.note("fault_fired")
            ca = list(f for f in Report(a.out).findings if f[2] != "F")
            for f in Report(b.out).findings:
                if f[2] == "F": continue
                if f in ca: ca.remove(f)
                else:
                    ops = "+".join(sorted({g["op"] + ":" + kind_of(x, g) for g in hit}))
                    bad = ("fabricated %s %s" % (f[3], ops), "finding that is not in the undisturbed report, after %s failed: %s" % (ops, f))
                    if ops != "getdents:directory": return bad
                    late = late or bad
        return late


# ------------------------------------------------------------------ termination

class Progress(Prop):
    id, title = "P08", "Every run ends within a bounded number of steps"
    quick, thorough = 6000, 120000
    rule = ("A case is a policy tree with damage, cycles (templates, interfaces, macros, directory links), deep nesting or long lines, under weather and faults "
            "that never heal; the execution must exit by itself within 2 million plus 6000 instrumented steps per input byte and 60 + 30 system calls per "
            "tree node and per read chunk.")

    def gen(self, rng, R, tier, i):
        x = policy(rng)
        t = x["tree"]
        files = [p for p, n in t.items() if n[0] == "f" and not p.startswith("/sys")]
        for p in rng.sample(files, min(len(files), rng.choice([0, 1, 2, 4]))):
            t[p] = ["f", mangle(rng, t[p][1])]
        y = rng.random()
        d = ROOT + "/cyc"
        if y < 0.12:
            k = rng.randrange(1, 6)
            t[d + "/loop.if"] = ["f", "".join("template(`t%d_template',`\n\tt%d_template($1)\n\ttype $1_%d_t;\n')\n" % (j, (j + 1) % k, j) for j in range(k))]
            t[d + "/loop.te"] = ["f", "policy_module(loop, 1.0)\n" + "".join("t%d_template(x%d)\n" % (j, j) for j in range(k))]
        elif y < 0.15:          # no cycle, but every one calls the next one twice
            k = rng.randrange(1, 7)
            t[d + "/loop.if"] = ["f", "".join("template(`t%d_template',`\n\tt%d_template($1)\n\tt%d_template($1_%s)\n\ttype $1_%d_t;\n')\n" % (j, j + 1, j + 1, rng.choice(["$1", "a", "$2"]), j) for j in range(k)) +
                                 "template(`t%d_template',`\n\ttype $1_t;\n')\n" % k]
            t[d + "/loop.te"] = ["f", "policy_module(loop, 1.0)\nt0_template(x)\n"]
        elif y < 0.2:
            k = rng.randrange(1, 6)
            t[d + "/loop.if"] = ["f", "".join("interface(`i%d_type',`\n\ti%d_type($1)\n')\n" % (j, (j + 1) % k) for j in range(k))]
        elif y < 0.3:
            k = rng.randrange(1, 5)
            z = rng.random()
            if z < 0.5: body = ["m%d_perms read m%d_perms" % ((j + 1) % k, j) for j in range(k)]
            elif z < 0.75:          # each one twice: a tree as deep as it is wide
                k = rng.choice([3, 12, 30])
                body = ["read open"] + ["m%d_perms m%d_perms" % (j, rng.choice([j, max(0, j - 1)])) for j in range(k - 1)]
                body.reverse()
            else:                   # each one uses all of them
                k = rng.choice([3, 8, 14])
                body = [" ".join("m%d_perms" % j for j in rng.sample(range(k), k)) for _ in range(k)]
            sfx = rng.choice(["_perms", "_perms", "_file_perms"])
            t[d + "/obj_perm_sets.spt" if rng.random() < 0.1 else ROOT + "/support/obj_perm_sets.spt"] = ["f", "".join(
                "define(`m%d_perms',`{ %s }')\n" % (j, b) for j, b in enumerate(body)).replace("_perms", sfx)]
            if rng.random() < 0.5: x["argv"] = ["selint", "-s", "-r", "-E", "-e", rng.choice(["S-010", "E-007", "W-008", "C-005"])] + x["argv"][-1:]
            t[d + "/loop.te"] = ["f", "policy_module(loop, 1.0)\nallow a_t b_t:file m0_perms;\nallow a_t b_t:file { read getattr open };\n"]
        elif y < 0.4:
            n = rng.choice([5, 20, 100])
            o, c = rng.choice([("optional_policy(`", "')"), ("ifdef(`x',`", "')"), ("{ ", " }"), ("(", ")"), ("if (x) {", "}")])
            t[d + "/deep.te"] = ["f", "policy_module(deep, 1.0)\n" + (o + "\n") * n + "allow a_t b_t:file read;\n" + (c + "\n") * n]
        elif y < 0.5:
            p = d
            for j in range(rng.choice([5, 30, 100])): p += "/d%d" % j
            t[p + "/m.te"] = ["f", "policy_module(m, 1.0)\n"]
            t[d + "/back"] = ["l", rng.choice(["..", ".", "/w", "back", "../policy"])]
        elif y < 0.6:
            n = rng.choice([300, 3000])
            t[d + "/wide.te"] = ["f", "policy_module(wide, 1.0)\nallow { " + " ".join("t%d_t" % j for j in range(n)) + " } self:file { " +
                                 " ".join("p%d" % j for j in range(n)) + " };\n"]
        elif y < 0.66:          # more statements than there is stack for a call each
            n = rng.choice([1000, 3000, 6000])
            k = rng.randrange(9)
            if k == 0: t[d + "/many.te"] = ["f", "policy_module(many, 1.0)\n" + rng.choice(["allow a_t b_t:file read;\n", "type a_%d_t;\n", "a_read_%d(a_t)\n", "# x\n", ";\n", "if (a) {\n\tallow a_t self:file read;\n}\n",
                                    "ifdef(`x',`\n\ttype b_%d_t;\n')\n", "optional_policy(`\n\ta_read(a_t)\n')\n"]).replace("%d", "1") * n]
            elif k == 1: t[d + "/many.if"] = ["f", "".join("## <summary>x</summary>\ninterface(`many_%d',`\n\tallow $1 $2:file read;\n')\n" % j for j in range(n))]
            elif k == 2: t[d + "/many.fc"] = ["f", "/usr/x\tgen_context(system_u:object_r:a_t,s0)\n" * n]
            elif k == 3: t[ROOT + "/modules.conf"] = ["f", "".join("m%d = module\n" % j for j in range(n))]
            elif k == 4: t[ROOT + "/support/obj_perm_sets.spt"] = ["f", "".join("define(`m%d_perms',`{ read m%d_perms }')\n" % (j, max(0, j - 1)) for j in range(n // 10))]
            elif k == 5: t[d + "/many.te"] = ["f", "policy_module(many, 1.0)\n" + "".join("type a%d_t;\n" % j for j in range(n // 4)) + "".join("allow a%d_t self:file read;\n" % (j * 7919 % (n // 4)) for j in range(n // 4))]
            elif k == 6: t[d + "/chain.if"] = ["f", "".join("## <summary>x</summary>\ninterface(`many_%d',`\n\tmany_%d($1)\n')\n" % (j, j + 1) for j in range(n // 10))]
            elif k == 7: t[d + "/many.te"] = ["f", "policy_module(many, 1.0)\na_read({ %s })\nrequire {\n\ttype %s;\n}\n" % (" ".join(["a_t"] * n), ", ".join(["b_t"] * n))]
            else: t[d + "/many.te"] = ["f", "policy_module(many, 1.0)\n" + "# selint-disable: W-001,C-001\n" * n]
        v = {"weather": weather(rng)}
        if rng.random() < 0.5: v["weather"]["stack"] = 256
        if rng.random() < 0.5:
            dirs = sorted({q for p in files for q in parents(p) if q.startswith("/w/")})
            v["faults"] = input_faults(rng, x, R, files, dirs, rng.choice([1, 2]))
            for f in v["faults"]:
                f["act"] = "sticky"
                if rng.random() < 0.3: f["arg"] = rng.choice([4, 11, 5])
                if f["arg"] == 4: f["act"] = "errno"        # a signal interrupts a call, it does not keep on doing so
        x["variants"] = [v]
        return x

    def judge(self, x, R):
        w = world(x, 0)
        size = sum(len(n[1]) for n in w["tree"].values() if n[0] != "d")
        chunk = w["weather"].get("read_max", 4096) if w["weather"].get("read") else 4096
        # a block size of one byte makes stdio read byte by byte
        chunk = min(chunk, max(1, w["weather"].get("blksize", 4096)))
        out = 1 if w["weather"].get("write") or w["weather"].get("blksize", 4096) < 4096 else 4096
        sysb = 2000 + 60 * len(w["tree"]) * 10 + 6 * size // chunk + (400000 if out == 1 else 0)
        r = R.run(w, step_budget=2_000_000 + 6000 * size, sys_budget=sysb)
        R.st.notes["max_steps_per_byte_x100"] = max(R.st.notes.get("max_steps_per_byte_x100", 0), r.steps * 100 // (size + 1))
        if r.outcome == "hang":
            return ("hang", "no exit after %d steps and %d system calls on %d bytes of input" % (r.steps, r.cnt["syscalls"], size))
        if r.outcome in ("signal:24", "signal:9"): return ("hang", "killed by the processor time limit")
        if r.code is None: return ("crash", "the run does not end by itself but by %s" % r.outcome)
        return None


# ------------------------------------------------------------------ memory

class Memory(Prop):
    id, title = "P09", "Damaged input and faults never corrupt memory"
    quick, thorough = 40000, 600000
    rule = ("A case is a policy tree whose sources, support files or configuration are torn, bit-flipped, duplicated, garbage or rearranged token by token, with odd command lines, under weather and I/O faults "
            "(errors, early end of file, flipped bits), executed under AddressSanitizer and UBSan: only the documented exit statuses may occur.")

    def gen(self, rng, R, tier, i):
        x = policy(rng)
        fs = [p for p, n in x["tree"].items() if n[0] == "f" and not p.startswith("/sys")]
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5])):
            p = rng.choice(fs)
            old = x["tree"][p][1]
            x["tree"][p] = ["f", mangle(rng, old) if rng.random() < 0.5 else retoken(rng, old, [x["tree"][q][1] for q in rng.sample(fs, min(3, len(fs)))])]
        for _ in range(rng.choice([0, 0, 0, 1, 3])):
            x["argv"].insert(rng.randrange(1, len(x["argv"]) + 1),
                             rng.choice(["-v", "--color=on", "--scan-hidden-dirs", "--color=x", "-l", "-dfoo", "--context=nodir", "-d", "--disable=", "--enable=", "-l=", "--level=CC", "--context=", "-E", "-c", "--config=",
                                         "", ".", "/", "-", "x.te", ".te", "/w/policy/", ".fc", "te", "--debug-parse", "--summary-only", "-V", "-h", "-?", "--no", "-m", "-m/x", "a" * 3000, "--color=" + "o" * 300]))
        v = {"weather": {k: a for k, a in weather(rng).items() if k not in ("heap", "heap_mode")}}
        if rng.random() < 0.5:
            f = input_faults(rng, x, R, fs, [ROOT], rng.choice([1, 2]))
            for g in f:
                if g["op"] == "read" and rng.random() < 0.6:
                    g["act"] = rng.choice(["flip", "eof", "short"])
                    g["arg"], g["arg2"] = rng.randrange(1, 4096), rng.randrange(8)
            v["faults"] = f
        x["variants"] = [v]
        return x

    def judge(self, x, R):
        r = R.run(world(x, 0), flavour="asan")
        if r.outcome in DEFINED_EXITS: return None
        if r.outcome == "hang": return None         # P08
        m = [l.strip() for l in r.err.split("\n") if "ERROR: AddressSanitizer" in l or "runtime error" in l]
        kind = r.outcome
        if m:
            import re
            kind = re.sub(r"0x[0-9a-f]+|==\d+==|\d{4,}", "", m[0])
            kind = kind.split(" on ")[0][:90] if "AddressSan" in kind else kind.split("runtime error:")[-1].strip()[:90]
        return ("memory " + kind, "%s %s" % (r.outcome, m[:1]))


class Alloc(Prop):
    id, title = "P10", "Failing allocations never yield a wrong success"
    quick, thorough = 6000, 120000
    min_variants = 2
    level = "fault_enumeration"
    rule = ("A case is a policy tree and 12 executions in each of which one drawn allocation (or every one from it on) of selint, libc or libconfuse fails; "
            "a run that claims success must have printed exactly the calm report.")

    def gen(self, rng, R, tier, i):
        x = policy(rng, nmods=rng.choice([1, 1, 2, 3]), config=rng.random() < 0.4)
        w = {k: v for k, v in weather(rng).items() if k in ("heap", "heap_mode", "order")}
        a = R.run(world({**x, "variants": [{"weather": w}]}, 0))
        n = max(1, a.cnt["allocs"])
        x["variants"] = [{"weather": w}]
        for _ in range(12):
            x["variants"].append({"weather": w, "faults": [{"op": "alloc", "path": None, "nth": rng.randrange(n), "act": rng.choice(["errno", "errno", "sticky"]), "arg": 12}]})
        return x

    def judge(self, x, R):
        a = R.run(world(x, 0))
        if a.code not in OK: return None
        for i in range(1, len(x["variants"])):
            b = R.run(world(x, i))
            fs = x["variants"][i].get("faults", [])
            if not any(b.fired[j] for j in range(len(fs))): continue
            R.note("fault_fired")
            if b.code is None: R.note("died_by_signal")
            elif b.code in OK and (b.out != a.out or b.code != a.code):
                rb, ra = Report(b.out), Report(a.out)
                if any(f[2] == "F" and f not in ra.findings for f in rb.findings): R.note("announced_internal_error")
                elif [l for l in rb.other if l not in ra.other and l.startswith(("Error", "Warning"))]: R.note("announced")
                else: return ("wrong", "status %d after a failed allocation, but the report differs: %s" % (b.code, diff(a.out.split("\n"), b.out.split("\n"))))
            elif b.code in OK: R.note("same_report")
            else: R.note("refused")
        return None


# ------------------------------------------------------------------ determinism of the code under test

class Environment(Prop):
    id, title = "P11", "Same tree, same bytes: nothing ambient leaks into the report"
    quick, thorough = 4000, 100000
    min_variants = 2
    rule = ("A case is a policy tree run calmly and 3 times with other heap contents and addresses, allocation reuse, inode numbers, link counts, latencies, "
            "process id, clock, locale and other environment variables, output kind; stdout and exit status must be byte-identical.")
    ENV = ["LANG=C", "LANG=tr_TR.UTF-8", "LC_ALL=de_DE.ISO-8859-1", "TZ=Pacific/Kiritimati", "HOME=/root", "HOME=", "TERM=dumb", "COLUMNS=20", "PWD=/elsewhere",
           "MALLOC_PERTURB_=165", "TMPDIR=/nonexistent", "NO_COLOR=1", "SELINT_CONF=/x", "LINES=1", "USER=x", "PATH=", "SHELL=/bin/false", "CLICOLOR_FORCE=1"]

    def gen(self, rng, R, tier, i):
        x = policy(rng)
        fs = [p for p, n in x["tree"].items() if n[0] == "f" and not p.startswith("/sys")]
        for p in rng.sample(fs, min(len(fs), rng.choice([0, 0, 1, 2]))):
            x["tree"][p] = ["f", mangle(rng, x["tree"][p][1])]
        o = rng.choice([0, rng.randrange(1, 1 << 62)])
        x["variants"] = [{"weather": {"order": o}}]
        for _ in range(3):
            w = {k: v for k, v in weather(rng, strong=True).items() if k in ("heap", "heap_mode", "ino", "dev", "env", "nlink1", "lat", "out", "err", "in", "closed", "dtype_unknown", "blksize")}
            w["order"] = o
            x["variants"].append({"weather": w, "env": rng.sample(self.ENV, rng.randrange(0, 6))})
        x["variants"].append({"weather": {"order": o}, **self.spelled(rng, x)})
        return x

    def spelled(self, rng, x):
        """the same paths from another working directory, in another spelling, maybe in another place"""
        import os.path, sim
        paths = x["argv"][len(x["argv"]) - x["p"]["npaths"]:]
        dirs = sorted({q for p in x["tree"] for q in parents(p) if q.startswith("/w/") and "/.git" not in q})
        v = {"spelled": 1, "cwd": rng.choice(["/w"] + dirs * 2)}
        if rng.random() < 0.4: v["at"] = rng.choice(["/srv/a b/c", "/x", "/w/w", "/home/u/\xe4\xff", "/deep" * 40])
        elif rng.random() < 0.2: v["cwd"] = rng.choice(["/", "/usr"])

        def sp(p, isdir):
            q = sim.norm(p, "/w")
            rel = os.path.relpath(q, v["cwd"])
            y = [q, rel, "./" + rel, q.replace("/w/", "/w//", 1), q.replace("/w/", "/w/policy/../", 1)]
            return rng.choice(y + ([rel + "/", q + "/"] if isdir else []))
        isd = {q for p in x["tree"] for q in parents(p)}
        spell, one = {}, x["p"]["mode"] in ("source", "dirs") and rng.random() < 0.4
        for t in x["argv"]:
            if t.startswith("--context="): spell[t] = [[None, "--context=" + sp(t[10:], True)]]
            elif sim.norm(t, "/w") in x["tree"] or t in paths:
                u = sim.norm(t, "/w")
                fs = [u]
                if one and u in isd:         # every file by its name
                    fs = [p for p, k in x["tree"].items() if k[0] == "f" and p.startswith(u + "/") and "/." not in p]
                    if len(fs) > 200: fs = [u]
                spell[t] = [[f, sp(f, f in isd)] for f in fs]
        v["spell"] = spell
        return v

    def judge(self, x, R):
        a = R.run(world(x, 0))
        for i in range(1, len(x["variants"])):
            v = x["variants"][i]
            if any(len(y) > 1 for y in v.get("spell", {}).values()) and not {"-r", "--recursive"} & set(x["argv"]): continue
            b = R.run(world(x, i))
            if a.code is None and b.code is None: continue
            if v.get("spelled") and a.outcome == b.outcome:      # other lines may name paths
                if a.code not in OK: continue
                ra, rb = Report(a.out), Report(b.out)
                R.note("spelled")
                if (ra.findings, ra.summary, len(ra.other)) != (rb.findings, rb.summary, len(rb.other)):
                    return ("spelling", "report depends on how the paths are given: " + diff(ra.findings + ra.other, rb.findings + rb.other))
                continue
            if a.outcome != b.outcome: return ("exit", "exit status depends on the environment: %s against %s" % (a.outcome, b.outcome))
            if a.out != b.out: return ("stdout", "report depends on the environment: " + diff(a.out.split("\n"), b.out.split("\n")))
        return None


# ------------------------------------------------------------------ scan set

class ScanSet(Prop):
    id, title = "P12", "Exactly the addressed policy files are scanned, each once"
    quick, thorough = 40000, 500000
    rule = ("A case is a directory tree of marked policy files, bystanders, hidden directories, symbolic links, files and directories with confusing names and a "
            "command line naming some of it; under seeded weather the set of files that report their mark must equal a 20-line reference model of the scan rules.")
    MARK = {"te": ("policy_module(%s, 1.0)\n;\n", "S-003"), "if": ("interface(`%s_mark',`\n\tgen_require(`\n\t\ttype %s_t;\n\t')\n\tallow $1 %s_t:file getattr;\n')\n", "C-004"),
            "fc": ("oops\n", "E-002")}

    def gen(self, rng, R, tier, i):
        t = {"/w": ["d"], "/w/r": ["d"]}
        dirs = ["/w/r"]
        for k in range(rng.choice([1, 3, 6, 12, 40])):
            d = rng.choice(dirs) + "/" + rng.choice(["d%d", "layer%d", ".hid%d", rng.choice([".hid%d", ".%d", ".%d.d"]), "a b%d", "x%d.d", "teif%d", "dir%d.te" if rng.random() < 0.3 else "e%d",
                                                    "very_long_directory_name_%d" * 3 if rng.random() < 0.2 else "f%d"]).replace("%d", str(k))
            dirs.append(d)
            t[d] = ["d"]
        n = 0
        for k in range(rng.choice([1, 4, 10, 30, 80])):
            d = rng.choice(dirs)
            y = rng.random()
            n += 1
            nm = "m%d" % n
            if n % 3 == 0 and n < 78: nm = chr(ord("a") + n // 3)      # modules with a name of one character
            e = rng.choice(["te", "if", "fc"])
            if y < 0.65: t["%s/%s.%s" % (d, nm, e)] = ["f", self.MARK[e][0].replace("%s", nm)]
            elif y < 0.72: t["%s/.%s.%s" % (d, nm, e)] = ["f", self.MARK[e][0].replace("%s", nm)]
            elif y < 0.82: t["%s/%s%s" % (d, nm, rng.choice([".te~", ".TE", ".tex", "te", ".te.orig", ".if.in", "_if", ".fcx", ".te "]))] = ["f", "junk ((("]
            elif y < 0.88: t["%s/%s" % (d, nm)] = ["l", rng.choice(dirs + ["nowhere", ".", "/"])]
            elif y < 0.94:
                t["/w/out/%s_real" % nm] = ["f", self.MARK[e][0].replace("%s", nm)]
                t["%s/%s.%s" % (d, nm, e)] = ["l", "/w/out/%s_real" % nm]
            else: t["%s/%s.conf" % (d, nm)] = ["f", "x\n"]
        if rng.random() < 0.2:          # context files are not scanned
            for k in range(rng.choice([1, 3, 9])):
                e, nm = rng.choice(["te", "if"]), "c%d" % k
                t["/w/ctx/%s/%s.%s" % (rng.choice(["a", "b/c", ".h"]), nm, e)] = ["f", self.MARK[e][0].replace("%s", nm)]
        argv = ["selint", "-s", "-d", "E-002"][:2]
        if rng.random() < 0.8: argv.append("-r")
        if rng.random() < 0.3: argv.append("--scan-hidden-dirs")
        if any(k.startswith("/w/ctx/") for k in t): argv.append("--context=/w/" + rng.choice(["ctx", "ctx", "."]))
        roots = ["/w/r"]
        y = rng.random()
        if y < 0.4:
            kids = sorted(k for k in t if k.startswith("/w/r/") and "/" not in k[5:])
            if kids: roots = rng.sample(kids, rng.randrange(1, len(kids) + 1))
        elif y < 0.6:
            fs = sorted(k for k in t if k.startswith("/w/r/") and t[k][0] == "f" and k.endswith(POL))
            if fs: roots = rng.sample(fs, rng.randrange(1, min(len(fs), 9) + 1))
        if rng.random() < 0.2:          # some of it addressed twice
            roots = roots + rng.sample(roots + [k for k in t if k.startswith("/w/r/") and "/." not in k and (t[k][0] == "d" or k.endswith(POL))], 1)
            rng.shuffle(roots)
        sp = lambda p: rng.choice([p, p[3:], "./" + p[3:], "../w/" + p[3:], p[3:] + ("/" if t[p][0] == "d" else "")])
        keys = list(t)
        rng.shuffle(keys)
        cwd = "/w"
        if rng.random() < 0.25:         # from within the tree
            import os.path
            cwd = rng.choice([d for d in ["/w", "/w/r"] + dirs if "/." not in d] + ["/"])
            r = rng.choice([d for d in ["/w", "/w/r"] + dirs if (cwd + "/").startswith(d + "/")] + [cwd])
            roots = [r] if rng.random() < 0.7 else roots
            sp = lambda p: rng.choice(["", "./" if cwd != "/" else ""]) + os.path.relpath(p, cwd)
        return {"tree": {k: t[k] for k in keys}, "cwd": cwd, "env": [], "argv": argv + [sp(p) for p in roots], "p": {"roots": roots, "nopt": len(argv)},
                "variants": [{"weather": weather(rng)}]}

    def model(self, x):
        """reference model: (basename, check id) -> how often"""
        t = x["tree"]
        a = x["argv"]
        rec, hid = "-r" in a, "--scan-hidden-dirs" in a
        import sim
        exp = {}
        full = set(t) | {q for p in t for q in parents(p)} | {"/"}
        kids = {}
        for p in full:
            if p != "/": kids.setdefault(p.rsplit("/", 1)[0] or "/", []).append(p)

        def isdir(p): return p not in t or t[p][0] == "d"

        def visit(p, name):
            if isdir(p):
                if not rec: return
                if not hid and name[:1] == "." and name[1:2] not in ("", "."): return
                for q in kids.get(p, ()): visit(q, q.rsplit("/", 1)[1])
            elif name.endswith(POL) and len(name) > 3:
                e = name[-2:]
                exp[(name, self.MARK[e][1])] = exp.get((name, self.MARK[e][1]), 0) + 1
        for arg in a[1:]:
            if arg.startswith("-"): continue
            p = sim.norm(arg, x["cwd"])
            if p not in full: return None
            name = arg.rstrip("/").rsplit("/", 1)[-1]
            if name[:1] == "." and name not in (".", "..") and isdir(p): return None     # a hidden directory named on purpose: not specified
            visit(p, name)
        return exp

    def judge(self, x, R):
        exp = self.model(x)
        if any(a == "--context=/w/ctx" for a in x["argv"]) and not any(p.startswith("/w/ctx/") for p in x["tree"]): return None
        if exp is None or not [a for a in x["argv"][1:] if not a.startswith("-")] or "-s" not in x["argv"]: return None
        for p, n in x["tree"].items():      # broken links and foreign content are not this property
            if n[0] == "l" and p.endswith(POL) and n[1] not in x["tree"]: return None
            if n[0] == "f" and (p.endswith(POL) or p.startswith("/w/out/")) and n[1] not in [m[0].replace("%s", p.rsplit("/", 1)[1].lstrip(".").split(".")[0].split("_real")[0]) for m in self.MARK.values()]: return None
        r = R.run(world(x, 0))
        if r.code is None: return None
        if r.code not in OK: return ("refused", "exit status %d on a clean tree: %s" % (r.code, (r.out + r.err)[-200:]))
        got = {}
        for f in Report(r.out).findings:
            if f[3] in ("S-003", "C-004", "E-002"): got[(f[0], f[3])] = got.get((f[0], f[3]), 0) + 1
        miss = {k: v for k, v in exp.items() if got.get(k, 0) < v}
        extra = {k: v for k, v in got.items() if exp.get(k, 0) < v}
        R.note("files_expected", len(exp))
        if miss: return ("missed", "not scanned although addressed: %s" % sorted(miss)[:3])
        if extra: return ("extra", "scanned although not addressed, or more than once: %s" % sorted(extra)[:3])
        return None


# ------------------------------------------------------------------ isolation

class Isolation(Prop):
    id, title = "P13", "Unrelated modules do not influence each other's findings"
    quick, thorough = 5000, 100000
    rule = ("A case is two generated policies that share no names, analysed apart and together under seeded order and weather with the same support files; the "
            "joint findings must be the disjoint union.")

    def gen(self, rng, R, tier, i):
        ta, tb = rng.choice([("qa", "zb"), ("q", "qq"), ("ze", "z"), ("ab", "aba")])
        if rng.random() < 0.4:          # names that are the beginning of each other, but still different names
            ws = rng.sample(gen.WORDS, 4)
            A = gen.Messy(rng, rng.choice([1, 2, 3]), tag="", words=[w + rng.choice(["", "x"]) for w in ws])
            B = gen.Messy(rng, rng.choice([1, 2, 3]), tag="", words=[m + rng.choice(["y", "yx"]) for m in ws])
        else:
            A = gen.Messy(rng, rng.choice([1, 2, 3, 4, 4, 12]), tag=ta, strange=0.3)
            B = gen.Messy(rng, rng.choice([1, 2, 3, 4, 4, 12]), tag=tb, strange=0.3, words=None)
        na, nb = {m.name for m in A.mods}, {m.name for m in B.mods}
        if na & nb: return None
        tree = {"/w": ["d"]}
        tree.update(A.files("/w/policy/a"))
        tree.update(B.files("/w/policy/b"))
        tree.update(gen.support(rng, A.mods + B.mods, "/w/sup"))
        argv = ["selint", "-s", "-r"]
        if rng.random() < 0.4:
            tree[CONF] = ["f", gen.config(rng, "convention")]
            argv += ["-c", CONF]
        argv += ["-F"] if rng.random() < 0.5 else []
        return {"tree": tree, "cwd": "/w", "env": [], "argv": argv, "p": {}, "variants": [{"weather": weather(rng)}, {"weather": weather(rng)}, {"weather": weather(rng)}]}

    def judge(self, x, R):
        base = x["argv"]
        rs = []
        for i, paths in enumerate((["policy/a"], ["policy/b"], ["policy"])):
            t = x["tree"]
            w = x["variants"][i]["weather"] if i < len(x["variants"]) else {}
            if not any(p.startswith("/w/" + paths[0] + "/") for p in t): return None
            rs.append(R.run(world(x, 0, argv=base + ["sup"] + paths if "/w/sup" in {q for p in t for q in parents(p)} else base + paths, weather=w)))
        if any(r.code is None for r in rs): return None
        a, b, c = rs
        if (a.code == 70 or b.code == 70) != (c.code == 70): return ("exit", "apart %s and %s, together %s" % (a.outcome, b.outcome, c.outcome))
        if c.code == 70: return None
        if max(a.code, b.code) != c.code: return ("exit", "apart %s and %s, together %s" % (a.outcome, b.outcome, c.outcome))
        fa, fb, fc = Report(a.out).findings, Report(b.out).findings, Report(c.out).findings
        R.note("findings", len(fc))
        if sorted(fa + fb) != fc: return ("findings", "joint report is not the union: " + diff(sorted(fa + fb), fc))
        return None


# ------------------------------------------------------------------ accounting

class Accounting(Prop):
    id, title = "P14", "Findings, summary and exit status agree"
    quick, thorough = 2500, 80000
    rule = ("A case is a policy tree run with and without -F, -S, --summary-only under weather and, in a third of the cases, faults; counts, severities, "
            "positions and exit status of every completed run must be consistent with the printed findings.")

    def gen(self, rng, R, tier, i):
        x = policy(rng, opts=options(rng, summary=False))
        x["argv"] = [a for a in x["argv"] if a not in ("-F", "--fail")]
        if rng.random() < 0.15:
            x["argv"] = x["argv"][:1] + ["-E", "-e", rng.choice(gen.CHECK_IDS)] + x["argv"][1:]
        v = {"weather": weather(rng)}
        if rng.random() < 0.33:
            fs = [p for p, n in x["tree"].items() if n[0] == "f"]
            v["faults"] = input_faults(rng, {**x, "variants": [v]}, R, fs, [ROOT], rng.choice([1, 2]))
        x["variants"] = [v]
        return x

    def judge(self, x, R):
        av = x["argv"]
        full = R.run(world(x, 0, argv=av[:1] + ["-S"] + av[1:]))
        if full.code is None: return None
        only = R.run(world(x, 0, argv=av[:1] + ["--summary-only"] + av[1:]))
        fail = R.run(world(x, 0, argv=av[:1] + ["-F"] + av[1:]))
        plain = R.run(world(x, 0))
        both = R.run(world(x, 0, argv=av[:1] + ["-F", "-S"] + av[1:]))
        quiet = R.run(world(x, 0, argv=av[:1] + ["--fail", "--summary-only"] + av[1:]))
        if full.code not in OK:
            if len({r.outcome for r in (full, only, fail, plain, both, quiet)}) != 1: return ("exit", "failing run fails differently with -S, --summary-only or -F")
            return None
        rf, ro, rl, rp = Report(full.out), Report(only.out), Report(fail.out), Report(plain.out)
        if full.code != 0 or only.code != 0 or plain.code != 0: return ("status", "status %s without --fail" % full.outcome)
        if rf.summary is None or ro.summary is None: return ("summary", "no summary although asked for")
        if rp.summary is not None: return ("summary", "summary although not asked for")
        cnt = {}
        for f in rf.findings: cnt[f[3]] = cnt.get(f[3], 0) + 1
        R.note("findings", len(rf.findings))
        if not any(k.startswith("F") for k in cnt):
            if cnt != rf.summary: return ("summary", "summary does not count the findings: " + diff(sorted(cnt.items()), sorted(rf.summary.items())))
        elif not any(full.fired): return ("internal", "internal error reported without any failure: %s" % [f for f in rf.findings if f[3][0] == "F"][:2])
        elif sum(cnt.values()) != sum(rf.summary.values()): return ("summary", "summary does not add up to the findings")
        if ro.findings: return ("summary-only", "--summary-only prints findings")
        if ro.summary != rf.summary: return ("summary-only", "--summary-only counts differently")
        if rl.findings != rf.findings or rp.findings != rf.findings: return ("findings", "findings change with -S or -F")
        if rf.repeated or ro.repeated: return ("summary", "summary lists a check more than once: %s" % (rf.repeated or ro.repeated))
        for r in (both, quiet):
            if (r.code == 65) != bool(rf.findings) or r.code not in OK: return ("fail", "status %s with --fail, a summary and %d findings" % (r.outcome, len(rf.findings)))
        if both.out != full.out or quiet.out != only.out: return ("fail", "--fail changes the report")
        if (fail.code == 65) != bool(rf.findings) or fail.code not in OK: return ("fail", "status %d with --fail and %d findings" % (fail.code, len(rf.findings)))
        lines = {}
        for p, n in x["tree"].items():
            if p.endswith(POL) and n[0] == "f":
                b = p.rsplit("/", 1)[1]
                lines[b] = max(lines.get(b, 0), n[1].count("\n") + 1)
        for f in rf.findings:
            if f[2] != f[3][0]: return ("form", "severity and id disagree: %s" % (f,))
            if f[0] not in lines: return ("form", "finding for a file that was not given: %s" % (f,))
            if not 1 <= f[1] <= lines[f[0]]: return ("form", "line outside the file: %s" % (f,))
        return None


class Presentation(Prop):
    id, title = "P15", "Presentation never changes the content"
    quick, thorough = 2000, 60000
    min_variants = 2
    rule = ("A case is a policy tree run plainly and with verbose, colour on/off/auto on a terminal, pipe or file; after removing colour codes the findings, "
            "summary and exit status must be the same, and no colour code may reach a pipe or file unless forced.")

    def gen(self, rng, R, tier, i):
        x = policy(rng)
        w = weather(rng)
        w.pop("out", None)
        x["variants"] = [{"weather": w}]
        for _ in range(3):
            o = rng.choice([[], ["-v"], ["--verbose"]]) + rng.choice([[], ["--color=on"], ["--color=off"], ["--color=auto"]])
            x["variants"].append({"weather": {**w, "out": rng.choice([0, 1, 2]), "err": rng.choice([0, 1, 2]), "in": rng.choice([0, 1, 2])}, "argv": x["argv"][:1] + o + x["argv"][1:]})
        return x

    def judge(self, x, R):
        a = R.run(world(x, 0))
        if a.code is None: return None
        ra = Report(a.out)
        for i in range(1, len(x["variants"])):
            b = R.run(world(x, i))
            w = world(x, i)
            if a.outcome != b.outcome: return ("exit", "exit status changes with the presentation: %s against %s" % (a.outcome, b.outcome))
            rb = Report(b.out)
            if ra.findings != rb.findings: return ("findings", "findings change with the presentation: " + diff(ra.findings, rb.findings))
            if ra.summary != rb.summary: return ("summary", "summary changes with the presentation")
            esc = "\033" in b.out
            forced = "--color=on" in w["argv"]
            tty = w["weather"].get("out") == 1 and "--color=off" not in w["argv"]
            if esc and not forced and not tty: return ("colour", "colour codes on something that is no terminal")
            if (forced or tty) and rb.findings and not esc: return ("colour", "no colour although %s" % ("forced" if forced else "on a terminal"))
        return None


# ------------------------------------------------------------------ resources, side effects

def long_files(rng, t):
    """some files grow to several hundred entries, by repeating what is in them"""
    for p in rng.sample(sorted(q for q in t if q.endswith((".te", ".fc", ".if"))), rng.choice([0, 0, 1, 1, 2])):
        if t[p][0] != "f" or not t[p][1]: continue
        L = t[p][1].split("\n")
        if p.endswith(".fc"): body = [l for l in L if "gen_context" in l] or ["/x/%s -d gen_context(system_u:object_r:x_t,s0)" % rng.choice("abc")]
        elif p.endswith(".if"): body = ["interface(`again%s',`", "\tallow $1 self:process fork;", "')"]
        else: body = [l for l in L if l.startswith(("allow ", "type ", "optional"))][:9] or [";"]
        body = [l.replace("optional_policy(`", "") for l in body]
        t[p] = ["f", t[p][1].rstrip("\n") + "\n" + "\n".join(body[k % len(body)] for k in range(rng.choice([150, 300, 1000]))) + "\n"]


class Descriptors(Prop):
    id, title = "P16", "Descriptor use does not grow with the policy"
    quick, thorough = 1500, 30000
    rule = ("A case is a policy of up to several hundred files (some damaged, some unreadable) in a deep or wide tree, run with 1024 and with 14 + depth "
            "descriptors; report and exit status must not change.")

    def gen(self, rng, R, tier, i):
        x = policy(rng, nmods=rng.choice([3, 10]))
        t = x["tree"]
        odd = rng.sample(["", "\n", "# x\n", "# x", "/x gen_context(", "/x <<none>>\n", "junk\n", "ifdef(`x',`\n", "\0"], rng.choice([0, 1, 1, 9]))
        for k in range(rng.choice([0, 50, 200])):
            d = "%s/l%d/s%d" % (ROOT, k % rng.choice([1, 7]), k % 3)
            t["%s/w%d.te" % (d, k)] = ["f", "policy_module(w%d, 1.0)\n;\n" % k]
            t["%s/w%d.if" % (d, k)] = ["f", "## <summary>x</summary>\ninterface(`w%d_x',`\n\tgen_require(`\n\t\ttype w%d_t;\n\t')\n\tallow $1 w%d_t:file getattr;\n')\n" % (k, k, k)]
            t["%s/w%d.fc" % (d, k)] = ["f", rng.choice(["/x/w%d gen_context(system_u:object_r:w%d_t,s0)\n" % (k, k)] * 2 + odd)]
            if rng.random() < 0.3: t["%s/w%d.if" % (d, k)] = ["f", rng.choice(["", "## <summary>x</summary>\n", "## <summary>x</summary>\n\n# x\n"])]
        long_files(rng, t)
        if rng.random() < 0.2:
            fs = scanfiles(x)
            p = rng.choice(fs)
            t[p] = ["f", mangle(rng, t[p][1])]
        x["variants"] = [{"weather": weather(rng)}]
        return x

    def judge(self, x, R):
        depth = max([p.count("/") for p in x["tree"]] or [1])
        w = world(x, 0)
        a = R.run(w)
        b = R.run({**w, "weather": {**w["weather"], "fdlimit": 14 + depth}})
        R.st.notes["max_descriptor"] = max(R.st.notes.get("max_descriptor", 0), a.cnt["max_fd"])
        if a.code is None: return None
        if a.cnt["max_fd"] >= 14 + depth: return ("grows", "descriptor %d in use for %d files" % (a.cnt["max_fd"], len(x["tree"])))
        if a.outcome != b.outcome or a.out != b.out: return ("limit", "report changes with %d descriptors: %s against %s" % (14 + depth, a.outcome, b.outcome))
        return None


class ReadOnly(Prop):
    id, title = "P17", "A run leaves nothing behind"
    quick, thorough = 4000, 100000
    rule = ("A case is any of the workloads of the other properties (fault-free or faulty, damaged, all option mixes); the simulated kernel records every call that "
            "would create, modify, rename, link or delete anything, start a process or open a socket, and there must be none.")

    def gen(self, rng, R, tier, i):
        x = policy(rng)
        fs = [p for p, n in x["tree"].items() if n[0] == "f" and not p.startswith("/sys")]
        for p in rng.sample(fs, min(len(fs), rng.choice([0, 0, 1, 2]))):
            x["tree"][p] = ["f", mangle(rng, x["tree"][p][1])]
        if rng.random() < 0.4: x["argv"].insert(1, rng.choice(["-v", "--color=on", "--debug-parser", "-m", "--scan-hidden-dirs", "-V", "-h", "--summary-only"]))
        v = {"weather": weather(rng), "env": rng.sample(Environment.ENV, rng.randrange(0, 4))}
        if rng.random() < 0.6: v["faults"] = input_faults(rng, x, R, fs, [ROOT], rng.choice([1, 2, 3]))
        x["variants"] = [v]
        return x

    def judge(self, x, R):
        r = R.run(world(x, 0))
        R.note("calls_checked", r.cnt["syscalls"])
        if r.nforbid: return ("effect " + r.forbid[0].split(" ")[0], "the run tried to: %s" % r.forbid[:3])
        return None


class Context(Prop):
    id, title = "P19", "Context files inform, but are never judged"
    quick, thorough = 4000, 100000
    rule = ("A case is a policy split into a scanned and a context part, run with --context and with both parts scanned; the findings of the context run must be "
            "exactly those the full run has for the scanned files, under seeded order and weather.")

    def gen(self, rng, R, tier, i):
        M = gen.Messy(rng, rng.choice([2, 3, 4, 6]))
        k = rng.randrange(1, len(M.mods))
        every = M.mods
        if rng.random() < 0.3:          # a context file with the base name of a scanned one
            m, o = rng.choice(every[k:]), rng.choice(every[:k])
            m.name, m.layer, m.status = o.name, o.layer, o.status
        tree = {"/w": ["d"]}
        M.mods = every[:k]
        tree.update(M.files("/w/policy"))
        M.mods = every[k:]
        ctx = M.files("/w/ctx")
        tree.update(ctx)
        if rng.random() < 0.2: shared(rng, tree)
        tree.update(gen.support(rng, every, "/w/sup"))
        argv = ["selint", "-s", "-r"]
        if rng.random() < 0.4:
            tree[CONF] = ["f", gen.config(rng, "convention")]
            argv += ["-c", CONF]
        argv += ["-F"] if rng.random() < 0.5 else []
        roots, y = ["ctx"], rng.random()
        if y < 0.25: roots = sorted({"/".join(p.split("/")[2:4]) for p in ctx})         # several roots
        elif y < 0.4: roots = sorted(p[3:] for p in ctx)                                # the files themselves
        elif y < 0.45: roots = ["ctx"] * 2
        if len(roots) > 1: rng.shuffle(roots)
        roots = [rng.choice([q, q, "/w/" + q, "./" + q]) for q in roots]
        both = rng.choice([["."], ["/w"], ["policy"], ["./policy"], ["policy/."]]) if rng.random() < 0.15 else []     # scanned files are no context files
        return {"tree": tree, "cwd": "/w", "env": [], "argv": argv, "p": {"ctx": roots, "both": both}, "variants": [{"weather": weather(rng)}, {"weather": weather(rng)}]}

    def judge(self, x, R):
        have = {q for p in x["tree"] for q in parents(p)}
        if "/w/policy" not in have or "/w/ctx" not in have: return None
        sup = ["sup"] if "/w/sup" in have else []
        absolute = lambda q: "/w/" + q.replace("/w/", "").replace("./", "")
        roots = [q for q in x["p"].get("ctx", ["ctx"]) if absolute(q) in have or absolute(q) in x["tree"]]
        full = list({absolute(q): q for q in roots}.values())
        both = x["p"].get("both", [])
        a = R.run(world(x, 0, argv=x["argv"] + sup + ["--context=" + q for q in roots + both] + ["policy"]))
        b = R.run(world(x, 1, argv=x["argv"] + sup + ["policy"] + full))
        if a.code is None or b.code is None: return None
        if (a.code == 70) != (b.code == 70): return ("exit", "context run %s, full run %s" % (a.outcome, b.outcome))
        if a.code not in OK: return None
        mine = {p.rsplit("/", 1)[1] for p in x["tree"] if p.startswith("/w/policy/")}
        theirs = {p.rsplit("/", 1)[1] for p in x["tree"] if p.startswith("/w/ctx/")}
        fa = Report(a.out).findings
        if mine & theirs:               # findings do not say which of the two: the two halves must add up
            c = R.run(world(x, 0, argv=x["argv"] + sup + ["--context=policy"] + full))
            if c.code not in OK: return ("exit", "context run %s, full run %s" % (c.outcome, b.outcome)) if c.code is not None else None
            R.note("shared_names")
            fc, fb = Report(c.out).findings, Report(b.out).findings
            if sorted(fa + fc) != fb: return ("halves", "the findings of the two context runs do not add up to those of the full run: " + diff(fb, sorted(fa + fc)))
            return None
        fb = [f for f in Report(b.out).findings if f[0] in mine]
        R.note("findings", len(fa))
        bad = [f for f in fa if f[0] not in mine]
        if bad: return ("judged", "finding for a context file: %s" % (bad[0],))
        if fa != fb: return ("findings", "context run and full run disagree on the scanned files: " + diff(fb, fa))
        if "-F" in x["argv"] and (a.code == 65) != bool(fa): return ("exit", "status %d with %d findings" % (a.code, len(fa)))
        return None


# ------------------------------------------------------------------ reference model of symbol resolution

class Resolution(Prop):
    id, title = "P18", "Every reference is judged by what the whole tree defines"
    quick, thorough = 12000, 400000
    fixed_tree = True
    rule = ("A case is a policy of 1-9 modules built line by line from clean statements and planted violations of 29 rules, many of which need a definition in some other file; "
            "split over directories, scanned and context parts, under seeded order and weather. The findings must be exactly those of the reference model, each once.")

    def gen(self, rng, R, tier, i):
        conf = rng.random() < 0.4
        P = model.Planted(rng, simple_macros=conf)
        tree = {"/w": ["d"]}
        argv = ["selint", "-s", "-r"]
        nctx = rng.randrange(len(P.mods)) if rng.random() < 0.35 else 0
        ctx = set(rng.sample([m.name for m in P.mods], nctx))
        layout = rng.choice(["layers", "flat", "scattered"])
        for m in P.mods:
            top = "/w/ctx" if m.name in ctx else ROOT
            for e, L in m.files.items():
                d = top + {"layers": "/" + m.layer, "flat": "", "scattered": "/" + rng.choice(["a", "b/c", "b", "d e"])}[layout]
                if e == "fc" and not L and rng.random() < 0.5: continue
                text = "\n".join(L) + ("\n" if L else "")
                if L and rng.random() < 0.1: text = text[:-1]
                tree["%s/%s.%s" % (d, m.name, e)] = ["f", text]
        tree["/w/sup/access_vectors"] = ["f", gen.av_file(rng)]
        tree["/w/sup/obj_perm_sets.spt"] = ["f", model.SPT]
        for f, L in P.generated.items(): tree["%s/%s%s" % (ROOT, rng.choice(["", "tmp/", "a/b/"]), f)] = ["f", "".join(l + "\n" for l in L)]
        tree["/w/sup/modules.conf"] = ["f", P.modules_conf()]
        if conf:
            tree[CONF] = ["f", P.config()]
            argv += ["-c", CONF]
        argv += ["--context=ctx"] if ctx else []
        exp = [e for e in P.exp if e[0].rsplit(".", 1)[0] not in ctx]
        keys = list(tree)
        rng.shuffle(keys)
        return {"tree": {k: tree[k] for k in keys}, "cwd": "/w", "env": [], "argv": argv + ["sup", "policy"], "p": {"exp": exp, "keep": keys},
                "variants": [{"weather": weather(rng)}]}

    def judge(self, x, R):
        exp = {}
        free = {(f, l, i[1:]) for f, l, i, w in x["p"]["exp"] if i[0] == "?"}        # not specified
        for f, l, i, w in x["p"]["exp"]:
            if i[0] != "?": exp.setdefault((f, l, i), []).append(w)
        r = R.run(world(x, 0))
        if r.code is None: return ("refused", "%s on a well-formed tree" % r.outcome)
        if r.code not in OK: return ("refused", "exit status %d on a well-formed tree: %s" % (r.code, (r.out + r.err)[-300:]))
        got = {}
        for f, l, s, i, msg in Report(r.out).findings:
            if i in model.MODELLED: got.setdefault((f, l, i), []).append(msg)
        R.note("expected", sum(len(v) for v in exp.values()))
        lines = lambda f, l: [n[1].split("\n")[l - 1].strip() for p, n in x["tree"].items() if p.endswith("/" + f) and n[1].count("\n") >= l - 1]
        for k in free: got.pop(k, None); exp.pop(k, None)
        for k, ws in exp.items():
            if len(got.get(k, [])) < len(ws): return ("missing " + k[2], "%s:%d %s (%s) is not reported: %s" % (k[0], k[1], k[2], ws, lines(k[0], k[1])))
        for k, ms in got.items():
            if len(exp.get(k, [])) < len(ms): return ("extra " + k[2], "%s:%d %s: %s, expected %s, for: %s" % (k[0], k[1], k[2], ms, exp.get(k, []), lines(k[0], k[1])))
            for w in exp[k]:
                if not any(w in m for m in ms): return ("names " + k[2], "%s:%d %s: %s does not name %s" % (k[0], k[1], k[2], ms, w))
        return None


# ------------------------------------------------------------------ reference model of the ordering convention

class Ordering(Prop):
    id, title = "P26", "Whether a te file is in order is decided by the whole input"
    quick, thorough = 20000, 400000
    fixed_tree = True
    rule = ("A case is a policy of 1-6 modules, in layers, scanned or context, whose te files are written in the order of one of the three conventions and then disturbed; "
            "what a call is worth is decided by interfaces of other files. Under seeded order and weather, what C-001 leaves unreported must be in order, every report must name a "
            "conflicting line, and where the convention orders everything the number of reports must be the least possible.")

    def gen(self, rng, R, tier, i):
        P = order.Ordered(rng)
        tree = {"/w": ["d"]}
        ctx = set(rng.sample([m.name for m in P.mods], rng.randrange(len(P.mods)))) if rng.random() < 0.35 else set()
        files = {}
        for m in P.mods:
            top = "/w/ctx" if m.name in ctx else ROOT
            d = "%s/%s" % (top, m.layer)
            tree["%s/%s.if" % (d, m.name)] = ["f", "".join(l + "\n" for l in P.iff(m))]
            tree["%s/%s.te" % (d if rng.random() < 0.8 else top + "/elsewhere", m.name)] = ["f", "".join(l + "\n" for l in m.lines)]
        argv = ["selint"] + (["-c", CONF] if P.variant != "refpolicy-lax" or rng.random() < 0.5 else [])
        if len(argv) > 1: tree[CONF] = ["f", "".join(l + "\n" for l in ["severity = convention"] * (rng.random() < 0.5) + ['ordering_rules = "%s"' % P.variant])]
        argv += rng.choice([["-s"], ["-s", "-E", "-e", "C-001"], []])
        if "-s" in argv:
            tree["/w/sup/access_vectors"] = ["f", gen.av_file(rng)]
            tree["/w/sup/modules.conf"] = ["f", "".join("%s = module\n" % m.name for m in P.mods)]
            tree["/w/sup/obj_perm_sets.spt"] = ["f", model.SPT]
        cwd, paths, y = "/w", ["policy"], rng.random()
        mine = [p for p in tree if p.startswith(ROOT + "/") and p[-3:] in (".te", ".if")]
        if y < 0.2: paths = [p[3:] for p in mine]
        elif y < 0.4: paths = sorted({p[3:].rsplit("/", 1)[0] for p in mine})
        elif y < 0.5 and "-s" not in argv and not ctx:
            cwd = ROOT + "/" + P.mods[0].layer
            paths = ["."] + sorted({"../" + p.split("/")[3] for p in mine} - {"../" + P.mods[0].layer})
        if y >= 0.2 or ctx or rng.random() < 0.4: argv.append("-r")
        if ctx: argv.append("--context=ctx")
        rng.shuffle(paths)
        keys = list(tree)
        rng.shuffle(keys)
        return {"tree": {k: tree[k] for k in keys}, "cwd": cwd, "env": [], "argv": argv + ["sup"] * ("-s" in argv) + paths,
                "p": {"variant": P.variant, "files": {m.name: [m.els, m.lines] for m in P.mods if m.name not in ctx}, "keep": keys}, "variants": [{"weather": weather(rng)}]}

    def judge(self, x, R):
        r = R.run(world(x, 0))
        if r.code is None: return ("refused", "%s on a well-formed tree" % r.outcome)
        if r.code not in OK: return ("refused", "exit status %d on a well-formed tree: %s" % (r.code, (r.out + r.err)[-300:]))
        got = {}
        for f, l, s, i, msg in Report(r.out).findings:
            if i[0] == "F": return ("refused", "%s:%d: %s-%s: %s" % (f, l, s, i, msg))
            if i == "C-001": got.setdefault(f, {}).setdefault(l, []).append(msg)
        for f, ls in got.items():
            if f[:-3] not in x["p"]["files"] or f[-3:] != ".te": return ("file", "C-001 for %s" % f)
            for l, ms in ls.items():
                if len(ms) > 1: return ("twice", "%s:%d: %s" % (f, l, ms))
        for name, (els, lines) in x["p"]["files"].items():
            g = {l: ms[0] for l, ms in got.get(name + ".te", {}).items()}
            v = order.Ordered.verdict(x["p"]["variant"], els, lines, g)
            R.note("ordered_files")
            R.note("out_of_order", len(g))
            if v == "exact": R.note("minimum_decided")
            elif v: return (v[0], "%s.te (%s): %s" % (name, x["p"]["variant"], v[1]))
        return None


class Styles(Prop):
    id, title = "P27", "Permissions and requires are judged by the defined macros and orders"
    quick, thorough = 15000, 300000
    fixed_tree = True
    rule = ("A case is an obj_perm_sets.spt of up to 25 permission macros made of permissions and other macros (of any class, before or after their definition, in circles, with permissions the tool does not "
            "know, obsolete ones), an order of require blocks, and 1-3 modules of rules and require blocks. Under seeded order and weather, the findings of C-005, C-006, S-009 and S-010 must be exactly "
            "those of the reference model: which line, which macro, what it replaces and adds, which pair is out of order.")

    def gen(self, rng, R, tier, i):
        P = style.Styled(rng)
        tree = {"/w": ["d"]}
        for f, (layer, L) in P.files.items(): tree["%s/%s/%s" % (ROOT, layer, f)] = ["f", "".join(l + "\n" for l in L)]
        argv = ["selint"] + rng.choice([[], ["-E"] + ["--enable=" + c for c in style.MODELLED], ["-l", "C"]])
        conf = P.conf()
        if conf:
            tree[CONF] = ["f", "".join(l + "\n" for l in conf)]
            argv += ["-c", CONF]
        argv.append("-r")
        paths = ["policy"]
        if P.source:
            argv.append("-s")
            top = ROOT + "/support" if rng.random() < 0.5 else "/w/sup"
            tree[top + "/obj_perm_sets.spt"] = ["f", "".join(l + "\n" for l in P.spt)]
            if rng.random() < 0.5: tree[ROOT + "/flask/access_vectors"] = ["f", gen.av_file(rng)]
            if top == "/w/sup": paths.append("sup")
        rng.shuffle(paths)
        keys = list(tree)
        rng.shuffle(keys)
        return {"tree": {k: tree[k] for k in keys}, "cwd": "/w", "env": [], "argv": argv + paths, "p": {"exp": P.exp, "keep": keys}, "variants": [{"weather": weather(rng)}]}

    def judge(self, x, R):
        r = R.run(world(x, 0))
        if r.code not in OK: return ("refused", "%s on a well-formed tree: %s" % (r.outcome if r.code is None else "exit status %d" % r.code, (r.out + r.err)[-300:]))
        got = {}
        for f, l, s, i, msg in Report(r.out).findings:
            if i[0] == "F": return ("refused", "%s:%d: %s: %s" % (f, l, i, msg))
            if i in style.MODELLED:
                got.setdefault(f, []).append((l, i, msg))
                R.note("found:" + i)
        for f, e in x["p"]["exp"].items():
            path = [p for p in x["tree"] if p.endswith("/" + f)]
            v = style.Styled.verdict(e, x["tree"][path[0]][1].split("\n") if path else [], got.pop(f, []))
            if v: return (v[0], "%s: %s" % (f, v[1]))
        if got: return ("file", "findings for %s" % sorted(got))
        return None


# ------------------------------------------------------------------ which checks run, exceptions, line numbers

LEVELS = {"convention": "C", "style": "S", "warning": "W", "error": "E", "fatal": "F"}
BOGUS_IDS = ["X-001", "W-999", "C-0001", "w-001", "E-00", "S-1"]


def selection(ids, sev, dis, en, cl_dis, cl_en, only):
    """README, selint.conf: severity, then disable, enable_*, -d, -e, each overriding the one before; -E runs only what -e names"""
    out = set()
    for i in ids:
        on = not only
        if i in dis and not only: on = False
        if i in en and not only: on = True
        if i in cl_dis and not only: on = False
        if i in cl_en: on = True
        if on and "CSWEF".index(i[0]) >= "CSWEF".index(sev): out.add(i)
    return out


class Selection(Prop):
    id, title = "P21", "Check selection only selects"
    quick, thorough = 4000, 120000
    min_variants = 2
    rule = ("A case is a policy tree run with every check on and under three random selections (severity, disable, enable_source, enable_normal in the configuration; -l, -d, -e, -E on the "
            "command line, unknown IDs among them): the findings must be exactly those of the full run that the documented precedence leaves on, with summary and exit status to match.")

    def gen(self, rng, R, tier, i):
        x = policy(rng, config=False, opts=[])
        w = weather(rng)
        base = gen.config(rng, "convention").replace("enable_source = { W-010 }\n", "")
        t = x["tree"]
        t["/w/all.conf"] = ["f", base]
        pre = x["argv"][:1]
        rest = x["argv"][1:]
        x["argv"] = pre + ["-c", "all.conf", "-S"] + rest
        x["variants"] = [{"weather": w}]
        x["p"]["sel"] = [None]
        x["p"]["keep"] = ["/w/all.conf"]
        src = any(a == "-s" or a.startswith("--context") for a in rest)
        few = lambda: [rng.choice(gen.CHECK_IDS if rng.random() < 0.95 else BOGUS_IDS) for _ in range(rng.choice([0, 0, 1, 3, 10, 40]))]
        quoted = lambda l: ", ".join(rng.choice(["%s", '"%s"']) % c for c in l)
        for k in range(3):
            conf = rng.random() < 0.8
            sev = rng.choice(["convention", "convention", "convention", "style", "warning", "error", "fatal"]) if conf else "convention"
            dis, es, en = (few(), few(), few()) if conf else ([], [], [])
            c = "/w/sel%d.conf" % k
            t[c] = ["f", base.replace('severity = "convention"\n', 'severity = "%s"\n' % sev if sev != "convention" or rng.random() < 0.5 else "").replace("disable = {  }", "disable = { %s }" % quoted(dis)) +
                    "enable_source = { %s }\nenable_normal = { %s }\n" % (quoted(es), quoted(en))]
            x["p"]["keep"].append(c)
            a, cd, ce, only, lev = [], few(), few(), False, None
            for q in cd: a.append(rng.choice([["-d", q], ["-d" + q], ["--disable=" + q], ["--disable", q]]))
            for q in ce: a.append(rng.choice([["-e", q], ["-e" + q], ["--enable=" + q]]))
            if ce and rng.random() < 0.3:
                only = True
                a.append([rng.choice(["-E", "--only-enabled"])])
            if rng.random() < 0.4:
                lev = rng.choice("CSWE")
                a.append(rng.choice([["-l", lev], ["--level=" + lev]]))
            a.append(["-c", c[3:] if conf else "all.conf"])
            if rng.random() < 0.5: a.append([rng.choice(["-S", "--summary"])])
            if rng.random() < 0.5: a.append([rng.choice(["-F", "--fail"])])
            rng.shuffle(a)
            x["variants"].append({"weather": weather(rng) if rng.random() < 0.3 else w, "argv": pre + [z for y in a for z in y] + rest})
            x["p"]["sel"].append([lev or LEVELS[sev], dis, es if src else en, cd, ce, only])
        return x

    def judge(self, x, R):
        a = R.run(world(x, 0))
        if a.code != 0: return None
        full = [f for f in Report(a.out).findings if f[3][0] != "F"]
        ids = {f[3] for f in full}
        R.note("findings", len(full))
        for v in range(1, len(x["variants"])):
            sel = x["p"]["sel"][v] if v < len(x["p"]["sel"]) else None
            if sel is None: continue
            on = selection(ids, *sel)
            b = R.run(world(x, v))
            if b.code is None: continue
            want = [f for f in full if f[3] in on]
            rb = Report(b.out)
            got = [f for f in rb.findings if f[3][0] != "F"]
            R.note("selected", len(want))
            if b.code not in OK: return ("refused", "exit status %d under a selection of checks: %s" % (b.code, (b.out + b.err)[-300:]))
            if got != want:
                d = sorted({f[3] for f in want if f not in got} | {f[3] for f in got if f not in want})
                return ("selection", "%s of checks %s under %s: %s" % ("wrong set of findings", d[:5], sel, diff(want, got)))
            if any(f[3][0] == "F" for f in rb.findings): continue
            if rb.summary is not None:
                n = {}
                for f in want: n[f[3]] = n.get(f[3], 0) + 1
                if {k: c for k, c in rb.summary.items() if c and k[0] != "F"} != n: return ("summary", "summary %s, findings %s" % (rb.summary, n))
            if b.code != (65 if want and ({"-F", "--fail"} & set(world(x, v)["argv"])) else 0): return ("exit", "exit status %d with %d findings" % (b.code, len(want)))
        return None


class Exceptions(Prop):
    id, title = "P22", "Exceptions hide the named checks on their line, nothing else"
    quick, thorough = 6000, 150000
    rule = ("A case is a policy tree in which 1-8 of the lines with findings in te and if files, and lines next to them, get a selint-disable comment naming checks that are reported there, elsewhere or nowhere; "
            "the run under other weather must report exactly the findings of the run without the comments, less the named ones of each line.")

    def gen(self, rng, R, tier, i):
        mess = gen.Messy(rng, None, quiet=True)
        x = policy(rng, mess=mess, opts=rng.choice([[], ["-S"], ["-F", "-S"]]), config=rng.random() < 0.3)
        a = R.run(world({**x, "variants": [{}]}, 0))
        if a.code not in OK: return None
        base = {}
        for p in scanfiles(x): base.setdefault(p.rsplit("/", 1)[1], []).append(p)
        fs = [f for f in Report(a.out).findings if f[0].endswith((".te", ".if")) and len(base.get(f[0], ())) == 1 and f[3][0] != "F"]
        exc = {}
        for f in rng.sample(fs, min(len(fs), rng.choice([1, 1, 2, 4, 8, 40]))):
            p = base[f[0]][0]
            L = x["tree"][p][1].split("\n")
            if f[1] > len(L) or "#" in L[f[1] - 1]: continue
            ids = [rng.choice(gen.CHECK_IDS) for _ in range(rng.choice([0, 0, 1, 2]) if rng.random() < 0.97 else rng.choice([9, 35]))]
            if rng.random() < 0.85: ids.insert(rng.randrange(len(ids) + 1), f[3])
            if not ids: continue
            exc[(p, f[1])] = [L[f[1] - 1], rng.choice([" ", "", "\t"]) + "#selint-disable:" + rng.choice(["", " "]) + rng.choice([",", ", "]).join(ids), ids]
        # lines without a finding, next to ones with
        near = [(base[f[0]][0], f[1] + k, f[3]) for f in fs for k in (1, 2, -1)]
        for p, l, c in rng.sample(near, min(len(near), rng.choice([0, 0, 1, 4]))):
            L = x["tree"][p][1].split("\n")
            if (p, l) in exc or not 0 < l <= len(L) or "#" in L[l - 1] or not re.match(r"[^'}]*;$", L[l - 1]): continue
            exc[(p, l)] = [L[l - 1], " #selint-disable:" + c, [c]]
        if not exc: return None
        w = weather(rng)
        x["p"]["exc"] = [[p, l] + e for (p, l), e in exc.items()]
        x["variants"] = [{"weather": w}]
        return x

    def judge(self, x, R):
        a = R.run(world(x, 0, weather={}))
        if a.code not in OK: return None
        t, off, c001 = dict(x["tree"]), set(), False
        for p, l, line, com, ids in x["p"]["exc"]:
            if p not in t: continue
            L = t[p][1].split("\n")
            if l > len(L) or L[l - 1] != line: continue      # the minimiser took it
            L[l - 1] += com
            t[p] = ["f", "\n".join(L)] + t[p][2:]
            off |= {(p.rsplit("/", 1)[1], l, c) for c in ids}
            c001 |= "C-001" in ids
        if not off: return None
        b = R.run(world(x, 0, tree=t))
        if b.code is None: return None
        if b.code not in OK: return ("refused", "exit status %d once exceptions are added: %s" % (b.code, (b.out + b.err)[-300:]))
        # a line that is out of the order on purpose is not counted when its neighbours are ordered
        see = lambda f: not (c001 and f[3] == "C-001")
        want = [f for f in Report(a.out).findings if (f[0], f[1], f[3]) not in off and see(f)]
        got = [f for f in Report(b.out).findings if see(f)]
        R.note("hidden", len(Report(a.out).findings) - len(want))
        if want == got: return None
        stay = [f for f in got if (f[0], f[1], f[3]) in off]
        if stay: return ("stays " + stay[0][3], "still reported in spite of the exception on its line: %s" % (stay[0],))
        d = [f for f in want if f not in got] or [f for f in got if f not in want]
        return ("elsewhere", "an exception changes other findings: %s, %s" % (d[:2], diff(want, got)))


class Lines(Prop):
    id, title = "P23", "Findings point at the line of the construct"
    quick, thorough = 6000, 150000
    rule = ("A case is a policy tree, intact or damaged, in whose files blank lines are inserted at drawn places; under other weather each finding and "
            "each syntax error must move by exactly the number of lines inserted above it and stay the same otherwise.")

    def gen(self, rng, R, tier, i):
        x = policy(rng, opts=rng.choice([[], ["-S"], ["-F", "-S"]]))
        t = x["tree"]
        fs = scanfiles(x)
        if rng.random() < 0.25 and fs:
            p = rng.choice(fs)
            t[p] = ["f", mangle(rng, t[p][1])]
        ins = []
        for p in rng.sample(fs, min(len(fs), rng.choice([1, 2, 4, 8]))):
            n = t[p][1].count("\n")
            for _ in range(rng.choice([1, 1, 2, 5])):
                at = rng.choice([0, 0, 0, rng.randrange(n + 1)])
                ins.append([p, at, rng.choice([1, 1, 2, 7, 60, 300]) if rng.random() < 0.985 else rng.choice([33000, 66000]), "" if p.endswith(".fc") else rng.choice(["", "", "\t", "   "])])
        if rng.random() < 0.4:          # statements spread over several lines
            for p in rng.sample(fs, min(len(fs), rng.choice([1, 2, 4]))):
                at = [k for k, l in enumerate(t[p][1].split("\n")) if self.splittable(p, l)]
                for k in rng.sample(at, min(len(at), rng.choice([1, 2, 5]))): ins.append([p, k, -rng.randrange(1, 4), rng.choice(["", "\t", "  "])])
        x["p"]["ins"] = ins
        x["variants"] = [{"weather": weather(rng, order=False)}]
        return x

    @staticmethod
    def splittable(p, l):
        return p[-3:] in (".te", ".if") and l.rstrip().endswith((";", ")")) and not re.search("[#\"`'\r]", l) and " " in l.strip()

    def judge(self, x, R):
        a = R.run(world(x, 0, weather={}))
        if a.code is None: return None
        t, at = dict(x["tree"]), {}
        split = {}      # file -> {line: newlines in it}
        base = {}
        for p in scanfiles(x): base.setdefault(p.rsplit("/", 1)[1], []).append(p)
        for p in {i[0] for i in x["p"]["ins"]}:
            if p not in t or len(base.get(p.rsplit("/", 1)[1], ())) != 1: continue
            L = t[p][1].split("\n")
            new, m = [], []
            for k, l in enumerate(L):
                for q, pos, n, blank in x["p"]["ins"]:
                    if q == p and pos == k and n > 0:
                        new += [blank] * n
                        m += [k] * n
                for q, pos, n, blank in x["p"]["ins"]:
                    if q == p and pos == k and n < 0 and self.splittable(p, l) and a.code in OK:
                        lead = l[:len(l) - len(l.lstrip())]
                        ws = l.strip().split(" ", -n)
                        l = lead + ("\n" + blank).join(ws)
                        m += [k + 1] * (len(ws) - 1)
                        split.setdefault(p.rsplit("/", 1)[1], {})[k + 1] = len(ws) - 1
                        break
                new.append(l)
            t[p] = ["f", "\n".join(new)] + t[p][2:]
            at[p.rsplit("/", 1)[1]] = m
        if not at: return None
        mv = lambda f, l: l + sum(1 for k in at.get(f, ()) if k < l)
        b = R.run(world(x, 0, tree=t))
        if b.code is None: return None
        if a.outcome != b.outcome: return ("exit", "blank lines turn %s into %s: %s" % (a.outcome, b.outcome, (b.out + b.err)[-300:]))
        R.note("findings", len(Report(a.out).findings))
        move = lambda f, m: re.sub(r"line (\d+)", lambda q: "line %d" % mv(f, int(q[1])), m)
        if a.code in OK:
            # the sections of a file are ordered by the average of their line numbers
            see = lambda q: q[3] != "C-001" or not any(at.get(q[0], ()))
            want = sorted((f, mv(f, l), s, i, move(f, m) if i == "C-001" else m) for f, l, s, i, m in Report(a.out).findings if see((f, l, s, i)))
            got = [q for q in Report(b.out).findings if see(q)]
            if split:       # anywhere in the statement will do
                first = {}
                for f, ls in split.items():
                    for l, n in ls.items():
                        for k in range(n + 1): first[f, mv(f, l) + k] = mv(f, l)
                got = sorted((f, first.get((f, l), l), s, i, m) for f, l, s, i, m in got)
                R.note("split_statements", sum(len(v) for v in split.values()))
            if want != got: return ("line", "findings do not follow the lines of their constructs: " + diff(want, got))
        else:
            E = lambda r: sorted((m[1], int(m[2]), m[3]) for m in re.finditer(r"^(\S+): +(\d+): (\(F\).*)$", r.out + "\n" + r.err, re.M))
            R.note("syntax_errors", len(E(a)))
            want = sorted((f, mv(f, l), m) for f, l, m in E(a))
            if want != E(b): return ("error line", "syntax errors do not follow their lines: " + diff(want, E(b)))
        return None


# ------------------------------------------------------------------ concurrent edits

class Edits(Prop):
    id, title = "P20", "Edits during a run: every file counts in one version"
    quick, thorough = 2500, 80000
    rule = ("A case is a policy tree in which 1-3 files are atomically replaced, created or removed by another program at drawn system calls of the run, many of them next to "
            "the moment the file is opened; the result must be that of the tree in one of the combinations of old and new versions, or a diagnosed failure if a file was removed.")

    def gen(self, rng, R, tier, i):
        x = policy(rng)
        t = x["tree"]
        fs = [p for p, n in t.items() if n[0] == "f" and not p.startswith("/sys") and "/.git/" not in p]
        hot = [p for p in fs if p.endswith(POL)] or fs
        if rng.random() < 0.3:          # several reads per file
            for p in rng.sample(hot, min(len(hot), 2)): t[p] = ["f", t[p][1] + "# pad\n" * rng.choice([10, 900])]
        w = weather(rng)
        r = R.run(world({**x, "variants": [{"weather": w}]}, 0), log=True)
        total = max(2, r.cnt["syscalls"])
        import sim
        opened = {}
        for l in r.log.split("\n"):
            if l.startswith("open ") and " -> " in l and " @" in l:
                p = l[5:].rsplit(" -> ", 1)[0]
                q = sim.norm(p, x["cwd"])
                opened.setdefault(q, []).append(int(l.rsplit("@", 1)[1]))
        x["variants"] = []
        for _ in range(3):
            ed = []
            for p in rng.sample(hot if rng.random() < 0.7 else fs, min(len(hot), rng.choice([1, 1, 2, 3]))):
                y = rng.random()
                at = rng.choice(opened[p]) - 1 + rng.randrange(-3, 9) if opened.get(p) and rng.random() < 0.7 else rng.randrange(total)
                ed.append([max(0, at), p, "replace" if y < 0.75 else "unlink" if y < 0.88 else "link"])
            x["variants"].append({"weather": w, "edits": ed})
        made = {p for v in x["variants"] for _, p, k in v["edits"] if k == "link"}
        for p in {p for v in x["variants"] for _, p, k in v["edits"]}:
            if p in made:       # the file comes into being in all of them
                t[p] = [t[p][0], t[p][1], {"shadow": 1}]
                continue
            old = t[p][1]
            L = old.splitlines(True)
            y = rng.random()
            if y < 0.3: new = "\n" * rng.choice([1, 3, 50]) + old
            elif y < 0.5 and L: new = "".join(L[:j] + L[j + 1:]) if (j := rng.randrange(len(L))) or True else ""
            elif y < 0.65 and p.endswith(".te"): new = old + "".join("type new%d_t;\n;\n" % k for k in range(rng.choice([1, 30])))
            elif y < 0.8 and L: new = "".join(L[:rng.randrange(len(L))])
            elif y < 0.87: new = ""
            else: new = mangle(rng, old)
            t[p + "\1"] = ["f", new, {"shadow": 1}]
        for v in x["variants"]:
            v["edits"] = [[at, p, "link" if p in made else k] for at, p, k in v["edits"]]
        return x

    def faults(self, x, ed, late=True):
        t, out = x["tree"], []
        for at, p, k in ed:
            if k == "replace" and p + "\1" in t and p in t: out.append({"op": "tick", "path": p + "\1", "nth": at, "act": "replace"})
            elif k in ("unlink", "link") and p in t: out.append({"op": "tick", "path": p, "nth": at, "act": k})
        return out

    def judge(self, x, R):
        for i, v in enumerate(x["variants"]):
            ed = sorted(v.get("edits", []))
            if len({p for _, p, _ in ed}) != len(ed) or len(ed) > 3: continue
            b = R.run(world(x, i, faults=self.faults(x, ed)))
            if not any(b.fired) or b.code is None: continue
            ok, vb, refs = False, verdict(b), []
            for m in range(1 << len(ed)):
                sub = [[0, p, k] for j, (at, p, k) in enumerate(ed) if m >> j & 1]
                a = R.run(world(x, i, faults=self.faults(x, sub)))
                refs.append(a)
                if a.code is None or verdict(a) == vb: ok = True; break
            R.note("edits_made", sum(1 for k in b.fired if k))
            if ok and b.code in OK and any(k == "unlink" and p.endswith(POL) for _, p, k in ed):
                # the opening of a file that had been listed failed: that has to be said
                import sim
                gone = {p for _, p, k in ed if k == "unlink" and p.endswith(POL)}
                lost = [l for l in R.run(world(x, i, faults=self.faults(x, ed)), log=True).log.split("\n")
                        if l.startswith("open ") and l.endswith(" -> -2") and sim.norm(l[5:].rsplit(" -> ", 1)[0], x["cwd"]) in gone]
                if lost and not [l for l in Report(b.out).other if l.startswith(("Warning", "Error"))]:
                    return ("silent", "a listed file was gone when it was to be opened (%s), but the run ends with %d and does not say so" % (lost[0], b.code))
                if lost: R.note("loss_announced")
            if ok:
                R.note("one_version_each")
                continue
            if any(k == "unlink" for _, _, k in ed):        # listed, then gone: the run says so
                if b.code not in OK:
                    R.note("removed_file_refused")
                    if not b.err.strip() and not b.out.strip(): return ("mute", "failing exit status %d without a diagnostic" % b.code)
                    continue
                known = {l for a in refs for l in Report(a.out).other}
                if [l for l in Report(b.out).other if l not in known and l.startswith(("Warning", "Error"))]:
                    R.note("removed_file_announced")
                    continue
            kinds = "+".join(sorted({k for _, _, k in ed}))
            a = min(refs, key=lambda a: len(set(a.out.split("\n")) ^ set(b.out.split("\n"))) + (1000 if a.outcome != b.outcome else 0))
            return ("mixed " + kinds, "%s during the run: neither the old nor the new version gives this (%s): %s" % (kinds, b.outcome, diff(a.out.split("\n"), b.out.split("\n"))))
        return None


class Footprint(Prop):
    id, title = "P24", "Memory stays proportional to the policy and is given back"
    quick, thorough = 8000, 200000
    rule = ("A case is a policy tree with repeated, duplicated, damaged or unreadable files and support files under seeded weather and read faults; the simulated "
            "allocator counts what is held: never more than 300 kB plus 100 times the input, and when the run ends with a report or a parse error no more than "
            "a constant 16 blocks and 8 kB, and no open file.")

    def gen(self, rng, R, tier, i):
        x = policy(rng, nmods=rng.choice([1, 2, 3, 3, 10]))
        t = x["tree"]
        fs = [p for p, n in t.items() if n[0] == "f" and not p.startswith("/sys")]
        for p in rng.sample(fs, min(len(fs), rng.choice([0, 1, 2]))):
            old = t[p][1]
            k = rng.randrange(6)
            if k == 0: t[p] = ["f", mangle(rng, old)]
            elif k == 1: t[p] = ["f", retoken(rng, old, [t[q][1] for q in rng.sample(fs, min(3, len(fs)))])]
            elif k == 2: t[p] = ["f", old + old]
            elif k == 3:
                L = old.split("\n")
                a = rng.randrange(len(L))
                b = rng.randrange(a, len(L))
                t[p] = ["f", "\n".join(L[:b + 1] + L[a:b + 1] * rng.choice([1, 5]) + L[b + 1:])]
            elif p.endswith(POL):       # the same definitions once more in other files
                for j in range(rng.choice([1, 1, 2, 20])): t[ROOT + "/again%d/%s" % (j, rng.choice(["", "x"]) + p.rsplit("/", 1)[1])] = ["f", old]
        if rng.random() < 0.2: long_files(rng, t)
        v = {"weather": weather(rng)}
        if rng.random() < 0.3: v["faults"] = input_faults(rng, x, R, fs, [ROOT], 1)
        x["variants"] = [v]
        return x

    def judge(self, x, R):
        r = R.run(world(x, 0))
        size = sum((len(n[1]) if len(n) > 1 else 0) + len(p) for p, n in x["tree"].items()) + sum(map(len, x["argv"]))
        R.st.notes["max_peak_bytes"] = max(R.st.notes.get("max_peak_bytes", 0), r.cnt["peak_bytes"])
        if r.cnt["peak_bytes"] > 300000 + 100 * size: return ("peak", "%d bytes held at once for an input of %d bytes" % (r.cnt["peak_bytes"], size))
        if r.code in OK or r.code == 70 and "Failed to parse files" in r.out + r.err:
            R.note("ends_checked")
            if r.cnt["live_blocks"] > 16 or r.cnt["live_bytes"] > 8192:
                return ("kept", "%d blocks of %d bytes are still held when the run ends with %d" % (r.cnt["live_blocks"], r.cnt["live_bytes"], r.code))
            if r.cnt["open_left"]: return ("open", "%d files are still open when the run ends with %d" % (r.cnt["open_left"], r.code))
        return None


# ------------------------------------------------------------------ command line and configuration

SETTINGS = {"severity": ["convention", "style", "warning", "error", "fatal"], "ordering_rules": ["refpolicy", "refpolicy-light", "refpolicy-lax"],
            "ordering_requires_same_flavor": ["true", "false", "yes", "NO", "True", "False"], "skip_checking_generated_fcs": ["true", "false", "no", "YES", "TRUE", "FALSE"]}
FLAVORS = ["bool", "class", "role", "attribute_role", "attribute", "type"]
LISTS = {"disable": gen.CHECK_IDS, "enable_source": gen.CHECK_IDS, "enable_normal": gen.CHECK_IDS, "assume_users": ["system_u", "staff_u", "root"], "assume_roles": ["object_r", "staff_r"],
         "custom_fc_macros": ["my_fc_macro", "m"], "custom_te_simple_macros": ["my_simple_macro", "m"], "ordering_requires": FLAVORS}
DEFECTS = ['severities = "style"', 'Severity = style', 'foo = 1', 'modules_conf_path = "x"', 'disabled = { C-001 }', 'severity = warn', 'severity = ""', 'severity = Error', 'severity = conventions', 'severity = "style "',
           'severity = W', 'severity = 3', 'ordering_rules = "refpolicy-"', 'ordering_rules = light', 'ordering_rules = ""', 'ordering_rules = Refpolicy', 'ordering_rules = "refpolicy-laxx"',
           'ordering_requires = { bool, class, role, attribute, type }', 'ordering_requires = { bool, class, role, attribute_role, attribute, type, bool }', 'ordering_requires = {}',
           'ordering_requires = { bool, class, role, attribute_role, attribute, bool }', 'ordering_requires = { type, class, role, attribute_role, attribute, type }', 'ordering_requires = { bool, user, role, attribute_role, attribute, type }',
           'ordering_requires = { bool, class, role, attributerole, attribute, type }', 'ordering_requires = { bool, class, role, "", attribute, type }', 'ordering_requires_same_flavor = maybe', 'ordering_requires_same_flavor = ""',
           'ordering_requires_same_flavor = 2', 'ordering_requires_same_flavor = tRue', 'skip_checking_generated_fcs = tru', 'skip_checking_generated_fcs = falsee', 'skip_checking_generated_fcs = on',
           'severity "style"', 'disable = { C-001, ', 'severity = { style }', 'severity =', '}', '= style', 'disable = { C-001 C-004 }', 'disable { C-001 }', 'severity = "style']


# selint.conf, README: what a setting that is not given means
DEFAULTS = {"severity": "convention", "disable": [], "enable_normal": [], "enable_source": [], "assume_users": [], "assume_roles": [], "custom_fc_macros": [], "custom_te_simple_macros": [],
            "ordering_rules": "refpolicy-lax", "ordering_requires": ["bool", "class", "role", "attribute_role", "attribute", "type"], "ordering_requires_same_flavor": "true", "skip_checking_generated_fcs": "true"}
BARE = {"assume_users": ["system_u"], "assume_roles": ["object_r"]}        # what holds without any configuration


class Refusal(Prop):
    id, title = "P25", "A wrong command line or configuration is refused, a right one understood"
    quick, thorough = 5000, 120000
    min_variants = 2
    rule = ("A case is a policy tree, a plain command line with a plain configuration, the same choices spelled in two other ways (order, quoting, comments, repeated settings of which the last counts, long, short, joined "
            "and clustered options, options after the paths) and two defective ones, all under seeded delivery: equal output for the first kind, status 64 or 78, a message and no report for the second.")

    @staticmethod
    def value(r, v):
        q = lambda s: r.choice(['"%s"', "'%s'", "%s", "%s"]) % s if re.fullmatch(r"[\w.-]+", s) else '"%s"' % s
        if not isinstance(v, list): return q(v)
        sep = r.choice([", ", ",", " , ", ",\n\t"])
        return "{" + r.choice(["", " ", "\n"]) + sep.join(q(s) for s in v) + r.choice(["", " ", "\n"]) + "}"

    @classmethod
    def draw(cls, r, k):
        if k in SETTINGS: return r.choice(SETTINGS[k])
        l = LISTS[k]
        return r.sample(l, len(l) if k == "ordering_requires" else min(len(l), r.choice([0, 1, 2, 3, 10])))

    @classmethod
    def messy(cls, r, conf, defect=None):
        L = []
        for k, v in r.sample(sorted(conf.items()), len(conf)):
            eq = r.choice(["=", " = ", "  =\t", "=\n  "])
            while r.random() < 0.15: L.insert(r.randrange(len(L) + 1), [k, k + eq + cls.value(r, cls.draw(r, k))])       # overridden further down
            L = [x for x in L if x[0] != k or x[1]] + [[k, k + eq + cls.value(r, v)]]
        if defect:
            k = defect.split(" ")[0]
            last = max([i for i, x in enumerate(L) if x[0] == k], default=-1)
            L.insert(r.randrange(last + 1, len(L) + 1), ["", defect])
        out = r.choice(["", "\n", "# head\n"])
        for _, l in L:
            out += r.choice(["", "", " ", "\t"]) + l + r.choice(["\n", "\n", "\n\n", " # why\n", "\n# severity = nonsense\n", " // x\n", "\n/* a\n b */\n", "\r\n" if not defect else "\n"])
        return out[:-1] if out.endswith("\n") and r.random() < 0.1 else out

    @staticmethod
    def spell(r, opts, paths, plain=False):
        """opts: [(short, long, value or None)]"""
        if plain: return [z for s, l, v in opts for z in ([l] if v is None else [l + "=" + v])] + paths
        parts, flags = [], ""
        for s, l, v in opts:
            if v is None and s and r.random() < 0.5: flags += s
            elif v is None: parts.append([l] if l and (not s or r.random() < 0.6) else ["-" + s])
            else: parts.append(r.choice([[l + "=" + v], [l, v]] + ([["-" + s + v], ["-" + s, v]] if s else [])))
        if flags:
            if r.random() < 0.5: parts.append(["-" + flags])
            else: parts += [["-" + f] for f in flags]
        # the order of options that are given more than once counts
        keep = [p for p in parts if p[0][:2] in ("-l", "-c") or p[0].startswith(("--level", "--config", "--color"))]
        rest = [p for p in parts if p not in keep]
        r.shuffle(rest)
        for p in rest: keep.insert(r.randrange(len(keep) + 1), p)
        for f in [p for p in paths]:
            keep.append([f])
        if r.random() < 0.3:        # options between and after the paths
            pos = {id(p): i for i, p in enumerate(keep)}
            o, f = keep[:len(keep) - len(paths)], keep[len(keep) - len(paths):]
            keep = []
            while o or f: keep.append((o if o and (not f or r.random() < 0.5) else f).pop(0))
        elif r.random() < 0.3: keep.insert(len(keep) - len(paths), ["--"])
        return [z for p in keep for z in p]

    def gen(self, rng, R, tier, i):
        x = policy(rng, config=False, opts=[], mode=rng.choice(["source", "source", "files", "normal", "dirs"]))
        n = x["p"]["npaths"]
        paths = x["argv"][len(x["argv"]) - n:]
        t = x["tree"]
        base = [{"-s": ("s", "--source", None), "-r": ("r", "--recursive", None)}[a] for a in x["argv"][1:len(x["argv"]) - n]]
        conf = {k: self.draw(rng, k) for k in list(SETTINGS) + list(LISTS) if rng.random() < 0.4}
        if rng.random() < 0.6: conf.pop("severity", None)
        bare = rng.random() < 0.15
        if bare: conf = dict(BARE)
        opts = list(base)
        for o in (("S", "--summary", None), ("F", "--fail", None), (None, "--summary-only", None), (None, "--scan-hidden-dirs", None), ("v", "--verbose", None)):
            if rng.random() < 0.2: opts.append(o)
        for _ in range(rng.choice([0, 0, 1, 2])): opts.append(("d", "--disable", rng.choice(gen.CHECK_IDS)))
        for _ in range(rng.choice([0, 0, 1, 2])): opts.append(("e", "--enable", rng.choice(gen.CHECK_IDS)))
        if any(o[0] == "e" for o in opts) and rng.random() < 0.3: opts.append(("E", "--only-enabled", None))
        if rng.random() < 0.3: opts.append(("l", "--level", rng.choice("CSWEF")))
        if rng.random() < 0.3: opts.append((None, "--color", rng.choice(["on", "off", "auto"])))
        t["/w/plain.conf"] = ["f", "".join("%s = %s\n" % (k, '"%s"' % v if not isinstance(v, list) else "{ %s }" % ", ".join('"%s"' % q for q in v)) for k, v in conf.items())]
        verbose = any(o[0] == "v" for o in opts)        # names the configuration file
        x["variants"] = [{"weather": {}, "argv": ["selint"] + self.spell(rng, opts + [("c", "--config", "plain.conf")], paths, True)}]
        x["p"]["keep"] = ["/w/plain.conf"]
        # -d and -e are sets for each of which the order does not matter
        for k in range(2):
            f = "plain.conf" if verbose else "m%d.conf" % k
            if not verbose: t["/w/" + f] = ["f", self.messy(rng, {**{q: v for q, v in DEFAULTS.items() if rng.random() < 0.2}, **conf})]
            o = list(opts)
            for q in [q for q in opts if q[1] == "--level"]:
                if rng.random() < 0.4: o.insert(o.index(q), (q[0], q[1], rng.choice("CSWEF")))
            for q in [q for q in opts if q[1] == "--color"]:
                if rng.random() < 0.4: o.insert(o.index(q), (q[0], q[1], rng.choice(["on", "off"])))
            if not (bare and not verbose and rng.random() < 0.6):
                if rng.random() < 0.2: o.append(("c", "--config", "gone.conf"))         # overridden by the next
                o.append(("c", "--config", f))
            if rng.random() < 0.3: o += [q for q in opts if q[2] is None][:1]       # twice is once
            x["variants"].append({"weather": calm(rng), "argv": ["selint"] + self.spell(rng, o, paths)})
            x["p"]["keep"].append("/w/" + f)
        x["p"]["right"] = len(x["variants"])
        x["p"]["bad"] = []
        for k in range(2):
            f = "b%d.conf" % k
            o = list(opts)
            want = 78
            if rng.random() < 0.55:
                what = rng.choice(DEFECTS)
                t["/w/" + f] = ["f", self.messy(rng, {q: v for q, v in conf.items() if True}, what)]
                if what.startswith('disable = { C-001, ') or what.startswith('severity = "style') and what.count('"') == 1 or what == "severity =":
                    t["/w/" + f] = ["f", self.messy(rng, {q: v for q, v in conf.items() if q != what.split(" ")[0]}) + "\n" + what + rng.choice(["", "\n"])]
                argv = self.spell(rng, o + [("c", "--config", f)], paths)
                x["p"]["keep"].append("/w/" + f)
            else:
                want = 64
                o.append(("c", "--config", "plain.conf"))
                what = rng.choice(["-x", "--bogus", "--summry-only", "--fail=1", "--source=yes", "-Z", "--level=X", "-lc", "--level=", "-l0", "--color=red", "--color=", "--color=ON", "-c/w/gone.conf", "--config=nosuch/x.conf", "last",
                                   "nopath", "-E", "--config=", "-rqs", "--context"])
                if what == "last": argv = self.spell(rng, o, paths, True) + [rng.choice(["-c", "--config", "-l", "--level", "-d", "-e", "--context", "--color", "--disable"])]
                elif what == "--context": argv = self.spell(rng, o, paths, True) + [what]
                elif what == "nopath": argv = self.spell(rng, o, [], rng.random() < 0.5)
                elif what == "-E":
                    argv = [rng.choice(["-E", "--only-enabled"])] + self.spell(rng, [q for q in o if q[0] not in ("e", "E")], paths)
                else:
                    argv = self.spell(rng, o, paths, True)
                    last = max([j for j, a in enumerate(argv[:len(argv) - len(paths)]) if a.startswith(("--level", "--config", "--color"))], default=-1)
                    argv.insert(rng.randrange(last + 1, len(argv) + 1), what)
            x["variants"].append({"weather": calm(rng), "argv": ["selint"] + argv})
            x["p"]["bad"].append([what, want])
        return x

    def judge(self, x, R):
        k = x["p"]["right"]
        if len(x["variants"]) <= k - 1: return None
        a = R.run(world(x, 0))
        if a.code is None: return None
        if a.code not in OK + (70,) or a.code == 70 and "arse" not in a.out: return ("plain", "exit status %d for a plain configuration: %s" % (a.code, (a.out + a.err)[-300:]))
        for i in range(1, k):
            b = R.run(world(x, i))
            if b.code is None: continue
            R.note("spellings")
            if (b.code, b.out) != (a.code, a.out): return ("spelling", "%s against %s: status %s and %s, %s" % (world(x, i)["argv"], world(x, 0)["argv"], a.code, b.code, diff(a.out.split("\n"), b.out.split("\n"))))
        for i, (what, want) in enumerate(x["p"]["bad"]):
            if k + i >= len(x["variants"]): break
            b = R.run(world(x, k + i))
            if b.code is None: continue
            R.note("refusals")
            r = Report(b.out)
            if r.findings or r.summary is not None: return ("report", "a report in spite of %r: %s" % (what, b.out[-200:]))
            if b.code != want: return ("accepted", "exit status %d for %r, expected %d: %s" % (b.code, what, want, (b.out + b.err)[-200:]))
            if not (b.out + b.err).strip(): return ("mute", "%r is refused without a message" % what)
        return None


ALL = {p.id: p for p in (c() for c in (Order, Delivery, NoOmission, SupportFaults, OutputFaults, FailStop, NoFabrication, Progress, Memory, Alloc, Environment,
                                       ScanSet, Isolation, Accounting, Presentation, Descriptors, ReadOnly, Resolution, Context, Edits, Selection, Exceptions, Lines, Footprint, Refusal, Ordering, Styles))}

"""Search driver: seeded cases over worker processes, minimisation, replay, evidence.

An experiment is a JSON value
  {"tree", "cwd", "env", "argv", "p": {...property parameters...},
   "variants": [{"weather": {...}, "faults": [...], "argv"?, "env"?, "drop"?, "order"?}, ...]}
variants[0] is normally the calm reference execution.  A property's judge() turns an
experiment into simulated executions and returns None or (kind, message).  Judges are
total: any sub-experiment the minimiser produces is a legal input.
"""
import glob, hashlib, json, multiprocessing, os, random, re, sys, time, traceback
import build, sim

VERIF = build.VERIF
FIND = re.compile(r"^(\S*?):(\s*)(\d+): \(([A-Z])\): (.*) \(([A-Z]-\d{3})\)$")
COUNT = re.compile(r"^([A-Z]-\d{3}): (\d+)$")
ANSI = re.compile("\033\\[[0-9;]*m")
SUMMARY = "Found the following issue counts:"


class Report:
    """The observable report: findings, summary, everything else"""
    def __init__(self, out):
        self.findings, self.repeated, self.other, self.summary = [], [], [], None
        ins = False
        for l in ANSI.sub("", out).split("\n"):
            if l == SUMMARY:
                ins = True
                self.summary = {}
                continue
            if ins:
                m = COUNT.match(l)
                if m:
                    if m[1] in self.summary: self.repeated.append(m[1])
                    self.summary[m[1]] = self.summary.get(m[1], 0) + int(m[2])
                    continue
                if l == "(none)":
                    continue
            m = FIND.match(l)
            if m:
                self.findings.append((m[1], int(m[3]), m[4], m[6], m[5]))
            elif l:
                self.other.append(l)
        self.findings.sort()

    def of(self, base):
        return [f for f in self.findings if f[0] == base]


class Stats:
    def __init__(self):
        self.runs = self.steps = self.vtime = self.sysc = 0
        self.fired, self.weather, self.outcomes, self.notes = {}, {}, {}, {}
        self.hashes, self.nontrivial, self.cov = set(), set(), 0
        self.reads_short = self.writes_short = self.dents_short = 0
        self.cases = self.vacuous = 0

    def merge(self, o):
        for k in ("runs", "steps", "vtime", "sysc", "reads_short", "writes_short", "dents_short", "cases", "vacuous"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k in ("fired", "weather", "outcomes", "notes"):
            d = getattr(self, k)
            for a, b in getattr(o, k).items():
                d[a] = d.get(a, 0) + b
        self.hashes |= o.hashes
        self.nontrivial |= o.nontrivial
        self.cov |= o.cov


class Runner:
    def __init__(self, paths):
        self.paths = paths
        self.servers = {}
        self.st = Stats()
        self.trace = None       # list collecting (world, result) during a replay

    def server(self, flavour):
        s = self.servers.get(flavour)
        if s is None:
            s = self.servers[flavour] = sim.Server(self.paths[flavour])
        return s

    def run(self, world, flavour="plain", log=False, **kw):
        r = self.server(flavour).run(world, log=log, **kw)
        st = self.st
        st.runs += 1
        st.steps += r.steps
        st.vtime += r.cnt["vtime_us"]
        st.sysc += r.cnt["syscalls"]
        st.reads_short += r.cnt["short_reads"]
        st.writes_short += r.cnt["short_writes"]
        st.dents_short += r.cnt["short_getdents"]
        st.outcomes[r.outcome] = st.outcomes.get(r.outcome, 0) + 1
        nt = False
        for i, f in enumerate(world.get("faults", ())):
            if r.fired[i]:
                k = f["op"] + ":" + f["act"] + (":E%d" % f.get("arg", 0) if f["act"] in ("errno", "sticky") and f["op"] != "alloc" else "")
                st.fired[k] = st.fired.get(k, 0) + r.fired[i]
                nt = True
        for k, v in world.get("weather", {}).items():
            if v != sim.WEATHER[k]:
                st.weather[k] = st.weather.get(k, 0) + 1
                nt = True
        st.cov |= int.from_bytes(r.cov, "little")
        st.hashes.add(r.hash)
        if nt:
            st.nontrivial.add(r.hash)
        if self.trace is not None:
            self.trace.append((flavour, world, r))
        return r

    def note(self, k, n=1):
        self.st.notes[k] = self.st.notes.get(k, 0) + n

    def close(self):
        for s in self.servers.values():
            s.close()
        self.servers = {}


def world(x, i=0, **over):
    """the i-th execution of an experiment"""
    v = x["variants"][i] if i < len(x["variants"]) else {}
    tree = x["tree"]
    if v.get("drop"):
        tree = {k: n for k, n in tree.items() if k not in v["drop"]}
    argv, cwd = v.get("argv", x["argv"]), v.get("cwd", x.get("cwd", "/"))
    if "spell" in v:            # other names for the same paths
        sp = v["spell"]
        argv = [b for a in argv for t, b in sp.get(a, [[None, a]]) if t is None or len(sp[a]) == 1 or t in tree]
    if v.get("at"):             # the same tree somewhere else: at replaces /w
        mv = lambda p: v["at"] + p[2:] if p == "/w" or p.startswith("/w/") else p
        tree = {mv(k): (["l", mv(n[1])] + n[2:] if n[0] == "l" else n) for k, n in tree.items()}
        argv, cwd = [a[:10] + mv(a[10:]) if a.startswith("--context=") else mv(a) for a in argv], mv(cwd)
    w = {"argv": argv, "cwd": cwd, "env": v.get("env", x.get("env", [])), "tree": tree,
         "weather": v.get("weather", {}), "faults": v.get("faults", [])}
    w.update(over)
    return w


# ------------------------------------------------------------------ minimisation

def ddmin(items, test, deadline):
    """smallest sublist (1-minimal where time allows) for which test holds"""
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        size = max(1, len(items) // n)
        chunks = [items[i:i + size] for i in range(0, len(items), size)]
        for i in range(len(chunks)):
            if time.time() > deadline:
                return items
            rest = [y for j, c in enumerate(chunks) if j != i for y in c]
            if test(rest):
                items = rest
                n = max(n - 1, 2)
                break
        else:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def minimise(prop, x, kind, R, seconds=60):
    deadline = time.time() + seconds

    def fails(y):
        try:
            r = prop.judge(y, R)
        except Exception:
            return False
        return r is not None and r[0] == kind

    def sub(**kw):
        y = dict(x)
        y.update(kw)
        return y

    keep = set(x.get("p", {}).get("keep", ()))
    fixed = prop.fixed_tree         # what is expected is tied to the lines of the tree
    for _ in range(3):
        before = json.dumps(x, sort_keys=True)
        # variants beyond those the judge needs
        for i in reversed(range(1, len(x["variants"]))):
            y = sub(variants=x["variants"][:i] + x["variants"][i + 1:])
            if len(y["variants"]) >= prop.min_variants and fails(y):
                x = y
        # faults and weather
        for i in range(len(x["variants"])):
            v = x["variants"][i]
            def withv(nv):
                vs = list(x["variants"])
                vs[i] = nv
                return sub(variants=vs)
            if v.get("faults"):
                fs = ddmin(v["faults"], lambda f: fails(withv({**v, "faults": f})), deadline)
                v = {**v, "faults": fs}
                x = withv(v)
            for k in list(v.get("weather", {})):
                nv = {**v, "weather": {a: b for a, b in v["weather"].items() if a != k}}
                if fails(withv(nv)):
                    v = nv
                    x = withv(v)
            if v.get("drop"):
                d = ddmin(v["drop"], lambda f: fails(withv({**v, "drop": f})), deadline)
                v = {**v, "drop": d}
                x = withv(v)
        if fixed:
            break
        # tree entries
        ks = [k for k in x["tree"] if k not in keep]
        ks2 = ddmin(ks, lambda s: fails(sub(tree={k: n for k, n in x["tree"].items() if k in keep or k in set(s)})), deadline)
        s2 = set(ks2)
        x = sub(tree={k: n for k, n in x["tree"].items() if k in keep or k in s2})
        # lines
        for k in list(x["tree"]):
            n = x["tree"][k]
            if n[0] != "f" or not n[1]:
                continue
            ls = n[1].splitlines(True)
            def withl(l):
                t = dict(x["tree"])
                t[k] = ["f", "".join(l)] + n[2:]
                return sub(tree=t)
            ls = ddmin(ls, lambda l: fails(withl(l)), deadline)
            x = withl(ls)
            if len(ls) <= 3 and sum(map(len, ls)) < 400:      # characters
                cs = ddmin(list("".join(ls)), lambda l: fails(withl(l)), deadline)
                x = withl(cs)
        # options
        for key in ("argv",) if not any("argv" in v for v in x["variants"]) else ():    # variants with their own stay comparable
            a = x[key][1:]
            a = ddmin(a, lambda s: fails(sub(argv=x["argv"][:1] + s)), deadline)
            x = sub(argv=x["argv"][:1] + a)
        if x.get("env"):
            x = sub(env=ddmin(x["env"], lambda s: fails(sub(env=s)), deadline))
        if json.dumps(x, sort_keys=True) == before or time.time() > deadline:
            break
    return x


# ------------------------------------------------------------------ search

def seed_int(*a):
    return int.from_bytes(hashlib.sha256("/".join(map(str, a)).encode()).digest()[:8], "big")


def rng_for(seed, prop, i):
    return random.Random(seed_int(seed, prop.id, i))


def one_case(prop, seed, i, R, tier):
    rng = rng_for(seed, prop, i)
    x = prop.gen(rng, R, tier, i)
    R.st.cases += 1
    if x is None:
        R.st.vacuous += 1
        return None
    r = prop.judge(x, R)
    if r is None:
        return None
    return (i, r[0], r[1], x)


def worker(prop, paths, seed, tier, n, wid, nw, deadline, q):
    try:
        R = Runner(paths)
        bad = []
        i = wid
        while i < n and time.time() < deadline:
            b = one_case(prop, seed, i, R, tier)
            if b is not None:
                bad.append(b)
                if len(bad) >= 200:
                    break
            i += nw
        R.close()
        q.put((wid, R.st, bad, None))
    except BaseException:
        q.put((wid, None, [], "case %s: " % i + traceback.format_exc()))


def search(prop, paths, seed, tier, n, seconds, nw=None):
    nw = nw or int(os.environ.get("DST_WORKERS", 0)) or os.cpu_count() or 4
    ctx = multiprocessing.get_context("fork")
    q = ctx.Queue()
    dl = time.time() + seconds
    ps = [ctx.Process(target=worker, args=(prop, paths, seed, tier, n, w, nw, dl, q)) for w in range(nw)]
    for p in ps:
        p.start()
    st, bad, err = Stats(), [], None
    for _ in ps:
        w, s, b, e = q.get()
        if e:
            err = e
        else:
            st.merge(s)
            bad += b
    for p in ps:
        p.join()
    if err:
        raise RuntimeError("worker failed: " + err)
    bad.sort(key=lambda b: b[0])
    return st, bad


# ------------------------------------------------------------------ known findings

def known_findings(pid):
    p = os.path.join(VERIF, "known-findings.json")
    try:
        ks = json.load(open(p))
    except FileNotFoundError:
        return []
    return [k for k in ks["findings"] if k["property"] == pid]


def matches(k, kind, msg):
    """kind and match are regular expressions: the fault and where it struck, and what came out of it"""
    return re.fullmatch(k["kind"], kind) is not None and re.search(k["match"], msg) is not None


# ------------------------------------------------------------------ replay files

def save_replay(prop, x, kind, msg, R, seed, case, d=None):
    R.trace = []
    prop.judge(x, R)
    tr, R.trace = R.trace, None
    ex = []
    for fl, w, r in tr:
        full = R.server(fl).run(w, log=True)
        ex.append({"flavour": fl, "argv": w["argv"], "weather": w.get("weather", {}), "faults": w.get("faults", []),
                   "outcome": full.outcome, "event_hash": "%016x" % full.hash, "steps": full.steps, "stdout": full.out[-4000:],
                   "stderr": full.err[:3000], "events": full.log.split("\n")[-400:]})
    doc = {"property": prop.id, "kind": kind, "message": msg, "seed": seed, "case": case, "experiment": x, "executions": ex}
    d = d or os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(d, "%s-%s.json" % (prop.id, h))
    with open(path, "w") as fh:
        json.dump(doc, fh, indent=1)
    return path


def replay(prop, doc, R):
    """-> (kind, msg) or None, and whether every execution was identical to the recorded one"""
    R.trace = []
    r = prop.judge(doc["experiment"], R)
    tr, R.trace = R.trace, None
    same = len(tr) == len(doc["executions"]) and all(
        t[2].outcome == e["outcome"] and "%016x" % t[2].hash == e["event_hash"] for t, e in zip(tr, doc["executions"]))
    return r, same

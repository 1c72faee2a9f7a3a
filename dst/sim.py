"""Driver side of the simulator: encoding one execution as a job, running it, decoding the result.

An execution is a plain dict ("world"), serialisable as JSON:
  argv     list of str, argv[0] included
  env      list of "K=V"
  cwd      absolute path in the simulated file system
  tree     {path: ["f", content] | ["d"] | ["l", target], optionally with a dict of extras last}
           content is a latin-1 str; the order of the dict is the stored directory order
  weather  {knob: int}     benign nondeterminism, see WEATHER
  faults   [{op, path|fd|None, nth, act, arg, arg2}]; op tick: at the nth system call another program unlinks, links or renames path over
           the other node of its name
           (a node with {"shadow": 1} is not linked at the start; a key may end in \1 to give two nodes one name)
The same world always gives the same execution, event for event.
"""
import os, signal, struct, subprocess

OPS = {"open": 0, "read": 1, "getdents": 2, "stat": 3, "write": 4, "close": 5, "fchdir": 6, "access": 7, "alloc": 8, "tick": 9}
ACTS = {"errno": 0, "sticky": 1, "short": 2, "flip": 3, "eof": 4, "unlink": 5, "link": 6, "replace": 7}
WEATHER = {"order": 0, "read": 0, "read_max": 0, "dents": 0, "write": 0, "write_max": 0, "blksize": 4096, "out": 0,
           "nlink1": 0, "dtype_unknown": 0, "ino": 0, "heap": 0, "heap_mode": 0, "lat": 0, "fdlimit": 1024,
           "size": 0, "err": 0, "in": 0, "closed": 0, "stack": 0, "dev": 0, "env": 0}
COUNTERS = ["syscalls", "opens", "reads", "getdents", "writes", "stats", "short_reads", "short_writes", "max_fd",
            "open_left", "allocs", "short_getdents", "vtime_us", "bytes_read", "closes", "heap_errors", "live_bytes", "live_blocks",
            "peak_bytes"]
STEP_BUDGET = 60_000_000
SYS_BUDGET = 400_000
NCOV = 65536 // 8
U32 = struct.Struct("<I").pack
U64 = struct.Struct("<Q").pack


def norm(p, cwd="/"):
    return os.path.normpath(os.path.join(cwd, p))


class Layout:
    """inode numbering of a tree"""
    def __init__(self, tree):
        self.idx = {"/": 0}
        self.nodes = [["d"]]
        self.kids = [[]]
        for p, n in tree.items():
            self.add(p, n)

    def add(self, p, n):
        if p in self.idx:
            return self.idx[p]
        parent, name = p.rsplit("/", 1)
        pi = self.add(parent or "/", ["d"])
        i = len(self.nodes)
        self.idx[p] = i
        self.nodes.append(n)
        self.kids.append([])
        # a second version of a file has a key of its own (trailing \1s) but the same name
        self.kids[pi].append((name.rstrip("\1"), i))
        return i


def enc(s):
    b = s.encode("latin-1", "replace") if isinstance(s, str) else s
    return U32(len(b)) + b + b"\0"


def encode(w, log=False, step_budget=None, sys_budget=None):
    we = dict(WEATHER)
    we.update(w.get("weather", {}))
    lay = Layout(w["tree"])
    size = sum(len(n[1]) for n in w["tree"].values() if n[0] == "f" and len(n) > 1)      # far beyond what a run that ends needs, even byte by byte
    if step_budget is None: step_budget = STEP_BUDGET + 200 * size
    if sys_budget is None: sys_budget = SYS_BUDGET + 8 * size
    cwd = lay.add(w.get("cwd", "/"), ["d"]) if w.get("cwd", "/") != "/" else 0
    lay.add("/dev/null", ["f", ""])
    M = (1 << 64) - 1
    o = [U32(we["stack"]), U32(we["fdlimit"]), U64(step_budget), U64(sys_budget), U64(we["order"] & M), U64(we["read"] & M),
         U32(we["read_max"]), U64(we["dents"] & M), U64(we["write"] & M), U32(we["write_max"]), U32(we["blksize"]),
         U32(we["out"]), U32(we["nlink1"]), U32(we["dtype_unknown"]), U64(we["ino"] & M), U64(we["heap"] & M),
         U32(we["heap_mode"]), U32(1 if log else 0), U64(we["lat"] & M), U32(cwd),
         U64(we["size"] & M), U32(we["err"]), U32(we["in"]), U32(we["closed"]), U64(we["dev"] & M), U64(we["env"] & M)]
    o.append(U32(len(w["argv"])))
    o += [enc(a) for a in w["argv"]]
    env = w.get("env", [])
    o.append(U32(len(env)))
    o += [enc(a) for a in env]
    fs = w.get("faults", [])
    o.append(U32(len(fs)))
    for f in fs:
        if f["op"] == "write":
            ino = f.get("fd", 1)
        elif f.get("path") is None:
            ino = -1
        else:
            ino = lay.idx.get(f["path"], 1 << 20)
        o.append(struct.pack("<IiIIII", OPS[f["op"]], ino, f.get("nth", 0), ACTS[f["act"]], f.get("arg", 0), f.get("arg2", 0)))
    o.append(U32(len(lay.nodes)))
    o.append(U32(sum(len(k) for k in lay.kids)))
    for n, k in zip(lay.nodes, lay.kids):
        ex = n[-1] if isinstance(n[-1], dict) else {}
        t = {"f": 0, "d": 1, "l": 2}[n[0]]
        o.append(struct.pack("<IIIq", t, ex.get("flags", 0), ex.get("shadow", 0), ex.get("size", -1)))
        if t == 1:
            o.append(U32(len(k)))
            for name, i in k:
                o.append(enc(name))
                o.append(U32(i))
        else:
            o.append(enc(n[1]))
    return b"".join(o)


class Result:
    __slots__ = ("status", "steps", "hash", "cnt", "hang", "finished", "exit_code", "nforbid", "fired", "cov", "forbid",
                 "out", "err", "log", "outcome")

    def __init__(self, fh):
        st, no, ne, nl = struct.unpack("<4I", need(fh, 16))
        self.steps, self.hash = struct.unpack("<2Q", need(fh, 16))
        self.cnt = dict(zip(COUNTERS, struct.unpack("<%dQ" % len(COUNTERS), need(fh, 8 * len(COUNTERS)))))
        self.hang, self.finished, self.exit_code, self.nforbid = struct.unpack("<IIiI", need(fh, 16))
        self.fired = struct.unpack("<64I", need(fh, 256))
        self.cov = need(fh, NCOV)
        nf = min(self.nforbid, 16)
        fb = need(fh, nf * 160)
        self.forbid = [fb[i * 160:(i + 1) * 160].split(b"\0")[0].decode("latin-1") for i in range(nf)]
        self.out = need(fh, no).decode("latin-1")
        self.err = need(fh, ne).decode("latin-1")
        self.log = need(fh, nl).decode("latin-1")
        self.status = st
        if self.hang:
            self.outcome = "hang"
        elif os.WIFSIGNALED(st):
            self.outcome = "signal:" + str(os.WTERMSIG(st))
        elif self.cnt["heap_errors"]:
            self.outcome = "heap"
        elif "AddressSanitizer" in self.err:
            self.outcome = "asan"
        elif "runtime error:" in self.err:
            self.outcome = "ubsan"
        else:
            self.outcome = "exit:" + str(os.WEXITSTATUS(st))
        if self.outcome in ("exit:90", "exit:91"):
            raise RuntimeError("simulator refused the job: %s %s" % (self.outcome, self.err))

    @property
    def code(self):
        """exit status, or None when the process did not exit by itself"""
        return int(self.outcome[5:]) if self.outcome.startswith("exit:") else None

    def key(self):
        return (self.outcome, self.out, self.err, self.hash)


def need(fh, n):
    b = fh.read(n) if n else b""
    if len(b) != n:
        raise RuntimeError("simulator died")
    return b


class Server:
    def __init__(self, path):
        self.path = path
        self.p = subprocess.Popen([path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE if False else None)
        self.n = 0

    def run(self, world, log=False, **kw):
        b = encode(world, log, **kw)
        self.p.stdin.write(U32(len(b)) + b)
        self.p.stdin.flush()
        self.n += 1
        return Result(self.p.stdout)

    def close(self):
        self.p.stdin.close()
        self.p.wait()

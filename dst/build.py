"""Builds the two simulator flavours from the current working tree of /repo.

asan   AddressSanitizer + UBSan over the selint sources: memory safety oracle
plain  -O2 as shipped, with the simulator's own allocator: heap weather, allocation faults

Sources are copied and the lexer and parser regenerated, so stale products in /repo/src
are never used and nothing is written below /repo.
"""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SELINT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
GEN = {"lex.c", "parse.c", "parse.h", "lex.h"}
COMMON = ["-g", "-std=gnu17", "-D_GNU_SOURCE", "-DHAVE_CONFIG_H", "-DYYTEXT_POINTER=1", "-w",
          '-DSYSCONFDIR="/usr/local/etc"', "-fno-omit-frame-pointer", "-fsanitize-coverage=trace-pc"]
FLAVOURS = {
    "asan": (["-O1", "-U_FORTIFY_SOURCE", "-fno-builtin", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], []),
    "plain": (["-O2", "-fno-builtin-malloc"], ["-DSIM_PLAIN"]),
}


def sources():
    out = []
    for pat in ("*.c", "*.h", "*.l", "*.y"):
        for f in sorted(glob.glob(os.path.join(REPO, "src", pat))):
            if os.path.basename(f) not in GEN:
                out.append(f)
    return out


def digest(files):
    h = hashlib.sha256()
    for f in files:
        h.update(os.path.basename(f).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def run_all(cmds):
    ps = []
    err = []
    def reap(p, c):
        o, _ = p.communicate()
        if p.returncode:
            err.append(" ".join(c) + "\n" + o.decode(errors="replace"))
    for c in cmds:
        ps.append((subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), c))
        if len(ps) >= (os.cpu_count() or 4):
            reap(*ps.pop(0))
    for p in ps:
        reap(*p)
    if err:
        raise RuntimeError("build failed:\n" + err[0])


def build(quiet=True):
    """Returns {flavour: path}, rebuilding when the sources or the simulator changed."""
    os.makedirs(BUILD, exist_ok=True)
    files = sources() + [os.path.join(VERIF, "sim", "sim.c"), os.path.abspath(__file__)]
    tag = digest(files)
    dst = os.path.join(BUILD, tag)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        res = {f: os.path.join(dst, "sim-" + f) for f in FLAVOURS}
        if os.path.exists(os.path.join(dst, "ok")):
            os.utime(dst)
            return res
        olds = sorted((d for d in glob.glob(os.path.join(BUILD, "*")) if os.path.isdir(d)), key=os.path.getmtime)
        for d in olds[:-3]:
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(dst, ignore_errors=True)
        src = os.path.join(dst, "src")
        os.makedirs(src)
        for f in sources():
            shutil.copy(f, src)
        ver = "0"
        try:
            m = re.search(r"AC_INIT\(\[?\w+\]?,\s*\[?([\w.\-]+)", open(os.path.join(REPO, "configure.ac")).read())
            ver = m.group(1) if m else "0"
        except OSError:
            pass
        with open(os.path.join(src, "config.h"), "w") as fh:
            fh.write('#define VERSION "%s"\n#define PACKAGE "selint"\n#define PACKAGE_VERSION VERSION\n#define PACKAGE_NAME "selint"\n' % ver)
        # as the automake rules do: bison -y -d, flex
        run_all([["bison", "-y", "-d", "-Wno-yacc", "-o", os.path.join(src, "parse.c"), os.path.join(src, "parse.y")],
                 ["flex", "-o", os.path.join(src, "lex.c"), os.path.join(src, "lex.l")]])
        cs = sorted(glob.glob(os.path.join(src, "*.c")))
        cmds, objs = [], {}
        for fl, (cf, _) in FLAVOURS.items():
            objs[fl] = []
            for c in cs:
                b = os.path.basename(c)[:-2]
                o = os.path.join(dst, fl + "-" + b + ".o")
                objs[fl].append(o)
                cmds.append(["gcc", *COMMON, *cf, *(["-Dmain=selint_main"] if b == "main" else []), "-I" + src, "-c", c, "-o", o])
            o = os.path.join(dst, fl + "-sim.o")
            objs[fl].append(o)
            cmds.append(["gcc", "-g", "-O2", "-Wall", "-fno-builtin", "-fno-stack-protector", *FLAVOURS[fl][1], "-c",
                         os.path.join(VERIF, "sim", "sim.c"), "-o", o])
        run_all(cmds)
        run_all([["gcc", "-g", "-no-pie", *[x for x in FLAVOURS[fl][0] if x.startswith("-fsan")], *objs[fl], "-o", res[fl], "-lconfuse"]
                 for fl in FLAVOURS])
        for fl in objs:
            for o in objs[fl]:
                os.unlink(o)
        open(os.path.join(dst, "ok"), "w").close()
        return res


if __name__ == "__main__":
    print(build(False))

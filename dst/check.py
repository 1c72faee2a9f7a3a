#!/usr/bin/env python3
"""check.py <ID>            search for a violation of property ID (VERIF_SEED, VERIF_TIER)
   check.py replay <file>   run a replay file again; exit 1 when it still fails
   check.py list            the properties and their case budgets
"""
import json, os, sys, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, core, props


def fail(msg):
    print("ERROR: " + msg)
    sys.exit(3)


def gate(prop, x, kind, paths):
    """a violation counts only when fresh processes reproduce it, twice, event for event"""
    keys = []
    for _ in range(2):
        R = core.Runner(paths)
        R.trace = []
        r = prop.judge(x, R)
        keys.append([(t[2].key(), t[2].steps) for t in R.trace])
        R.close()
        if r is None or r[0] != kind:
            return "violation %s did not reproduce in a fresh process" % kind
    if keys[0] != keys[1]:
        return "two executions of one world differ: the simulator is not deterministic here"
    return None


def determinism(prop, paths, seed, tier):
    """the same few cases in two fresh fork servers must give the same executions"""
    sig = []
    for _ in range(2):
        R = core.Runner(paths)
        R.trace = []
        for i in range(4):
            x = prop.gen(core.rng_for(seed, prop, i), R, tier, i)
            if x is not None:
                prop.judge(x, R)
        sig.append([(t[2].hash, t[2].outcome, t[2].steps, t[2].out) for t in R.trace])
        R.close()
    return sig[0] == sig[1], len(sig[0])


def main():
    a = sys.argv[1:]
    if not a or a[0] in ("-h", "--help"):
        print(__doc__)
        return 2
    if a[0] == "list":
        for p in props.ALL.values():
            print(p.id, p.quick, p.thorough, p.title)
        return 0
    try:
        paths = build.build()
    except Exception as e:
        fail("build: %s" % e)
    if a[0] == "replay":
        doc = json.load(open(a[1]))
        prop = props.ALL[doc["property"]]
        R = core.Runner(paths)
        r, same = core.replay(prop, doc, R)
        R.close()
        if r is None:
            print("replay: property=%s holds on this tree" % prop.id)
            return 0
        print("replay: kind=%s %s; executions %s" % (r[0], r[1], "identical to the recorded ones" if same else "differ from the recorded ones (changed code)"))
        print("VIOLATION property=%s replay=%s" % (prop.id, os.path.abspath(a[1])))
        return 1
    prop = props.ALL[a[0]]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(a) > 1:
        tier = a[1]
    thorough = tier == "thorough"
    n = prop.thorough if thorough else prop.quick
    n = int(os.environ.get("DST_CASES", n))
    cap = float(os.environ.get("DST_SECONDS", 3600 if thorough else 240))
    t0 = time.time()
    same, ndet = determinism(prop, paths, seed, tier)
    if not same:
        fail("determinism self-test failed")
    st, bad = core.search(prop, paths, seed, tier, n, cap)
    ks = core.known_findings(prop.id)
    R = core.Runner(paths)
    # corner cases written by hand: replayed on every run
    for i, x in enumerate(prop.corner()):
        r = prop.judge(x, R)
        R.st.cases += 1
        if r is not None:
            bad.append((-1 - i, r[0], r[1], x))
    # committed regression inputs: one per repaired defect
    reg = os.path.join(build.VERIF, "regress")
    for f in sorted(os.listdir(reg)) if os.path.isdir(reg) else []:
        if f.startswith(prop.id + "-"):
            x = json.load(open(os.path.join(reg, f)))["experiment"]
            r = prop.judge(x, R)
            R.st.cases += 1
            if r is not None:
                bad.append((-1000, r[0], r[1], x))
    st.merge(R.st)
    R.st = core.Stats()
    # known findings: shown when their stored history still fails, never extended at run time
    for k in ks:
        doc = json.load(open(os.path.join(build.VERIF, k["replay"])))
        r = prop.judge(doc["experiment"], R)
        if r is not None and core.matches(k, *r):
            print("KNOWN-FINDING: property=%s %s" % (prop.id, k["what"]))
    kinds = {}
    nknown = 0
    for b in bad:
        if any(core.matches(k, b[1], b[2]) for k in ks):
            nknown += 1
            continue
        kinds.setdefault(b[1], []).append(b)
    rc = 0
    reported = []
    for kind, bs in sorted(kinds.items(), key=lambda kv: kv[1][0][0])[:4]:
        i, _, msg, x = min(bs, key=lambda b: (len(json.dumps(b[3])), b[0]))
        e = gate(prop, x, kind, paths)
        if e:
            fail(e)
        y = core.minimise(prop, x, kind, R, 40)
        r = prop.judge(y, R)
        if r is None or r[0] != kind or any(core.matches(k, *r) for k in ks) or gate(prop, y, kind, paths):
            y, r = x, (kind, msg)       # the unreduced case is the evidence
        path = core.save_replay(prop, y, kind, r[1], R, seed, i)
        print("%s: case %d of seed %d (and %d more of this kind): %s" % (kind, i, seed, len(bs) - 1, r[1]))
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        reported.append({"kind": kind, "case": i, "cases": len(bs), "message": r[1], "replay": path})
        rc = 1
    # samples: three cases of this run, written out
    samples = []
    for i in range(3):
        x = prop.gen(core.rng_for(seed, prop, i), R, tier, i)
        if x is None:
            continue
        R.trace = []
        prop.judge(x, R)
        samples.append({"case": i, "argv": x["argv"], "files": len(x["tree"]), "bytes": sum(len(v[1]) for v in x["tree"].values() if v[0] == "f"),
                        "variants": x["variants"][:4],
                        "executions": [{"argv": t[1]["argv"], "outcome": t[2].outcome, "steps": t[2].steps, "event_hash": "%016x" % t[2].hash,
                                        "report_lines": t[2].out.count("\n")} for t in R.trace[:6]]})
        R.trace = None
    R.close()
    wall = time.time() - t0
    ev = {
        "property": prop.id, "tier": tier, "seed": seed, "level": prop.level,
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": len(st.nontrivial),
            "rule": prop.rule + " An evaluation is one simulated execution of selint. Non-trivial: at least one fault fired or at least one weather "
                    "knob was off its default; distinct: different hash of the complete event log (every system call, its result, every injected event).",
            "samples": samples,
            "cases": st.cases, "cases_budget": n, "cases_without_a_usable_schedule": st.vacuous,
            "simulated_runs_per_hour": int(st.runs / max(wall, 1e-6) * 3600),
            "seeds_per_hour": int(st.cases / max(wall, 1e-6) * 3600),
            "simulated_time_s": round(st.vtime / 1e6, 3), "simulated_steps": st.steps, "simulated_system_calls": st.sysc,
            "faults_fired": dict(sorted(st.fired.items())),
            "weather_runs": dict(sorted(st.weather.items())),
            "short_reads": st.reads_short, "short_writes": st.writes_short, "split_directory_reads": st.dents_short,
            "outcomes": dict(sorted(st.outcomes.items())),
            "distinct_executions": len(st.hashes), "code_edges_reached": bin(st.cov).count("1"),
            "oracle_counters": dict(sorted(st.notes.items())),
            "determinism_self_test_executions": ndet,
            "real_code": ["all of /repo/src, unmodified, incl. generated lexer and parser", "glibc stdio, fts, getopt, string functions", "libconfuse"],
            "simulated": ["kernel: file system, descriptors, pipes/tty, clock, getrandom (sim/sim.c)"] +
                         ["malloc family in the plain flavour (sim/sim.c)", "AddressSanitizer allocator in the asan flavour"],
            "known_finding_hits": nknown, "reported": reported,
        },
        "assumptions": prop.assumptions, "wall_s": round(wall, 2), "violations": len(reported),
    }
    os.makedirs(os.path.join(build.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(build.VERIF, "evidence", prop.id + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s: %d cases, %d simulated runs, %d distinct, %.1f s, %s" % (prop.id, st.cases, st.runs, len(st.hashes), wall, "violated" if rc else "held"))
    return rc


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: "
M = lambda *a: [{"name": n, "where": w} for n, w in a]
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, level, tech, note, state=None):
    a = {"files": files, "mechanism": mech, "observe_at": observe, "hook_needed": None}
    if state: a["state"] = state
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a, level=level, tech=tech, note=note))


TRUST = " Trusted: the simulated kernel (sim/sim.c) answers like Linux for the calls selint, fts and stdio make; seeded search samples, it does not enumerate."
OUT = ["standard output", "exit status"]
exec(open(os.path.join(V, "tools", "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in sorted(P, key=lambda p: p["id"]) + NA:
        fh.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
man = {
    "version": 1, "setup_cmd": "python3 dst/build.py",
    "checks": [{"property": p["id"], "quick_cmd": "python3 dst/check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 dst/check.py " + p["id"],
                "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH + p["tech"], "level": p["level"], "level_note": p["note"] + TRUST}
               for p in sorted(P, key=lambda p: p["id"])],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": "No hooks in /repo: the seam is the system call boundary (seccomp) and the libc allocator and clock symbols, so the sources run unmodified. "
             "See DESIGN.md; replay a violation with: python3 dst/check.py replay <file>.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
assert all(len(p["title"]) <= 80 for p in P + NA), [p["title"] for p in P + NA if len(p["title"]) > 80]

#!/usr/bin/env python3
"""writes MANIFEST.json from the rules that exist"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "engine"), os.path.join(ROOT, "rules")]
NA = {
    "C30": "Agreement is a property of all interleavings of several servers over unbounded histories; deciding it needs an inductive invariant over the global state, which is a proof or model-checking argument. No static argument over the source of one server in reach bounds it. The per-server obligations it rests on (C01-C03, C06-C09) are decided.",
    "C31": "Eventual progress quantifies over fair schedules and timing across servers; static analysis of the source gives no bound on when messages arrive or ballots stabilise. The local obligations (re-sends, timers, elections) are decided in C21 and C24.",
    "C32": "Snapshot::create/merge are supplied by the user; no implementation is in this repository except NoSnapshot, so there is no source to analyse. How the library combines them is decided in C09 and C15.",
}
checks, na = [], []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    f = os.path.join(ROOT, "rules", i.lower() + ".py")
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif not os.path.exists(f):
        na.append({"property": i, "reason": "check not built yet"})
    else:
        src = open(f).read()
        tech, note = "", ""
        for line in src.splitlines():
            if line.startswith("TECHNIQUE = "):
                tech = eval(line[len("TECHNIQUE = "):])
            if line.startswith("NOTE = "):
                note = eval(line[len("NOTE = "):])
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i, "evidence_file": "evidence/%s.json" % i,
                       "technique": tech or "path-sensitive interprocedural dataflow (trace-partitioned abstract interpretation with value numbering) over rustc MIR",
                       "level": "other",
                       "level_note": note or "Every partition (branch-fact path) of the entry points in the current source is visited and each rule instance decided by value-number entailment, sound relative to the MIR extraction and the library transfer functions (DESIGN.md); loops are summarised, no input is bounded and nothing is executed. Decides the per-server obligations in the statement, not multi-server histories."})
m = {"version": 1, "setup_cmd": "python3 extract.py main uni", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only. extract.py type-checks a mirror of /repo with a rustc driver that dumps MIR; engine/ interprets it abstractly; rules/cNN.py holds the rules of property CNN; check.py runs one property."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")

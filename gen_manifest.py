#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and check.py's table of parts."""
import json, os
import check
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in check.PARTS:
        na.append({"property": i, "reason": "check not built yet"}); continue
    eng = {check.BINS[b][0] for b, s in check.PARTS[i]}
    tech = []
    if "T" in eng: tech.append("stateless model checking of the real code: all thread interleavings (source-set DPOR) of enumerated programs, history oracle + race/UAF/deadlock detection")
    if "S" in eng: tech.append("exhaustive enumeration of operation histories and faults on the real code in lock step with a reference model")
    note = "Bounded: all enumerated programs/histories up to the sizes in DESIGN.md are executed on the real headers, nothing is sampled. "
    if "T" in eng: note += "Trusts the engine's scheduler and its model of mutexes and atomics (sequentially consistent values, race detector honours memory orders). "
    if "S" in eng: note += "Trusts the reference model, ASan and UBSan. "
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                   "technique": "; ".join(tech), "level": "model_checking", "level_note": note.strip()})
json.dump({"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: engine T intercepts compiler instrumentation (-fsanitize=thread) and pthread calls, engine S uses only the public interface."}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

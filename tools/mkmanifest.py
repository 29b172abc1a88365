#!/usr/bin/env python3
"""writes MANIFEST.json from the table below and lib/vf/registry.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib"); sys.dont_write_bytecode = True
from vf import registry
AI = "abstract interpretation (typestate and effect dataflow) of the compiler IR of every operation over opaque contained types, all paths including exceptional ones"
TL = "type-level witnesses: static assertions and must-not-compile units decided by the compilers' type checker"
NOTE_AI = ("Sound over all values, all pre-states the operations can produce and all points where user code may throw, for each of the opaque probe classes "
           "(which stand for every class with the same kinds of special members); trusts the clang front end, the analyser's transfer functions and the specification table.")
NOTE_TL = "Decided exactly by g++ 13 and clang++ 18 for every enumerated type and overload; other compilers and types outside the enumerated matrix are not covered."
TECH = {}
for p in registry.PARTS:
    names = registry.KINDS[p]
    TECH[p] = ("; ".join({"ai": AI, "tl": TL, "both": AI + "; " + TL}.get(n, n) for n in [names]),
               {"ai": NOTE_AI, "tl": NOTE_TL, "both": NOTE_AI + " " + NOTE_TL}[names])
NA = registry.NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for p in props:
    if p in registry.PARTS:
        checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": TECH[p][0], "level": registry.level(p), "level_note": TECH[p][1]})
na = [{"property": p, "reason": NA.get(p, "no check has been built for it yet")} for p in props if p not in registry.PARTS]
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the analyses read the headers as they are."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

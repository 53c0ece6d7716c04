#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and specs.py (a development tool)."""
import json, os
import specs, props
here = os.path.dirname(os.path.abspath(__file__))
with open(here + "/properties.jsonl", "w") as f:
    for p in props.P:
        f.write(json.dumps({"id": p[0], "title": p[1], "statement": p[2], "quantifier": {"over": p[3], "text": p[4]}, "why_tests_cant": p[5],
                            "anchors": {"files": p[6], "mechanism": p[7]}}) + "\n")
ids = [p[0] for p in props.P]
m = {"version": 1,
     "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'lib'); import symlib; symlib.engine()\"",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the checks compile private copies of /repo's sources with lowered capacity constants", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "check.py <property> is the only driver; specs.py states every run and its bounds; DESIGN.md explains the engine and its trusted base"}
for i in ids:
    if i in specs.SPECS and i not in props.NA:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "technique": "bounded symbolic execution of the compiled C/C++ (LLVM IR) with SMT-decided paths, native replay of counterexamples",
                            "level": "model_checking", "level_note": props.NOTE.get(i, "") + "Exhaustive within the bounds stated per run (evidence: runs[].defs, capacities_lowered); nothing is claimed beyond them. Trusts clang-18's IR, the engine in /verif/engine (cross-checked against z3 and native replays on every run) and the libc/pthread models."})
    else:
        m["not_applicable"].append({"property": i, "reason": props.NA.get(i, "no check built yet")})
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)

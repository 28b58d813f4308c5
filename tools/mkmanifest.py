#!/usr/bin/env python3
# MANIFEST.json from checks.py and properties.jsonl
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import checks
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
TECH = "bounded symbolic execution of the compiled LLVM IR of /repo with Z3 deciding every branch and assertion; counterexamples replayed on an ASan build"
NOTE = "All executions within the stated bounds are covered (symbolic bytes, symbolic schedule/fault/crash positions, all choices): {b}. Outside: {o}. Trusts the modelled operating system (rt/world.cpp), the executor's LLVM semantics (cross-checked by native replays) and Z3."
m = {"version": 1, "setup_cmd": "make -s -C engine", "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources as they are and redirect system calls at link level", "source_commits": []},
     "checks": [{"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough", "evidence_file": f"evidence/{i}.json", "technique": checks.CHECKS[i].get("technique", TECH), "level": "model_checking", "level_note": NOTE.format(b=checks.CHECKS[i].get("bounds", ""), o=checks.CHECKS[i].get("outside", "longer histories"))} for i in ids if i in checks.CHECKS],
     "not_applicable": [{"property": i, "reason": checks.NA.get(i, "no check built yet; the family applies")} for i in ids if i not in checks.CHECKS]}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema; jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError: pass

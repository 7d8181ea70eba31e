#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties check.py has a plan for."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import check
try:
    import algcheck; ALG = algcheck.PLAN
except ImportError: ALG = {}
T_CORE = "TLA+ abstract machine (TLC): exhaustive small instances with laws, every step replayed in the library; recorded traces of the library validated by TLC"
N_CORE = ("Exhaustive within the instances listed in the evidence (TLC visits every command and content inside the constants and the library is stepped through the same transitions, "
          "sampled above the stated cap); beyond them, randomly generated call sequences recorded from the library on both platforms are checked call by call against the same specification. "
          "Assumes the harness' operator functions and projection of container contents are right; TLC trusted.")
T_ALG = "TLA+ specification of the algorithm's result (TLC): library runs on all small graphs and random graphs validated by TLC against the definition"
N_ALG = ("Every graph inside the constants stated in the evidence, enumerated by TLC, plus random larger graphs: the library's answer on both platforms must be one the TLA+ definition allows. "
         "Assumes the harness' encoding of graphs and results; TLC trusted.")
checks = []
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
for p in props:
    i = p["id"]
    if i in check.PLAN or i in ALG:
        core = i in check.PLAN
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i,
                           thorough_cmd="python3 tools/check.py %s thorough" % i,
                           technique=T_CORE if core else ALG[i].get("technique", T_ALG), level="model_checking",
                           level_note=N_CORE if core else ALG[i].get("note", N_ALG)))
done = {c["property"] for c in checks}
na = [dict(property=p["id"], reason="check not built yet") for p in props if p["id"] not in done]
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="Specifications in spec/, drivers in harness/, machinery in tools/; see DESIGN.md. No hooks are needed in /repo."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(json.load(open(os.path.join(V, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks,", len(na), "not applicable")

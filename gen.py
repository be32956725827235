#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os
from props import PROPS
from checks import CHECKS
try:
    from props import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
here = os.path.dirname(os.path.abspath(__file__))
TECH = "symbolic execution of the compiled code (LLVM bitcode) with Z3 deciding every assertion; counterexamples replayed on the compiled program"
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for k in sorted(PROPS):
        p = PROPS[k]
        assert len(p["title"]) <= 80, (k, len(p["title"]))
        f.write(json.dumps(p) + "\n")
checks = []
for k in sorted(CHECKS):
    assert k in PROPS, k
    c = CHECKS[k]
    checks.append(dict(property=k, quick_cmd="python3 /verif/run.py %s quick" % k, thorough_cmd="python3 /verif/run.py %s thorough" % k,
                       evidence_file="evidence/%s.json" % k, technique=c.get("technique", TECH), level="model_checking",
                       level_note="Every path of the listed entry points within the bounds, all input values symbolic: " + str(c.get("bounds", {}).get("quick", "")) +
                       ". Outside: " + c.get("outside", "inputs beyond these bounds") + ". Trusts the engine, the runtime models in /verif/models and Z3; sampled path witnesses are re-run on the compiled code."))
na = [dict(property=k, reason=r) for k, r in sorted(NOT_APPLICABLE.items())]
for k in PROPS:
    assert (k in CHECKS) != (k in NOT_APPLICABLE), k
json.dump(dict(version=1, setup_cmd="python3 /verif/run.py setup", checks=checks, not_applicable=na), open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print("%d properties, %d checks, %d not applicable" % (len(PROPS), len(checks), len(na)))

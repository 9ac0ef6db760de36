"""Writes MANIFEST.json from the harness modules in props/ (run by hand after adding one)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NA = {}
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")):
        checks.append(dict(
            property=i,
            quick_cmd="bash check.sh %s" % i,
            thorough_cmd="VERIF_TIER=thorough bash check.sh %s" % i,
            technique="symbolic execution of the real Python code with z3 (all values within "
                      "stated bounds), counterexamples replayed on the uninstrumented code",
            level="model_checking",
            level_note="Bounded: every path of the real eth_abi source over symbolic inputs is "
                       "explored and each assertion discharged by z3; bounds, modelled callees "
                       "and undecided remainders are in the evidence file and DESIGN.md."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

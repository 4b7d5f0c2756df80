"""writes /verif/MANIFEST.json from the registry of implemented checks"""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
from props import REGISTRY

TECH = {
    "C01": "property-based testing of generated model expressions against an independent reference interpreter; metamorphic re-spellings",
    "C02": "property-based testing of generated model expressions; oracle: forward-mode automatic differentiation (jets) of the reference interpreter",
    "C03": "property-based testing of generated model expressions; oracle: second-order jets of the reference interpreter",
    "C04": "property-based differential testing between the evaluation entry points on generated model expressions",
    "C05": "property-based testing of generated tensor programs against dense numpy arrays",
    "C06": "property-based testing of generated tensor programs against dense numpy arrays",
    "C07": "property-based testing of generated contractions against dense numpy arrays",
    "C08": "property-based testing of generated estimation problems against scipy log-pmfs, and finite changes",
    "C09": "property-based testing of generated estimation problems against jets of an independent objective",
    "C10": "property-based testing: KKT and feasibility invariants over fits of generated problems",
    "C11": "property-based differential testing of both methods against closed forms and an independent optimiser",
    "C12": "fault injection with generated failing fits and a state-snapshot oracle",
    "C13": "metamorphic property-based testing of fits under relabelling, row splitting, rescaling and reordering",
    "C14": "property-based testing of fits against an independent bordered-Hessian inverse",
    "C15": "property-based testing of fits against the documented formulas; metamorphic freeing of entries",
    "C16": "property-based testing of generated tables against a naive row loop; metamorphic row permutations",
    "C17": "property-based testing of generated tables against a naive row loop; metamorphic row permutations",
    "C18": "property-based testing of generated counts against a naive row loop",
    "C19": "property-based testing against scipy distribution functions and their analytic derivatives",
    "C20": "round-trip property-based testing of the root finders; generated invalid targets",
    "C21": "property-based testing of generated marginals against the defining formulas (differenced)",
    "C22": "metamorphic property-based testing of copulas",
    "C23": "property-based testing against scipy and high-precision derivatives",
    "C24": "property-based testing against a step-by-step simulation of the chain's distribution, with jets",
    "C25": "property-based testing against point-by-point recursion, with jets",
    "C26": "property-based testing against explicit sums over outcome pairs",
    "C27": "property-based testing with snapshots of every input and earlier result",
    "C28": "stateful model-based testing: random histories against freshly built estimators",
    "C29": "property-based testing: valid calls with one generated argument moved out of the domain must raise and change nothing",
}
NOTE = "generated-input search: no violation in the explored cases, not a proof; trusts the oracle in /verif/harness and numpy/scipy; domain limits are listed in DESIGN.md and the evidence's assumptions"
pids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = [{
    "property": p,
    "quick_cmd": "python3 check.py %s" % p,
    "thorough_cmd": "python3 check.py %s --tier thorough" % p,
    "evidence_file": "evidence/%s.json" % p,
    "technique": TECH[p], "level": "exploration", "level_note": NOTE,
} for p in pids if p in REGISTRY]
m = {"version": 1,
     "setup_cmd": "python3 check.py --selftest",
     "checks": checks,
     "not_applicable": [
         {"property": p, "reason": "check not built yet"}
         for p in pids if p not in REGISTRY]}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks")

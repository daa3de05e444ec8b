"""writes MANIFEST.json from areas.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from areas import AREA, CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        a = AREA[CHECKS[i]["area"]]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique="TLA+ specification (%s.tla) model-checked with TLC; scenarios generated by TLC from the specification are replayed on the real code and the recorded traces validated by TLC against the specification (Tr_%s.tla)" % (a.get("spec", a["tr"]), a["tr"]),
                           level="model_checking",
                           level_note=CHECKS[i].get("note", "Exhaustive for the specification's small constants; the real code is judged on the generated histories, in exact rational arithmetic with stated tolerances. Trusts TLC, the rational-arithmetic overrides (checked by RatCheck) and the recording drivers.")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 check.py --setup", hooks=dict(guard="FASTVPINNS_VERIF", enable="no hooks are needed: the checks import /repo's working tree unmodified", source_commits=[]), checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

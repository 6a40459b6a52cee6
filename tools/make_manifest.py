"""writes /verif/MANIFEST.json from the registry (run with python3-vt)"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "pbt"))
import registry
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {}
checks = []
for p in props:
    i = p["id"]
    if i not in registry.PROPS:
        NA.setdefault(i, "not built yet")
        continue
    subs = registry.PROPS[i]
    checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                   "technique": "property-based testing (Hypothesis generators and shrinking, explicit oracles): " + registry.TECH[i],
                   "level": "exploration",
                   "level_note": "generated-input search, " + ", ".join(f"{s.name} {s.quick}/{s.thorough}" for s in subs) + " cases (quick/thorough); nothing is proved beyond the cases explored"})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "CARBON_VERIF", "enable": "not used: the checks observe the public interface only, no hook was added", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "./check --replay FILE re-runs a recorded case. VERIF_SEED selects the seed, ./check P01 quick --scale 5 multiplies the number of cases."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")

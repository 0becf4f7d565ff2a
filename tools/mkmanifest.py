"""writes MANIFEST.json from the properties that have both a contract file and a run-time file"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NOTE = {}
exec(open(os.path.join(H, "tools", "notes.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{H}/contracts/{i.lower()}.py") and os.path.exists(f"{H}/bounded/{i.lower()}.py") and i not in NOT_APPLICABLE:
        checks.append({"property": i, "quick_cmd": f"./check.py {i} --tier quick", "thorough_cmd": f"./check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": "contract-based deductive verification of the real source (instrumented symbolic execution, structural induction, z3), with the same contracts evaluated at run time as counterexample replay and labelled bounded stand-in",
                       "level": "proof", "level_note": NOTE.get(i, "")})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Exit 0/1 as required; exit 2 means the check could not run at all. Undecided obligations are reported in the evidence and fall back to the labelled bounded stand-in; see DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

"""Writes properties.jsonl and MANIFEST.json."""
import json, os, re, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/tools")
from meta import P, NA

ids = sorted(P, key=lambda k: (k in NA, k))
with open(ROOT + "/properties.jsonl", "w") as f:
    for i in ids:
        p = {k: v for k, v in P[i].items() if k[0] != "_"}
        assert len(p["title"]) <= 80, (i, len(p["title"]))
        assert len(re.findall(r"[.!?](?:\s|$)", p["statement"])) <= 3, i
        f.write(json.dumps(p) + "\n")
checks = []
for i in ids:
    if i in NA:
        continue
    src = open(f"{ROOT}/props/{i}.py").read()
    m = re.search(r'^BOUNDS = "(.*)"$', src, re.M)
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "technique": "bounded symbolic execution of the real Python source with SMT (z3) deciding every branch and assertion; counterexamples replayed on the unmodified library",
        "level": "model_checking",
        "level_note": "Holds for every input within the bounds: " + m.group(1) + ". Trusts the models of riptide_cpp and numpy operations (cross-checked by replaying path witnesses on the real library) and z3." + (" " + P[i]["_note"] if P[i]["_note"] else ""),
    })
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
       "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i in NA],
       "notes": "No hooks in /repo; /repo carries only fix: commits. See DESIGN.md; known_findings.json lists repaired defects and recorded findings."}
json.dump(man, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(NA), "not applicable")

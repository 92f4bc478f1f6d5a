"""adds 'fixed' entries for fix: commits of /repo that known_findings.json lacks: tools/findings.py PROP [hash=PROP ...]"""
import subprocess, json, sys, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = dict(a.split("=") for a in sys.argv[2:])
k = json.load(open(ROOT + "/known_findings.json"))
have = {e.get("commit") for e in k}
for l in reversed(subprocess.run("git -C /repo log --oneline", shell=True, capture_output=True, text=True).stdout.splitlines()):
    h, t = l.split(" ", 1)
    if t.startswith("fix:") and h not in have:
        p = m.get(h, sys.argv[1])
        k.append(dict(property=p, status="fixed", commit=h, what=f"fixed: property={p} {h} before the repair, this did not hold: {t[5:]}"))
        print(p, l)
open(ROOT + "/known_findings.json", "w").write("[\n" + ",\n".join(" " + json.dumps(e) for e in k) + "\n]\n")

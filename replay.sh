#!/bin/bash
# replay.sh <PROPERTY> <replay.json>: re-run recorded counterexamples on the real library
cd "$(dirname "$0")" && exec /opt/venv/bin/python -B - "$@" <<'PY'
import sys, json, os, tempfile
sys.path.insert(0, os.getcwd())
from sx.runner import Worker
pid, path = sys.argv[1:3]
with tempfile.TemporaryDirectory() as d:
    w = Worker(pid, d)
    bad = 0
    for v in json.load(open(path))["violations"]:
        r = w.run(v)
        print(v["scenario"], v["params"], json.dumps(v["inputs"]), "->", r.get("failures"), r.get("exc"), r.get("crash"))
        bad |= bool(r.get("failures") or r.get("exc") or r.get("crash"))
    w.kill()
sys.exit(1 if bad else 0)
PY

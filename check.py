"""check.py <PROPERTY> [--tier quick|thorough] [--only scenario,...] [-v]"""
import os, sys, argparse

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv(PY, [PY, "-B"] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
ap = argparse.ArgumentParser()
ap.add_argument("property")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--only", default="")
ap.add_argument("--scale", type=float, default=1.0)
ap.add_argument("-v", action="store_true")
a = ap.parse_args()
from sx import runner

try:
    rc = runner.run_property(a.property, a.tier, int(os.environ.get("VERIF_SEED", "1")), set(a.only.split(",")) - {""}, a.v, a.scale)
except Exception:
    import traceback, json

    traceback.print_exc()
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    json.dump({"property": a.property, "tier": a.tier, "seed": 1, "level": "model_checking",
               "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "explanation": "the check itself failed: " + traceback.format_exc()[-1500:]},
               "wall_s": 0, "violations": 0}, open(f"{ROOT}/evidence/{a.property}.json", "w"))
    rc = 0
sys.stdout.flush()
os._exit(rc)

"""Replay worker: runs scenarios with concrete inputs on the unmodified library.

stdin:  one JSON object per line {"scenario","params","inputs"}
stdout: one JSON object per line {"failures":[...], "exc":..., "assume":bool}
"""
import sys, os, json, traceback, warnings


def run_one(scens, rt, job):
    from sx.harness import run_scenario, ConcS, AssumeFailed, InputsEnd, cleanup
    sc = scens[job["scenario"]]
    S = ConcS(job["inputs"], rt)
    out = {"failures": [], "exc": None, "assume": False}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            run_scenario(sc, S, job["params"])
    except AssumeFailed:
        out["assume"] = True
    except InputsEnd:
        pass
    except Exception as e:
        out["exc"] = "".join(traceback.format_exception_only(type(e), e)).strip()[:500]
        out["tb"] = traceback.format_exc()[-2500:]
    cleanup(S)
    out["failures"] = S.failures
    out["nchecks"] = S.nchecks
    return out


def main():
    pid = sys.argv[1]
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, repo)
    real_out = os.dup(1)
    os.dup2(2, 1)  # library prints must not disturb the protocol
    w = os.fdopen(real_out, "w", buffering=1)
    from sx import registry
    mod, scens = registry.load(pid)
    scens = {s.name: s for s in scens}
    import riptable as rt
    assert os.path.dirname(os.path.abspath(rt.__file__)) == os.path.join(os.path.abspath(repo), "riptable"), rt.__file__
    if hasattr(mod, "setup_real"):
        mod.setup_real(rt)
    w.write("{\"ready\": true}\n")
    w.flush()
    for line in sys.stdin:
        job = json.loads(line)
        w.write(json.dumps(run_one(scens, rt, job)) + "\n")
        w.flush()


if __name__ == "__main__":
    main()

"""Runs the scenarios of one property: symbolic exploration, replay, evidence."""
import os, sys, json, time, signal, subprocess, tempfile, shutil, threading, queue, resource, traceback, select, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
CHILD_MEM = 6 << 30
EVID = os.environ.get("SX_OUT", os.path.join(ROOT, "evidence"))  # SX_OUT, SX_PICK, SX_COV: development aids
MAX_CE = 4          # counterexamples kept per message and scenario instance
MAX_CE_TOTAL = 24
MAX_WIT = 12        # path witnesses replayed per scenario instance


# ---------------------------------------------------------------------------
# symbolic side (runs in a forked child)
# ---------------------------------------------------------------------------
def explore(rt, sc, params, budget, tier):
    from . import engine as E
    from .syms import SymS
    from .harness import run_scenario
    from .harness import cleanup
    import warnings
    warnings.simplefilter("ignore")
    funcs = set()
    mon = sys.monitoring
    TOOL = 4
    mon.use_tool_id(TOOL, "sx")

    def on_start(code, off):
        fn = code.co_filename
        if fn.startswith(REPO + "/riptable/"):
            funcs.add(fn[len(REPO) + 1:] + ":" + code.co_qualname)
        return mon.DISABLE

    mon.register_callback(TOOL, mon.events.PY_START, on_start)
    mon.set_events(TOOL, mon.events.PY_START)
    lines = set()
    if os.environ.get("SX_COV"):  # development aid: executed lines
        def on_line(code, ln):
            if code.co_filename.startswith(REPO + "/riptable/"):
                lines.add((code.co_filename[len(REPO) + 10:], ln))
            return mon.DISABLE

        mon.register_callback(TOOL, mon.events.LINE, on_line)
        mon.set_events(TOOL, mon.events.PY_START | mon.events.LINE)

    t0 = time.time()
    eng = E.Engine(query_timeout_ms=int(os.environ.get("SX_QT", "10000" if tier == "quick" else "60000")), deadline=t0 + budget)
    ces, wits, gaps = [], [], {}
    nmsg = {}
    state = {"S": None, "decisions": 0, "n": 0}

    def collect(S):
        for msg, inp in S.fails:
            k = nmsg.get(msg, 0)
            nmsg[msg] = k + 1
            if k < MAX_CE and len(ces) < MAX_CE_TOTAL:
                ces.append({"msg": msg, "inputs": inp})
        S.fails = []

    def gap(why):
        gaps[why] = gaps.get(why, 0) + 1
        eng.incomplete("encoding gap: " + why)

    def witness(S, tag):
        m = eng.path_model()
        if m is None:
            return
        if tag == "ok":
            # spread the samples: powers of two first, then every 64th path
            n = state["n"]
            state["n"] += 1
            if len([w for w in wits if w["tag"] == "ok"]) >= MAX_WIT or not (n & (n - 1) == 0 or n % 64 == 0):
                return
        elif len([w for w in wits if w["tag"] != "ok"]) >= MAX_WIT:
            return
        wits.append({"tag": tag, "inputs": S.model_inputs(m)})

    def body(e):
        S = SymS(e, rt)
        state["S"] = S
        try:
            run_scenario(sc, S, params)
            S.flush()
            if e.path_unsupported:
                gap(e.path_unsupported)
                witness(S, "gap")
            else:
                witness(S, "ok")
        except E.Unsupported as x:
            gap(str(x))
            witness(S, "gap")
        except Exception as x:
            if e.dead is not None:
                raise e.dead
            what = f"{type(x).__name__}: {str(x)[:160]}"
            S.flush()
            if os.environ.get("SX_TB"):
                traceback.print_exc()
            if e.path_unsupported:
                gap(e.path_unsupported)
                witness(S, "gap")
            else:
                m = e.path_model()
                if m is not None:
                    k = nmsg.get("exception", 0)
                    nmsg["exception"] = k + 1
                    gapkey = "symbolic run raised " + what
                    gaps.setdefault(gapkey, 0)
                    gaps[gapkey] += 1
                    state["exc"] = state.get("exc", 0) + 1
                    eng.incomplete("encoding or code raised: " + what)
                    if k < MAX_CE_TOTAL:
                        ces.append({"msg": "unexpected exception: " + what, "inputs": S.model_inputs(m), "exc": True})
        finally:
            cleanup(S)
            collect(S)
            state["decisions"] += len(e.trace)

    err = None
    try:
        eng.run(body)
    except MemoryError:
        eng.incomplete("memory limit")
    except Exception:
        err = traceback.format_exc()[-3000:]
        eng.incomplete("internal error")
    st = eng.stats
    if lines:
        with open(os.path.join(os.environ["SX_COV"], f"{sc.name}_{os.getpid()}.json"), "w") as f:
            json.dump({"s": sc.name, "p": params, "t": time.time() - t0, "lines": sorted(lines)}, f)
    return {
        "scenario": sc.name, "params": params, "ces": ces, "witnesses": wits,
        "paths": st.paths, "aborted": st.aborted, "queries": st.queries, "solver_s": round(st.solver_s, 3),
        "asserts": st.asserts, "unknown": st.unknown, "decisions": state["decisions"],
        "complete": bool(eng.complete and not eng.worklist), "why": eng.why_incomplete, "forked": eng.forked, "gaps": gaps,
        "open": len(eng.worklist), "funcs": sorted(funcs), "wall_s": round(time.time() - t0, 2), "err": err,
    }


# ---------------------------------------------------------------------------
# replay workers
# ---------------------------------------------------------------------------
class Worker:
    def __init__(self, pid, scratch):
        env = dict(os.environ)
        env.update(PYTHONDONTWRITEBYTECODE="1", NUMBA_CACHE_DIR=scratch + "/numba", PYTHONPATH=ROOT + os.pathsep + REPO, VERIF_REPO=REPO,
                   HOME=scratch, TMPDIR=scratch)
        self.args = [PY, "-m", "sx.replay", pid]
        self.env = env
        self.scratch = scratch
        self.p = None

    def start(self):
        self.p = subprocess.Popen(self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL if not os.environ.get("SX_TB") else None,
                                  env=self.env, cwd=self.scratch, text=True, bufsize=1)
        r = self._read(120)
        if r is None or not r.get("ready"):
            self.kill()
            return False
        return True

    def _read(self, timeout):
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            return "timeout"
        line = self.p.stdout.readline()
        if not line:
            return None
        return json.loads(line)

    def kill(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None

    def run(self, job, timeout=150):
        for attempt in (0, 1):
            if self.p is None:
                if not self.start():
                    return {"infra": "replay worker could not import the library"}
            try:
                self.p.stdin.write(json.dumps(job) + "\n")
                self.p.stdin.flush()
                r = self._read(timeout)
            except (BrokenPipeError, OSError):
                r = None
            if r == "timeout":
                self.kill()
                return {"hang": True, "failures": [], "exc": None, "assume": False}
            if r is None:
                rc = self.p.wait()
                self.p = None
                if attempt == 0:
                    continue  # once more in a fresh process
                return {"crash": rc, "failures": [], "exc": None, "assume": False}
            return r


def run_property(pid, tier, seed, only=None, verbose=False, budget_scale=1.0):
    t0 = time.time()
    sys.path.insert(0, ROOT)
    from . import registry
    for _f in (f"{pid}.json", f"replay/{pid}.json"):
        if os.path.exists(os.path.join(EVID, _f)):
            os.remove(os.path.join(EVID, _f))
    scratch = tempfile.mkdtemp(prefix=f"sx_{pid}_")
    os.environ.setdefault("NUMBA_CACHE_DIR", scratch + "/numba")
    os.environ["SX_SCRATCH"] = scratch
    sys.dont_write_bytecode = True
    try:
        return _run(pid, tier, seed, only, verbose, budget_scale, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run(pid, tier, seed, only, verbose, budget_scale, scratch, t0):
    from . import registry
    mod, scens = registry.load(pid)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import_err = None
    from . import boot
    try:
        rt = boot.install()
        if hasattr(mod, "setup_sym"):
            mod.setup_sym(rt)
    except Exception:
        import_err = traceback.format_exc()[-2000:]
        rt = None

    pick = json.load(open(os.environ["SX_PICK"])) if os.environ.get("SX_PICK") else None
    jobs = []
    for sc in scens:
        if only and sc.name not in only:
            continue
        for p in (sc.quick if tier == "quick" else sc.thorough):
            b = sc.budget * budget_scale * (1 if tier == "quick" else 8)
            if pick is None or [sc.name, json.loads(json.dumps(p))] in pick:
                jobs.append((sc, p, b))
    results = []
    todo = list(enumerate(jobs))
    running = {}
    rq, rout = queue.Queue(), []
    stop = object()

    def replayer():
        w = Worker(pid, scratch)
        while True:
            j = rq.get()
            if j is stop:
                break
            kind, res, item = j
            try:
                r = w.run({"scenario": res["scenario"], "params": res["params"], "inputs": item["inputs"]})
            except Exception as x:
                r = {"infra": repr(x)}
            rout.append((kind, res, item, r))
        w.kill()

    nrep = 3 if tier == "quick" else 4
    threads = [threading.Thread(target=replayer, daemon=True) for _ in range(nrep)]

    def launch(i, sc, p, b):
        out = os.path.join(scratch, f"res{i}.json")
        child = os.fork()
        if child == 0:
            code = 1
            try:
                resource.setrlimit(resource.RLIMIT_AS, (CHILD_MEM * 4, CHILD_MEM * 4))
                if not verbose and not os.environ.get("SX_TB"):
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    os.dup2(dn, 2)
                res = explore(rt, sc, p, b, tier)
                with open(out + ".tmp", "w") as f:
                    json.dump(res, f)
                os.rename(out + ".tmp", out)
                code = 0
            except BaseException:
                if verbose:
                    traceback.print_exc()
            finally:
                os._exit(code)
        running[child] = (i, sc, p, b, time.time(), out)

    if rt is not None:
        # fork everything that fits before the replay threads start
        while todo and len(running) < NPROC:
            i, (sc, p, b) = todo.pop(0)
            launch(i, sc, p, b)
    for t in threads:
        t.start()
    seen = 0
    while running:
        child, status = os.waitpid(-1, os.WNOHANG) if running else (0, 0)
        if child == 0:
            now = time.time()
            for c, (i, sc, p, b, ts, out) in list(running.items()):
                if now - ts > b * 1.5 + 60:
                    try:
                        os.kill(c, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
            time.sleep(0.02)
            continue
        if child not in running:
            continue
        i, sc, p, b, ts, out = running.pop(child)
        if os.path.exists(out):
            res = json.load(open(out))
        else:
            res = {"scenario": sc.name, "params": p, "ces": [], "witnesses": [], "paths": 0, "aborted": 0, "queries": 0, "solver_s": 0,
                   "asserts": 0, "unknown": 0, "decisions": 0, "complete": False, "why": {f"exploration process ended (status {status})": 1},
                   "gaps": {}, "open": 0, "funcs": [], "wall_s": round(time.time() - ts, 2), "err": f"status {status}"}
        results.append(res)
        if verbose:
            print(f"  {res['scenario']} {res['params']}: paths={res['paths']} asserts={res['asserts']} q={res['queries']} solver={res['solver_s']}s wall={res['wall_s']}s complete={res['complete']} ces={len(res['ces'])} wit={len(res['witnesses'])} open={res['open']} why={res['why']}"
                  + (f"\n    ERR {res['err']}" if res["err"] else ""), flush=True)
            for k, v in res["gaps"].items():
                print("    gap:", v, k[:200])
        for ce in res["ces"]:
            rq.put(("ce", res, ce))
        for w in res["witnesses"]:
            rq.put(("wit", res, w))
        while todo and len(running) < NPROC:
            i, (sc, p, b) = todo.pop(0)
            launch(i, sc, p, b)
    for _ in threads:
        rq.put(stop)
    for t in threads:
        t.join()

    return judge(pid, tier, seed, mod, results, rout, import_err, t0, verbose)


def judge(pid, tier, seed, mod, results, rout, import_err, t0, verbose):
    known = []
    kf = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k.get("property") == pid and k.get("status") == "known"]
    viol, knownhits, inconclusive, validated = [], {}, [], 0
    samples = []
    for kind, res, item, r in rout:
        if "infra" in r:
            inconclusive.append({"scenario": res["scenario"], "why": r["infra"]})
            continue
        bad = None
        if r.get("crash") is not None:
            bad = f"process died (status {r['crash']})"
        elif r.get("hang"):
            bad = "no termination within 150 s"
        elif r["exc"]:
            bad = "unexpected exception: " + r["exc"]
        elif r["failures"]:
            bad = r["failures"][0]
        if r.get("assume") and not r["failures"]:
            bad = None
        if bad is None:
            if kind == "ce":
                inconclusive.append({"scenario": res["scenario"], "params": res["params"], "why": "counterexample of the encoding did not reproduce on the real code: " + item["msg"], "inputs": item["inputs"]})
            elif not r.get("assume"):
                validated += 1
                if len(samples) < 6:
                    samples.append({"scenario": res["scenario"], "params": res["params"], "inputs": item["inputs"]})
            continue
        v = {"scenario": res["scenario"], "params": res["params"], "inputs": item["inputs"], "what": bad,
             "found_by": "solver counterexample" if kind == "ce" else ("solver path witness" if item["tag"] == "ok" else "solver path witness on a path outside the encoding")}
        if r.get("tb"):
            v["traceback"] = r["tb"]
        hit = None
        for k in known:
            if k["scenario"] == res["scenario"] and k["match"] in bad and eval(k.get("when", "True"), {}, dict(item["inputs"], P=res["params"])):
                hit = k
                break
        if hit is not None:
            knownhits[hit["what"]] = knownhits.get(hit["what"], 0) + 1
        else:
            viol.append(v)
    crashed_import = None
    if import_err is not None:
        # does the real library import at all?
        inconclusive.append({"scenario": "*", "why": "library could not be loaded symbolically: " + import_err})
    out_lines = []
    for k in knownhits:
        out_lines.append(f"KNOWN-FINDING: property={pid} {k}")
    replay = None
    if viol:
        rd = os.path.join(EVID, "replay")
        os.makedirs(rd, exist_ok=True)
        replay = os.path.join(rd, f"{pid}.json")
        uniq, seenk = [], set()
        for v in viol:
            k = (v["scenario"], v["what"][:80])
            if k not in seenk:
                seenk.add(k)
                uniq.append(v)
        json.dump({"property": pid, "how": f"cd {ROOT} && bash replay.sh {pid} {replay}", "violations": uniq[:20]}, open(replay, "w"), indent=1)
        for v in uniq[:5]:
            out_lines.append(f"  {v['scenario']}{v['params']}: {v['what']}  inputs={json.dumps(v['inputs'])[:400]}")
        out_lines.append(f"VIOLATION property={pid} replay={replay}")
    funcs = sorted({f for r in results for f in r["funcs"]})
    scen = []
    for r in results:
        scen.append({k: r[k] for k in ("scenario", "params", "paths", "aborted", "asserts", "queries", "solver_s", "complete", "open", "wall_s")}
                    | {"not_covered": dict(sorted(r["why"].items(), key=lambda kv: -kv[1])[:8])} | ({"operands_split_into_all_values": r["forked"]} if r.get("forked") else {}))
    nwit = sum(1 for k, *_ in rout if k == "wit")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r["paths"] + r["aborted"] for r in results),
            "transitions": sum(r["decisions"] for r in results),
            "traces_validated_against_impl": validated,
            "samples": samples or [{"note": "no witness replayed"}],
            "exhaustive": bool(results) and all(r["complete"] for r in results),
            "explanation": "states = symbolic paths explored (each stands for all inputs following it), transitions = solver-decided branch outcomes on them, traces_validated_against_impl = solver models of explored paths replayed on the unmodified library with the same assertions",
            "bounds": getattr(mod, "BOUNDS", ""),
            "assertions_decided": sum(r["asserts"] for r in results),
            "queries_discharged": sum(r["queries"] for r in results),
            "solver_seconds": round(sum(r["solver_s"] for r in results), 2),
            "solver_unknown": sum(r["unknown"] for r in results),
            "scenarios_total": len(results),
            "scenarios_complete_within_bounds": sum(1 for r in results if r["complete"]),
            "scenarios": scen,
            "functions_encoded_count": len(funcs),
            "functions_encoded": funcs[:400],
            "witnesses_replayed": nwit,
            "inconclusive": inconclusive[:20],
            "known_findings_hit": knownhits,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1, default=str)
    for l in out_lines:
        print(l)
    if verbose:
        seen = {}
        for i in inconclusive:
            seen.setdefault((i["scenario"], i["why"][:150]), []).append(i)
        for k, i in list(seen.items())[:10]:
            print("INCONCLUSIVE", len(i), json.dumps(i[0])[:500])
        for v in viol[:3]:
            if v.get("traceback"):
                print(v["traceback"])
    print(f"{pid} {tier}: {ev['coverage']['scenarios_complete_within_bounds']}/{len(results)} scenario instances complete, "
          f"{ev['coverage']['states']} paths, {ev['coverage']['assertions_decided']} assertions, {ev['coverage']['queries_discharged']} queries, "
          f"{ev['coverage']['solver_seconds']} solver-s, {validated} witnesses validated, {len(inconclusive)} inconclusive, {len(viol)} violations, {ev['wall_s']} s")
    return 1 if viol else 0


COMMON_ASSUMPTIONS = [
    "the compiled extension riptide_cpp (binary only) is represented by contracts of the functions reached; those contracts are cross-checked by replaying path witnesses on the real extension",
    "numpy array operations are represented by models of the operations reached, cross-checked the same way",
    "numba-compiled kernels are executed from their Python source under numba's integer-typing rules as encoded in sx/boot.py",
    "floating-point inputs range over dyadic rationals within the stated bounds (and NaN); inexact results go through an uninterpreted rounding function",
]

"""Explores a harness in parallel, confirms counterexamples on the plain code, writes evidence."""
import gc
import json
import logging
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random
import subprocess
import sys
import time
import traceback

from . import canon, instrument
from .ctx import SymCtx
from .engine import (AssertFailed, B, Engine, EngineError, PathAbort, PathInfeasible, Signal, z3)
from .values import eval_model
from . import fp, nparr, pathmodels  # noqa: F401  (register their models)

VERIF = instrument.VERIF
PY = sys.executable
NPROC = int(os.environ.get("SYMX_PROCS", "8"))


# ------------------------------------------------------------------ one worker
def _model_inputs(eng, model):
    return {k: _jsonable(eval_model(v, model)) for k, v in eng.inputs.items()}


def _jsonable(v):
    if hasattr(v, "tolist"):
        return v.tolist()
    if isinstance(v, float):
        return v.hex()
    return v


def explore(eng, mod, case, prefix, until, seed, nsample, max_findings=4):
    """DFS under `prefix` until the time slice ends; returns results and leftover prefixes."""
    fn_name, kw = case
    fn = getattr(mod, fn_name)
    eng.load_prefix(prefix)
    eng.reach_labels = set()
    floor = len(prefix)
    res = dict(findings=[], samples=[], left=[], reach=set(), hang=[])
    rnd = random.Random(repr((seed, fn_name, sorted(kw.items(), key=repr), len(prefix), prefix[-3:])))
    st = eng.stats
    setup = getattr(mod, "symbolic_setup", None)
    while True:
        eng.path_reset()
        Engine.current = eng
        status = "ok"
        try:
            if setup:
                setup()
            fn(SymCtx(eng), **kw)
        except PathInfeasible:
            status = "infeasible"
        except PathAbort as ex:
            status = "abort"
            eng.abort_notes[str(ex)] = eng.abort_notes.get(str(ex), 0) + 1
            if str(ex) == "step limit":
                try:
                    res["hang"].append(_model_inputs(eng, eng.get_model()))
                except Signal:
                    pass
        except AssertFailed as ex:
            status = "fail"
            res["findings"].append((_model_inputs(eng, eng.fail_model), str(ex)))
        except (EngineError, z3.Z3Exception, NotImplementedError) as ex:
            status = "abort"
            k = "engine: %s" % str(ex)[:120]
            if "divergence" in k:
                k = "replay divergence"
            eng.abort_notes[k] = eng.abort_notes.get(k, 0) + 1
            _dbg()
        except RecursionError:
            status = "abort"
            eng.abort_notes["recursion"] = eng.abort_notes.get("recursion", 0) + 1
        except Exception as ex:
            status = "fail"
            tb = traceback.extract_tb(ex.__traceback__)[-1]
            _dbg()
            try:
                res["findings"].append((_model_inputs(eng, eng.get_model()),
                                        "unexpected %s at %s:%s" % (
                                            type(ex).__name__, os.path.basename(tb.filename), tb.lineno)))
            except Signal:
                status = "infeasible"
        finally:
            Engine.current = None
        if status == "ok":
            st["paths"] += 1
            if eng.path_asserts:
                st["reached"] += 1
            # keep a few path models to re-run on the plain code
            n = st["paths"]
            if len(res["samples"]) < nsample or rnd.random() < nsample / n:
                Engine.current = eng
                try:
                    m = eng.get_model()
                    s = (_model_inputs(eng, m), canon.canon(eval_model(eng.observed, m)))
                    if len(res["samples"]) >= nsample:
                        res["samples"][rnd.randrange(nsample)] = s
                    else:
                        res["samples"].append(s)
                except (Signal, RecursionError):
                    pass
                Engine.current = None
        elif status == "infeasible":
            st["infeasible"] += 1
        elif status == "abort":
            st["aborted"] += 1
        else:
            st["failed"] = st.get("failed", 0) + 1
        if len(res["findings"]) >= max_findings or len(res["hang"]) >= 3:
            more = eng.backtrack(floor)
            if more:
                res["left"] = [[(e[0], e[1], e[3]) for e in eng.trail]] + eng.split_open(10 ** 9)
            break
        if not eng.backtrack(floor):
            break
        if time.monotonic() > until:
            res["left"] = [[(e[0], e[1], e[3]) for e in eng.trail]] + eng.split_open(10 ** 9)
            break
    res["reach"] = eng.reach_labels
    return res


def _dbg():
    if os.environ.get("SYMX_DEBUG"):
        traceback.print_exc()


def watch_lines(path):
    """Keeps the lines of the repository run by this worker in a file (SYMX_COV, for tools/cover.py)."""
    mon, lines, root = sys.monitoring, set(), os.path.join(instrument.REPO, "")
    mon.use_tool_id(4, "symx")

    def line(code, n):
        if code.co_filename.startswith(root):
            lines.add("%s:%d" % (code.co_filename[len(root):], n))
        return mon.DISABLE

    mon.register_callback(4, mon.events.LINE, line)
    mon.set_events(4, mon.events.LINE)

    def flush():
        new = sorted(lines)
        lines.clear()
        if new:
            with open(path, "a") as f:
                f.write("\n".join(new) + "\n")

    return flush


def worker(conn, mod, cases, seed, opts):
    flush = watch_lines(os.environ["SYMX_COV"]) if os.environ.get("SYMX_COV") else None
    sys.setrecursionlimit(20000)
    gc.freeze()
    z3.main_ctx()
    eng = Engine(seed=seed, **opts)
    n = 0
    try:
        while True:
            task = conn.recv()
            if task is None:
                break
            ci, prefix, slice_s, nsample = task
            eng.func_hits = {}
            eng.gap_notes = {}
            eng.abort_notes = {}
            for k in eng.stats:
                eng.stats[k] = 0
            t0 = time.monotonic()
            res = explore(eng, mod, cases[ci], prefix, t0 + slice_s, seed, nsample)
            res["took"] = time.monotonic() - t0
            res["stats"] = dict(eng.stats)
            res["funcs"] = eng.func_hits
            res["gaps"] = eng.gap_notes
            res["aborts"] = eng.abort_notes
            if flush:
                flush()
            conn.send((ci, res))
            n += 1
            if n % 50 == 0:  # z3 keeps garbage around
                eng = Engine(seed=seed, **opts)
    except (EOFError, KeyboardInterrupt):
        pass
    except BaseException as ex:
        try:
            conn.send((None, "".join(traceback.format_exception(ex))[-3000:]))
        except Exception:
            pass
    os._exit(0)


# ------------------------------------------------------------------ master
def run_plain(harness, items, limit):
    """Run items on the plain code in a separate process; returns a list of result dicts."""
    if not items:
        return []
    import tempfile

    out = []
    while len(out) < len(items):
        with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
            json.dump(items[len(out):], f)
        env = dict(os.environ, PYTHONHASHSEED="0", SYMX_REPO=instrument.REPO)
        try:
            p = subprocess.run(
                [PY, os.path.join(VERIF, "symx", "replay.py"), harness, f.name],
                stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit, env=env, text=True)
            txt, err = p.stdout, p.stderr
        except subprocess.TimeoutExpired as ex:
            txt = (ex.stdout or b"").decode() if isinstance(ex.stdout, bytes) else ex.stdout or ""
            err = "timeout"
        os.unlink(f.name)
        got = [json.loads(l) for l in txt.splitlines() if l.startswith("{")]
        out += got
        if len(out) < len(items):
            out.append(dict(status="crash", msg=err[-1500:], observed=None, asserts=0))
            if not got and err != "timeout":
                out += [dict(out[-1]) for _ in range(len(items) - len(out))]
    return out


def key_known(known, pid, msg, item):
    for k in known:
        if k["property"] == pid and k["check"] == item["check"] and all(
                item["inputs"].get(n) == v for n, v in k.get("inputs", {}).items()) and \
                k.get("msg", "") in msg:
            return k
    return None


def run_check(pid, harness, tier, seed):
    t0 = time.monotonic()
    logging.disable(logging.CRITICAL)
    instrument.install(True)
    path = os.path.join(VERIF, "harness", harness + ".py")
    mod = instrument.load_file(path, "_symx_harness", True)
    spec = mod.PROPERTIES[pid]
    cases = [(n, json.loads(json.dumps(kw))) for n, kw in spec["cases"](tier)]
    budget = spec.get("budget", {}).get(tier, 75 if tier == "quick" else 600)
    budget = float(os.environ.get("SYMX_BUDGET", budget))
    opts = dict(spec.get("engine", {}))
    known = []
    kf = os.path.join(VERIF, "known-findings.json")
    if os.path.exists(kf):
        with open(kf) as f:
            known = json.load(f)["findings"]

    tot = dict(stats={}, funcs={}, gaps={}, aborts={}, reach=set())
    percase = {i: dict(paths=0, open=1, asserts=0) for i in range(len(cases))}
    samples, confirmed, spurious, knownhits = [], [], [], {}
    queue = [(i, []) for i in range(len(cases))]
    spent = [0.0] * len(cases)
    random.Random(seed).shuffle(queue)
    # one root task per case first; deep splits come back as new prefixes
    nproc = NPROC
    ctx = mp.get_context("fork")
    procs = []
    gc.collect()
    for _ in range(nproc):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b, mod, cases, seed, opts), daemon=True)
        p.start()
        b.close()
        procs.append([p, a, None])
    nsample = max(1, min(6, 300 // max(1, len(cases))))
    per_case_samples = {}
    error = None
    end = t0 + budget
    stop = False
    while not stop:
        now = time.monotonic()
        idle = [w for w in procs if w[2] is None]
        busy = [w for w in procs if w[2] is not None]
        if now < end:
            for w in idle:
                if not queue:
                    break
                # the case that was given the least time so far, so that none starves
                at = min(range(len(queue)), key=lambda i: (spent[queue[i][0]], -i))
                ci, prefix = queue.pop(at)
                starving = len(queue) < nproc
                sl = 0.4 if starving else 3.0
                w[1].send((ci, prefix, min(sl, max(0.1, end - now)), nsample))
                w[2] = ci
                spent[ci] += sl / 8  # counts in while it runs
            busy = [w for w in procs if w[2] is not None]
        if not busy:
            break
        if now > end + 45:
            error = "workers did not return"
            break
        for c in mpc.wait([w[1] for w in busy], timeout=1.0):
            w = [x for x in busy if x[1] is c][0]
            try:
                ci, res = c.recv()
            except EOFError:
                ci, res = None, "worker died"
            if ci is None:
                error = res
                stop = True
                break
            w[2] = None
            spent[ci] += res["took"]
            for k, v in res["stats"].items():
                tot["stats"][k] = tot["stats"].get(k, 0) + v
            for d in ("funcs", "gaps", "aborts"):
                for k, v in res[d].items():
                    tot[d][k] = tot[d].get(k, 0) + v
            tot["reach"] |= res["reach"]
            pc = percase[ci]
            pc["paths"] += res["stats"]["paths"]
            pc["asserts"] += res["stats"]["asserts"]
            pc["open"] += len(res["left"]) - 1
            queue += [(ci, p) for p in res["left"]]
            lst = per_case_samples.setdefault(ci, [])
            for s in res["samples"]:
                if len(lst) < nsample:
                    lst.append(s)
            cands = [(i, m) for i, m in res["findings"]] + [
                (i, "does not terminate (step limit)") for i in res["hang"]]
            if cands:
                items = [dict(check=cases[ci][0], case=cases[ci][1], inputs=i) for i, _ in cands]
                for it, (_, msg), r in zip(items, cands, run_plain(harness, items, 60)):
                    if r["status"] == "violation":
                        k = key_known(known, pid, r["msg"], it)
                        if k is not None:
                            knownhits[k["id"]] = k
                            continue
                        confirmed.append((it, msg, r))
                    elif not msg.startswith("does not terminate"):
                        spurious.append((it, msg, r))
                if confirmed:
                    stop = True
    exhausted = not queue and not error and all(w[2] is None for w in procs) and \
        not tot["stats"].get("aborted") and not stop and not spurious
    for w in procs:
        try:
            w[1].send(None) if w[2] is None else None
        except Exception:
            pass
    for w in procs:
        w[0].join(0.2)
        if w[0].is_alive():
            w[0].kill()
    explore_s = time.monotonic() - t0

    # re-run sampled path models on the plain code: same observations, no failed assertion
    items, want = [], []
    for ci, lst in sorted(per_case_samples.items()):
        for inp, obs in lst:
            items.append(dict(check=cases[ci][0], case=cases[ci][1], inputs=inp))
            want.append(obs)
    if confirmed:
        items, want = items[:20], want[:20]
    validated, mismatches = 0, []
    for it, obs, r in zip(items, want, run_plain(harness, items, 240)):
        if r["status"] == "violation":
            k = key_known(known, pid, r["msg"], it)
            if k is not None:
                knownhits[k["id"]] = k
            else:
                confirmed.append((it, "found when re-running a path model", r))
        elif r["status"] == "ok" and json.loads(json.dumps(obs)) == r["observed"]:
            validated += 1
        else:
            mismatches.append((it, obs, r))

    st = tot["stats"]
    ours = {k: v for k, v in tot["funcs"].items() if k.startswith("pandalone")}
    lib = {k: v for k, v in tot["funcs"].items() if not k.startswith("pandalone")}
    wall = time.monotonic() - t0
    cov = dict(
        states=st.get("paths", 0),
        transitions=st.get("decisions", 0),
        traces_validated_against_impl=validated,
        samples=[dict(check=it["check"], case=it["case"], inputs=it["inputs"]) for it in items[:4]],
        cases=len(cases),
        exhausted_within_bounds=bool(exhausted),
        open_prefixes=len(queue),
        forks=st.get("forks", 0),
        paths_infeasible=st.get("infeasible", 0),
        paths_undecided=st.get("aborted", 0) + len(spurious),
        undecided_reasons=tot["aborts"],
        assertions=st.get("asserts", 0),
        assertions_by_solver_query=st.get("asserts_solver", 0),
        assertions_decided_by_path_condition=st.get("asserts_pc", 0),
        solver_queries=st.get("checks", 0),
        solver_unknown=st.get("unknown", 0),
        solver_cpu_s=round(st.get("solver_s", 0.0), 2),
        solver="z3 " + z3.get_version_string(),
        functions_encoded=sorted(ours),
        library_functions_encoded=sorted(lib),
        values_fixed_by_forking=st.get("concretized", 0),
        unmodelled_calls_fixed_by_forking=tot["gaps"],
        bounds=spec["bounds"] if isinstance(spec["bounds"], (str, list)) else spec["bounds"][tier],
        outside_bounds=spec.get("outside", []),
        stubs=spec.get("stubs", []),
        oracle=spec.get("oracle", ""),
        reached=sorted(tot["reach"]),
        known_findings=sorted(knownhits),
        spurious_counterexamples=len(spurious),
        validation_mismatches=len(mismatches),
        explore_wall_s=round(explore_s, 1),
    )
    missing = [l for l in spec.get("must_reach", []) if l not in tot["reach"]]
    if missing:
        cov["labels_not_reached"] = missing
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=list(spec.get("assumptions", [])) + [
                  "the models of CPython built-ins in symx (validated on sampled path models of every run)",
                  "z3 answers sat/unsat correctly"],
              wall_s=round(wall, 2), violations=len(confirmed))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evp = os.path.join(VERIF, "evidence", "%s.json" % pid)
    with open(evp, "w") as f:
        json.dump(ev, f, indent=1, default=str)

    print("%s: cases=%d paths=%d decisions=%d queries=%d solver=%.1fs asserts=%d (%d by query) "
          "undecided=%d validated=%d exhausted=%s wall=%.1fs" % (
              pid, len(cases), cov["states"], cov["transitions"], cov["solver_queries"],
              cov["solver_cpu_s"], cov["assertions"], cov["assertions_by_solver_query"],
              cov["paths_undecided"], validated, exhausted, wall))
    if os.environ.get("SYMX_VERBOSE"):
        slow = sorted(percase.items(), key=lambda x: -x[1]["paths"])[:8]
        for i, pc in slow:
            print("   ", cases[i], pc)
        print("    gaps:", tot["gaps"], "aborts:", tot["aborts"], "not reached:", missing)
        print("    funcs:", ours)
    for k in knownhits.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for it, msg, r in spurious[:3]:
        print("  not reproduced on the real code (undecided path): %s %s %s" % (
            msg, it["check"], json.dumps(dict(it["case"], **it["inputs"]), default=str)[:300]))
    for it, obs, r in mismatches[:3]:
        print("  engine/plain mismatch: %s\n    engine %s\n    plain  %s %s" % (
            json.dumps(it, default=str)[:400], json.dumps(obs)[:400],
            json.dumps(r["observed"])[:400], r["status"] + " " + r["msg"][:200]))
    if confirmed:
        for n, (it, msg, r) in enumerate(confirmed[:3]):
            rp = os.path.join(VERIF, "evidence", "%s%s.replay.json" % (pid, "" if not n else "-%d" % n))
            with open(rp, "w") as f:
                json.dump(dict(property=pid, harness=harness, message=r["msg"], symbolic_message=msg,
                               **it), f, indent=1)
            print("  counterexample (reproduced on the real code): %s\n    %s %s" % (
                r["msg"][:600], it["check"], json.dumps(dict(it["case"], **it["inputs"]))[:600]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if error:
        print("ERROR: %s" % error)
        return 2
    if not st.get("asserts"):
        print("ERROR: no assertion was reached (vacuous)")
        return 2
    if mismatches and len(mismatches) > 0.2 * max(1, len(items)):
        print("ERROR: the encoding does not match the real code")
        return 2
    if st.get("paths", 0) == 0:
        print("ERROR: no path completed")
        return 2
    return 0

"""Explores harnesses in parallel, replays counterexamples, writes evidence."""
import gc
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
MODULE = None  # of the harnesses
VENV_PY = "/opt/venv/bin/python"


def _targets(code):
    return code.co_filename.startswith(REPO)


class _Prof:
    """records which functions of /repo a path went through"""

    def __init__(self):
        self.seen = set()

    def __enter__(self):
        def prof(frame, event, arg):
            if event == "call":
                c = frame.f_code
                if c.co_filename.startswith(REPO):
                    self.seen.add(
                        "%s:%s" % (os.path.relpath(c.co_filename, REPO), c.co_qualname)
                    )

        sys.setprofile(prof)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)


class PathTimeout(Exception):
    pass


def _alarm(sig, frm):
    raise PathTimeout("a single path used more than 20 s of processor time, or 100 s, without coming to an end")


def explore(h, params, fixed, time_limit, prefix=(), slice_s=4.0, want_samples=2):
    """Exhausts the path tree of one job.  Returns a result dict."""
    from . import common, engine, loop, symstr
    from .base import Abort, Inconclusive, Infeasible, ViolationFound

    eng = engine.Engine(fixed=fixed, time_limit=time_limit, prefix=prefix)
    engine.CUR = eng
    loop.VLoop.abort_check = staticmethod(eng.check_abort)
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    gc.collect()
    gc.freeze()
    gc.disable()
    reached, samples, funcs = {}, [], set()
    res = {
        "status": "ok", "msg": None, "values": None, "harness": h.name, "params": params, "fixed": fixed,
        "unconfirmed": [],
    }
    done = 0
    t0 = time.time()
    while True:
        eng.start()
        symstr.reset()
        ctx = engine.SymCtx(eng)
        verdict = None
        signal.setitimer(signal.ITIMER_PROF, 20.0)
        signal.setitimer(signal.ITIMER_REAL, 100.0)
        try:
            if eng.paths < 2:
                with _Prof() as p:
                    verdict = common.run_body(h, ctx, params)
                funcs |= p.seen
            else:
                verdict = common.run_body(h, ctx, params)
        except Abort:
            pass
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
            sys.setprofile(None)
        eng.paths += 1
        a = eng.abort
        eng.abort = None
        if isinstance(a, Inconclusive):
            res.update(status="inconclusive", msg=str(a))
            break
        if a is None:
            if verdict is not None:
                a = ViolationFound(verdict)
        if isinstance(a, ViolationFound):
            # a counterexample that the plain code does not confirm says nothing: keep it apart and go on
            vals = ctx.values()
            again = None
            if len(res["unconfirmed"]) < 3:
                again = replay([(h.name, params, vals)], MODULE)
            if again and not again[2] and again[1][0][0] == 1:
                res.update(status="violation", msg=a.msg, values=vals, replayed=again)
                break
            if again:
                res["unconfirmed"].append((a.msg, vals, again[2] or again[1][0][1]))
        elif isinstance(a, Infeasible):
            eng.infeasible += 1
        else:
            done += 1
            for k in ctx.reached:
                reached[k] = reached.get(k, 0) + 1
            if want_samples and (done in (1, 7, 41) or (done & (done - 1)) == 0 and done >= 64) and len(samples) < 6:
                samples.append(ctx.values())
        if eng.paths % 100 == 0:
            gc.collect()
        if not eng.backtrack():
            break
        if time.time() - t0 > slice_s:
            res["frontier"] = eng.frontier()
            break
    # the last finished path is a sample, too (the other end of the tree)
    if res["status"] == "ok" and done and want_samples and "frontier" not in res and a is None:
        try:
            samples.append(ctx.values())
        except Abort:
            pass
    res.update(
        paths=done, infeasible=eng.infeasible, branches=eng.branches, forced=eng.forced,
        asserts=eng.asserts, obligations=eng.obligations, queries=eng.queries,
        solver_s=eng.solver_s, wall=time.time() - t0, reached=reached, samples=samples,
        funcs=sorted(funcs),
    )
    return res


def _job(conn, h, params, fixed, prefix, limit, slice_s):
    try:
        try:
            r = explore(h, params, fixed, limit, prefix, slice_s)
        except BaseException as e:
            r = {
                "status": "error", "msg": "".join(traceback.format_exception(e))[-3000:],
                "harness": h.name, "params": params, "fixed": fixed,
            }
        conn.send(r)
    finally:
        conn.close()
        os._exit(0)


def run_bounded(jobs, workers, limit, fall_limit, tier):
    """Runs the jobs; harnesses that do not end in time (on code with many more paths than today's) are run again
    at their smaller bounds.  Returns the results and what was reduced."""
    results = run_jobs(jobs, workers, limit)
    reduced = []
    if any(r["status"] in ("violation", "error") for r in results):
        return results, reduced
    late = {r["harness"] for r in results if r["status"] == "inconclusive" and r["msg"] in LATE}
    if not late or any(r["status"] == "inconclusive" and r["msg"] not in LATE for r in results):
        return results, reduced
    hs = list({h.name: h for h, _, _ in jobs if h.name in late}.values())
    again = []
    for h in hs:
        ps = h.params if tier == "thorough" and h.thorough is not None else h.fallback
        if ps is None:  # it may only have been starved by another one
            ps = []
            for g, p, _ in jobs:
                if g is h and p not in ps:
                    ps.append(p)
        again += [(h, p, f) for p in ps for f in expand(h, p)]
        reduced.append({"harness": h.name, "params": ps})
    more = run_jobs(again, workers, fall_limit)
    return [r for r in results if r["harness"] not in late] + more, reduced


LATE = ("time budget exhausted", "job killed at the time limit", "not started in time")


def run_jobs(jobs, workers, limit, stop_on_violation=True):
    ctx = mp.get_context("fork")
    todo = [(h, p, f, ()) for h, p, f in jobs][::-1]
    slices = 0
    active = {}
    results = []
    t0 = time.time()
    stop = False
    while todo or active:
        while todo and len(active) < workers and not stop:
            h, params, fixed, prefix = todo.pop()
            a, b = ctx.Pipe(False)
            left = max(1.0, limit - (time.time() - t0))
            # short slices while workers are idle, longer ones once there is enough work
            sl = 1.5 if len(todo) < 3 * workers else 8.0
            p = ctx.Process(target=_job, args=(b, h, params, fixed, prefix, left, sl))
            p.start()
            b.close()
            active[a] = (p, h, params, fixed)
        if not active:
            break
        ready = mp.connection.wait(list(active), timeout=1.0)
        for c in ready:
            p, h, params, fixed = active.pop(c)
            try:
                r = c.recv()
            except EOFError:
                r = {"status": "error", "msg": "worker died", "harness": h.name, "params": params, "fixed": fixed}
            c.close()
            p.join()
            results.append(r)
            for pre in r.pop("frontier", ()):
                todo.append((h, params, fixed, pre))
            if r["status"] == "violation" and stop_on_violation:
                stop = True
        if time.time() - t0 > limit + 30:
            stop = True
            for p, h, params, fixed in active.values():
                results.append({"status": "inconclusive", "msg": "job killed at the time limit", "harness": h.name, "params": params, "fixed": fixed})
            for h, params, fixed, _ in todo:
                results.append({"status": "inconclusive", "msg": "not started in time", "harness": h.name, "params": params, "fixed": fixed})
        if stop:
            for c, (p, *_) in active.items():
                p.kill()
                p.join()
                c.close()
            active.clear()
            todo.clear()
    return results


def expand(h, params):
    jobs = [{}]
    for k, idx in h.split.items():
        if callable(idx):
            idx = idx(params)
        jobs = [{**j, k: i} for j in jobs for i in idx]
    return jobs


def replay(items, module, timeout=120):
    """items: list of (harness name, params, values) -> list of (rc, msg), on the plain code"""
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    recs = [{"module": module, "harness": n, "params": p, "values": v} for n, p, v in items]
    body = json.dumps(recs, indent=1)
    path = os.path.join(d, "%s-%s.json" % (module, hashlib.sha1(body.encode()).hexdigest()[:12]))
    with open(path, "w") as f:
        f.write(body)
    py = VENV_PY if os.path.exists(VENV_PY) else sys.executable
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    try:
        r = subprocess.run(
            [py, os.path.join(HERE, "replay.py"), path], capture_output=True, text=True, timeout=timeout, env=env
        )
    except subprocess.TimeoutExpired:
        return path, None, "replay timed out"
    out = []
    for line in r.stdout.splitlines():
        if line.startswith("{"):
            try:
                o = json.loads(line)
                out.append((o["rc"], o["msg"]))
            except ValueError:
                pass
    if len(out) != len(items):
        return path, None, "replay crashed: " + (r.stderr[-1500:] or r.stdout[-500:])
    return path, out, None


def load_known(prop):
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                out.append(line[len("known: ") :])
    return out


def main(prop, module, tier):
    global MODULE
    MODULE = module
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ev = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    from . import common, instr, loop

    instr.install()
    loop.install()
    m = importlib.import_module("checks." + module)
    hs = [h for h in common.REG if h.prop == prop]
    only = os.environ.get("SX_ONLY")
    if only:
        hs = [h for h in hs if h.name in only.split(",")]
    if not hs:
        print("no harness for", prop)
        return 2
    limit = float(os.environ.get("SX_LIMIT", "450" if tier == "quick" else "3000"))
    jobs = []
    for h in hs:
        ps = h.fallback if os.environ.get("SX_FALL") and h.fallback else h.thorough if (tier == "thorough" and h.thorough is not None) else h.params
        for p in ps:
            for f in expand(h, p):
                jobs.append((h, p, f))
    workers = int(os.environ.get("SX_WORKERS", "8"))
    results, reduced = run_bounded(jobs, workers, limit, limit / 2, tier)
    ok = [r for r in results if r["status"] == "ok"]
    viol = [r for r in results if r["status"] == "violation"]
    bad = [r for r in results if r["status"] in ("inconclusive", "error")]
    code = 0
    notes = []
    if os.environ.get("SX_VERBOSE"):
        agg = {}
        for r in results:
            a = agg.setdefault((r["harness"], json.dumps(r["params"])), [0, 0, 0, 0.0, 0.0, r["status"]])
            a[0] += 1
            a[1] += r.get("paths", 0)
            a[2] += r.get("queries", 0)
            a[3] = max(a[3], r.get("wall", 0))
            a[4] += r.get("wall", 0)
        for k, a in agg.items():
            print("  %-28s %-40s jobs=%d paths=%d queries=%d max=%.1fs sum=%.1fs %s" % (k[0], k[1][:40], *a))
    # --- counterexamples: replay on the plain code -------------------------
    nviol = 0
    for r in viol:
        path, out, err = r["replayed"]
        print("counterexample in %s %s: %s" % (r["harness"], r["params"], out[0][1]))
        print("  values: %s" % json.dumps(r["values"])[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        nviol += 1
        code = 1
    for r in results:
        for msg, vals, why in r.get("unconfirmed", ()):
            notes.append(
                "counterexample of %s %s does not reproduce on the plain code (%s): %s values=%s"
                % (r["harness"], r["params"], why, msg, json.dumps(vals)[:800])
            )
            code = code or 2
    for d in reduced:
        notes.append("%(harness)s did not end in time, decided within the bounds %(params)s" % d)
    if code != 1:
        for r in bad:
            notes.append("%s %s %s: %s" % (r["harness"], r["params"], r["status"], r["msg"]))
            code = 2
    # --- vacuity ------------------------------------------------------------
    reached = {}
    for r in ok:
        d = reached.setdefault(r["harness"], {})
        for k, n in r["reached"].items():
            d[k] = d.get(k, 0) + n
    if code == 0:
        for h in hs:
            for lab in h.labels:
                if not reached.get(h.name, {}).get(lab):
                    notes.append("vacuous: %s never reaches '%s'" % (h.name, lab))
                    code = 2
            if not any(r["harness"] == h.name and r["paths"] for r in ok):
                notes.append("vacuous: %s has no feasible path" % h.name)
                code = 2
    # --- sample models of passed paths must pass on the plain code, too ------
    validated = 0
    samples = []
    if code == 0:
        items = []
        for r in ok:
            for v in r["samples"]:
                items.append((r["harness"], r["params"], v))
        cap = 400 if tier == "quick" else 2000
        if len(items) > cap:
            stepw = len(items) / cap
            items = [items[int(i * stepw)] for i in range(cap)]
        path, out, err = replay(items, module, timeout=240) if items else (None, [], None)
        if path:
            try:
                os.remove(path)
            except OSError:
                pass
        if err:
            notes.append("validation of sample models failed: " + err)
            code = 2
        else:
            for it, (rc, msg) in zip(items, out):
                if rc == 0:
                    validated += 1
                else:
                    notes.append("encoding and plain code disagree on %s: %s (rc %s)" % (it, msg, rc))
                    code = 2
            samples = [{"harness": n, "params": p, "values": v} for n, p, v in items[:3]]
    for n in notes[:12]:
        print("NOTE:", n)
    known = load_known(prop)
    if code == 0:
        for k in known:
            print("KNOWN-FINDING: " + k)
    tot = lambda k: sum(r.get(k, 0) for r in results)
    funcs = sorted({f for r in results for f in r.get("funcs", [])})
    cov = {
        "states": tot("paths") + tot("branches"),
        "transitions": tot("branches") + tot("forced"),
        "traces_validated_against_impl": validated,
        "samples": samples or [{"harness": r["harness"], "params": r["params"], "values": r.get("values")} for r in results[:1]],
        "jobs": len(results),
        "paths_exhausted": tot("paths"),
        "paths_infeasible": tot("infeasible"),
        "symbolic_branches": tot("branches"),
        "branches_decided_by_solver_as_forced": tot("forced"),
        "assertions": tot("asserts"),
        "obligations_discharged": tot("obligations"),
        "solver_queries": tot("queries"),
        "solver_seconds": round(tot("solver_s"), 3),
        "functions_encoded": funcs,
        "reachability": reached,
        "bounds": [
            {"harness": h.name, "params": next((d["params"] for d in reduced if d["harness"] == h.name), h.thorough if tier == "thorough" and h.thorough is not None else h.params), "doc": (h.fn.__doc__ or "").strip()}
            for h in hs
        ],
        "exhaustive_within_bounds": code == 0,
        "notes": notes[:20],
    }
    with open(ev, "w") as f:
        json.dump(
            {
                "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
                "assumptions": list(getattr(m, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
                "wall_s": round(time.time() - t0, 2), "violations": nviol,
            },
            f, indent=1,
        )
    print(
        "%s %s: %s  paths=%d branches=%d obligations=%d queries=%d solver=%.1fs validated=%d wall=%.1fs"
        % (prop, tier, {0: "holds within the bounds", 1: "VIOLATED", 2: "no answer"}[code], tot("paths"),
           tot("branches"), tot("obligations"), tot("queries"), tot("solver_s"), validated, time.time() - t0)
    )
    return code


COMMON_ASSUMPTIONS = [
    "CPython and asyncio (its BaseEventLoop, Task, Event, Queue) execute as specified; the selector is replaced by one without I/O and with virtual time",
    "the design under test and its pins are stand-ins with the interface picker generates (event, Step, StepRis, value, xdata, W, IsOutIO, As*Write)",
    "nothing is claimed beyond the bounds listed per harness",
]

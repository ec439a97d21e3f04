#!/opt/venv/bin/python
"""Run the solver-based check of one property:  check.py <ID> [--tier quick|thorough] [--job NAME]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
os.environ.setdefault("PYTHONHASHSEED", "0")


def unbuildable(e):
    """the design's own code refuses to be built in a configuration the property speaks of: the place, or None"""
    if not isinstance(e, Exception):
        return None
    if isinstance(e, AttributeError) and type(getattr(e, "obj", None)).__module__.startswith(("checks", "fv")):
        return None         # something this harness does not offer
    own = os.path.join(os.path.realpath(REPO), "litevideo") + os.sep
    last = None
    for f in traceback.extract_tb(e.__traceback__):
        n = os.path.realpath(f.filename)
        if n.startswith(own):
            last = f
        elif n.startswith(HERE + os.sep) and last is not None:
            return None     # raised in this harness, called back by the design
    return last and "%s line %d: %s: %s" % (os.path.realpath(last.filename)[len(own):], last.lineno, type(e).__name__, e)


# jobs that extend a check to long histories (Bench.jump); the claim of the check's other jobs does not depend on them, and
# where one gives no answer in time the run says so
LONG = re.compile(r"any length|any number|many|after (long|many|a line|\d+)|again and again|^long ")


def run_job(q, idx, func, kw):
    import io
    import contextlib
    t = time.time()
    try:
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            r = func(**kw)
        q.put((idx, r, None, time.time() - t))
    except BaseException as e:
        if type(e).__name__ == "Violated":
            q.put((idx, e.result, None, time.time() - t))
            return
        at = unbuildable(e)
        if at:
            from fv.bench import Result
            r = Result()
            r.status, r.detail = "violated", "the design cannot be built (%s)" % at
            r.replay = {"violated": [{"check": r.detail, "cycle": 0}], "trace": traceback.format_exc().splitlines()}
            q.put((idx, r, None, time.time() - t))
            return
        q.put((idx, None, traceback.format_exc(), time.time() - t))


def run_jobs(jobs, workers, default_timeout):
    """jobs: list of dict(name, func, kw, timeout).  Returns list of (result|None, error|None, wall)."""
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    out = [None] * len(jobs)
    todo = list(range(len(jobs)))
    running = {}
    stop = False
    while (todo and not stop) or running:
        while todo and not stop and len(running) < workers:
            i = todo.pop(0)
            j = jobs[i]
            p = ctx.Process(target=run_job, args=(q, i, j["func"], j.get("kw", {})), daemon=False)
            p.start()
            running[i] = (p, time.time(), j.get("timeout", default_timeout))
        try:
            i, r, err, wall = q.get(timeout=0.2)
            out[i] = (r, err, wall)
            p = running.pop(i, None)
            if p:
                p[0].join(5)
            if r is not None and r.status == "violated":
                # one confirmed violation decides the check
                for k, (p, _, _) in running.items():
                    p.kill()
                running.clear()
                stop = True
            continue
        except Exception as e:
            if type(e).__name__ != "Empty":
                raise
        now = time.time()
        for i, (p, t0, lim) in list(running.items()):
            if now - t0 > lim:
                p.kill()
                p.join()
                out[i] = (None, "timeout after %d s" % lim, now - t0)
                running.pop(i)
            elif not p.is_alive() and q.empty():
                time.sleep(0.3)
                if q.empty() and not p.is_alive():
                    out[i] = (None, "worker died (exit %s)" % p.exitcode, now - t0)
                    running.pop(i)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--job", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    a.prop = a.prop.upper()
    os.environ["VERIF_TIER"] = a.tier
    t0 = time.time()
    import fv
    try:
        mod = importlib.import_module("checks." + a.prop.lower())
        jobs = mod.jobs(a.tier)
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s could not be set up" % a.prop)
        return 2
    for j in jobs:
        j.setdefault("name", j["func"].__name__)
    for j in jobs:
        if LONG.search(j["name"]):
            j["optional"] = True
            j["timeout"] = 300
    if a.job:
        jobs = [j for j in jobs if re.search(a.job, j["name"])]
    workers = int(os.environ.get("VERIF_WORKERS", "8"))
    limit = 780 if a.tier == "quick" else 6 * 3600
    outs = run_jobs(jobs, workers, limit)

    from fv.bench import Result, dump_replay
    total = Result()
    lines = []
    errors = []
    notes = []
    viol = None
    for j, o in zip(jobs, outs):
        if o is None:
            notes.append("%s: not run (violation found first)" % j["name"])
            continue
        r, err, wall = o
        if r is None:
            if j.get("optional") and (err.startswith("timeout") or "fv.sym.EncodeError" in err):
                notes.append("%s: bound not reached (%s); not part of the claim" % (j["name"], err.strip().splitlines()[-1]))
            else:
                errors.append("%s: %s" % (j["name"], err if a.v else err.strip()[-600:]))
            lines.append("  %-44s %-9s %6.1fs" % (j["name"], "error", wall))
            continue
        lines.append("  %-44s %-9s %6.1fs  frames=%d checks=%d queries=%d solver=%.1fs validated=%d covers=%d %s" % (
            j["name"], r.status, wall, r.frames, r.checks, r.queries, r.solver_s, r.validated, r.covers, r.detail))
        if r.status == "violated" and viol is None:
            viol = (j["name"], r)
        elif r.status == "unknown" and j.get("optional"):
            notes.append("%s: solver gave no answer; not part of the claim" % j["name"])
        elif r.status not in ("held", "violated"):
            errors.append("%s: %s %s" % (j["name"], r.status, r.detail))
        total.merge(r)
    print("property %s tier %s" % (a.prop, a.tier))
    print("\n".join(lines))
    for n in notes:
        print("note:", n)
    for e in errors:
        print("error:", e)
    # known findings
    kf = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r"known: property=(\S+) (.*)", l)
            if m and m.group(1) == a.prop:
                print("KNOWN-FINDING: property=%s %s" % (a.prop, m.group(2)))
    wall = time.time() - t0
    ev = {
        "property": a.prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": total.frames,
            "transitions": total.frames,
            "traces_validated_against_impl": total.validated,
            "samples": [l.strip() for l in lines][:60],
            "explanation": (getattr(mod, "__doc__", "") or "").strip(),
            "states_meaning": "symbolic state frames: each stands for every concrete state reachable under the "
                              "symbolic inputs within the bound",
            "functions_encoded": getattr(mod, "FUNCTIONS", []),
            "bounds": getattr(mod, "BOUNDS", ""),
            "obligations": total.checks,
            "obligations_discharged_by_simplification": total.trivial,
            "queries": total.queries,
            "symbolic_variables": total.vars,
            "reachability_witnesses": total.covers,
            "solver_s": round(total.solver_s, 2),
            "notes": notes,
            "errors": errors,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": 1 if viol else 0,
    }
    ev["coverage"]["transitions"] = total.frames
    if not a.job:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if viol:
        name, r = viol
        path = os.path.join(HERE, "evidence", "replay_%s.json" % a.prop)
        dump_replay(path, {"property": a.prop, "job": name, "detail": r.detail, **(r.replay or {})})
        print("violated: %s: %s" % (name, r.detail))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    if errors:
        print("ERROR property=%s (%d)" % (a.prop, len(errors)))
        return 2
    print("OK property=%s wall=%.1fs" % (a.prop, wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())

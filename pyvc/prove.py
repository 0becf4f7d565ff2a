"""Deductive driver: loads the contracts of a property, generates the obligations from /repo's current
source (instrumented import), discharges them and writes a JSON report."""
from __future__ import annotations
import importlib, json, os, sys, time, traceback, warnings


class Claim:
    """outcome of one proof obligation on one path"""
    def __init__(self, label, status, detail=None, backend=None):
        self.label, self.status, self.detail, self.backend = label, status, detail, backend


OBLIGATIONS = []
TIER = "quick"
ASSUMPTIONS = []     # (property, text)


def obligation(prop, name, funcs, assumes=(), expect=None, induct=None):
    """register an obligation generator.  The decorated thunk is executed on every path; it returns Claims.
    `expect`: exception classes that the contract allows on a path."""
    def deco(fn):
        OBLIGATIONS.append({"prop": prop, "name": name, "funcs": list(funcs), "fn": fn, "assumes": list(assumes), "expect": expect, "induct": induct})
        return fn
    return deco


def op_eq(label, got, want):
    from .blocks import poly_equal
    from .numeric import separate
    if poly_equal(got, want):
        return Claim(label, "proved", backend="normaliser+z3")
    from .blocks import path_norm
    got, want = path_norm(got), path_norm(want)
    m = separate(got, want)
    if m is not None:
        return Claim(label, "refuted", {"got": repr(got), "want": repr(want), "model": m}, "numeric model")
    return Claim(label, "unknown", {"got": repr(got), "want": repr(want)})


def set_eq(label, got, want):
    from .blocks import sup_norm
    got, want = sup_norm(got), sup_norm(want)
    if got == want:
        return Claim(label, "proved", backend="normaliser")
    return Claim(label, "unknown", {"got": sorted(map(repr, got)), "want": sorted(map(repr, want))})


def holds(label, cond, detail=None):
    """a concrete Boolean established on this path"""
    return Claim(label, "proved" if cond is True else "refuted" if cond is False else "unknown", detail, "evaluation on the path")


def vanish(label, exprs):
    """all sympy expressions are identically zero for all real values of their symbols (z3)"""
    from . import solve
    r, m = solve.zero(exprs)
    return Claim(label, {True: "proved", False: "unknown", None: "unknown"}[r], None if r else str(m)[:500], "z3") if r is not False else _numeric_refute(label, exprs, m)


def _numeric_refute(label, exprs, m):
    import sympy, random
    rnd = random.Random(1)
    for _ in range(20):
        env = {}
        for e in exprs:
            for s in sympy.sympify(e).free_symbols:
                env.setdefault(s, round(rnd.uniform(-3, 3), 3))
        try:
            vals = [abs(complex(sympy.sympify(e).subs(env).evalf())) for e in exprs]
        except Exception:
            return Claim(label, "unknown", str(m)[:500], "z3")
        if max(vals) > 1e-9:
            return Claim(label, "refuted", {"at": {str(k): v for k, v in env.items()}, "residual": max(vals)}, "z3")
    return Claim(label, "unknown", "z3 model does not replay numerically: " + str(m)[:300], "z3")


def z3_valid(label, claim, assumptions=(), detail=None):
    from . import solve
    r, m = solve.valid(claim, assumptions)
    return Claim(label, {True: "proved", False: "refuted", None: "unknown"}[r], None if r else (detail(m) if detail and r is False else str(m)[:800]), "z3")


def repo_frame(e):
    """innermost frame of an exception inside /repo, or None"""
    repo = os.environ.get("VP_REPO", "/repo")
    last = None
    for fr in traceback.extract_tb(e.__traceback__):
        last = fr
    return last if last and last.filename.startswith(repo) else None


def run_one(ob):
    from .runtime import VC, Explorer, Unsupported, PathDead
    t0 = time.time()
    res = {"name": ob["name"], "funcs": ob["funcs"], "paths": 0, "claims": 0, "status": "proved", "detail": None, "backends": {}}
    VC.active = True
    VC.induct = ob["induct"]
    try:
        ex = Explorer()
        outs = ex.run(ob["fn"])
    except Unsupported as e:
        res.update(status="undecided", detail=f"outside the verifier's reach: {e}")
        outs = []
    except Exception as e:
        res.update(status="undecided", detail=f"engine: {type(e).__name__}: {e}")
        outs = []
    finally:
        VC.active = False
        VC.induct = None
    for st, v, pc in outs:
        res["paths"] += 1
        if st == "exc":
            if ob["expect"] and isinstance(v, ob["expect"]):
                continue
            fr = repo_frame(v)
            if res["status"] == "proved":
                res.update(status="undecided", detail=f"exception on a path: {type(v).__name__}: {v} at {fr}")
            continue
        for c in (v or []):
            res["claims"] += 1
            if c.backend:
                res["backends"][c.backend] = res["backends"].get(c.backend, 0) + 1
            if c.status == "refuted":
                res.update(status="refuted", detail={"claim": c.label, "why": c.detail})
            elif c.status == "unknown" and res["status"] == "proved":
                res.update(status="undecided", detail={"claim": c.label, "why": c.detail})
    if res["status"] == "proved" and res["claims"] == 0:
        res.update(status="undecided", detail="no claim was generated (vacuous)")
    res["seconds"] = round(time.time() - t0, 3)
    return res


_TODO = []


def _work(i):
    from . import solve
    for k in solve.STATS:
        solve.STATS[k] = 0
    r = run_one(_TODO[i])
    return i, r, dict(solve.STATS)


def run_all(todo, solve, budget):
    """discharge the obligations in parallel worker processes (forked after the instrumented import)"""
    import multiprocessing as mp
    global _TODO
    _TODO = todo
    stats = dict.fromkeys(solve.STATS, 0)
    n = min(int(os.environ.get("VP_JOBS", "6")), max(1, len(todo)))
    res = [None] * len(todo)
    if n == 1:
        for i in range(len(todo)):
            _, res[i], st = _work(i)
            for k, v in st.items():
                stats[k] += v
        return res, stats
    t0 = time.time()
    pool = mp.get_context("fork").Pool(n)
    try:
        hs = [pool.apply_async(_work, (i,)) for i in range(len(todo))]
        for i, h in enumerate(hs):
            try:
                _, res[i], st = h.get(timeout=max(1.0, budget - (time.time() - t0)))
                for k, v in st.items():
                    stats[k] += v
            except mp.TimeoutError:
                pass
            except Exception as e:
                res[i] = {"status": "undecided", "detail": f"worker: {type(e).__name__}: {e}"[:500]}
    finally:
        pool.terminate()
    for i, ob in enumerate(todo):
        r = res[i] or {"status": "undecided", "detail": "time budget"}
        res[i] = {"name": ob["name"], "funcs": ob["funcs"], "paths": 0, "claims": 0, "backends": {}, "seconds": 0, **r}
    return res, stats


def main(prop, tier, seed, out):
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    t0 = time.time()
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    sys.setrecursionlimit(5000)
    report = {"prop": prop, "obligations": [], "error": None, "assumptions": []}
    try:
        from . import instrument
        instrument.install()
        import qadence  # noqa
        report["not_instrumented"] = list(instrument.NOT_INSTRUMENTED)
        from . import solve
        global TIER
        TIER = tier
        mod = importlib.import_module(f"contracts.{prop.lower()}")
        report["assumptions"] = list(getattr(mod, "ASSUMES", []))
        report["trusted"] = list(getattr(mod, "TRUSTED", []))
        only, todo = os.environ.get("VP_ONLY"), []
        for ob in [o for o in OBLIGATIONS if o["prop"] == prop and (not only or only in o["name"])]:
            todo.append(ob)
        report["obligations"], report["solver"] = run_all(todo, solve, 420 if tier == "quick" else 2400)
    except BaseException as e:  # the bounded stand-in still runs
        report["error"] = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-2000:]}"
    report["seconds"] = round(time.time() - t0, 2)
    with open(out, "w") as f:
        json.dump(report, f, indent=1, default=str)


if __name__ == "__main__":
    sys.modules["pyvc.prove"] = sys.modules["__main__"]
    main(sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4])

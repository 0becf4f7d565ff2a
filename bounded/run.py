"""Bounded stand-in and counterexample search: the contracts of a property evaluated at run time on the real,
uninstrumented code of /repo over enumerated and seeded inputs.  Never counted as proved."""
from __future__ import annotations
import importlib, json, os, sys, time, traceback, warnings, zlib


class Skip(Exception):
    pass


class Violation(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed, only=None, budget=None):
        self.prop, self.tier, self.seed, self.only = prop, tier, seed, only
        self.cases = self.evals = self.skipped = 0
        self.fails, self.samples, self.groups = [], [], {}
        self.t0 = time.time()
        self.budget = budget or (75 if tier == "quick" else 600)
        self.truncated = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, label):
        import random
        return random.Random(zlib.crc32(f"{self.seed}/{label}".encode()))

    def over(self):
        return time.time() - self.t0 > self.budget

    def case(self, label, fn, *a, **k):
        """run one contract evaluation; an exception or a Violation is a failing case"""
        if self.only is not None and label != self.only:
            return
        g = label.split("/")[0]
        if self.only is None and self.over():
            if g not in self.truncated:
                self.truncated.append(g)
            return
        self.cases += 1
        self.groups[g] = self.groups.get(g, 0) + 1
        if len([s for s in self.samples if s.split("/")[0] == g]) < 1:
            self.samples.append(label)
        try:
            fn(*a, **k)
        except Skip:
            self.skipped += 1
        except Violation as e:
            self.fails.append({"case": label, "why": str(e)[:1500]})
        except Exception as e:
            tb = traceback.format_exc()
            self.fails.append({"case": label, "why": f"unexpected {type(e).__name__}: {e}"[:800], "trace": tb[-1500:]})

    def ok(self, cond, msg="contract does not hold"):
        self.evals += 1
        if not cond:
            raise Violation(msg)

    def close(self, a, b, msg, tol=1e-6):
        import numpy as np
        self.evals += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            raise Violation(f"{msg}: shapes {a.shape} and {b.shape}")
        d = float(np.max(np.abs(a - b))) if a.size else 0.0
        if not d <= tol * max(1.0, float(np.max(np.abs(b))) if b.size else 1.0):
            raise Violation(f"{msg}: max difference {d:.3g}")


def main(prop, tier, seed, out, only=None):
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    rep = {"prop": prop, "error": None}
    repo = os.environ.get("VP_REPO", "/repo")
    sys.path.insert(0, repo)
    t0 = time.time()
    try:
        import torch
        torch.manual_seed(seed)
        import qadence
        assert qadence.__file__.startswith(repo), qadence.__file__
        mod = importlib.import_module(f"bounded.{prop.lower()}")
        ctx = Ctx(prop, tier, seed, only)
        ctx.t0 = time.time()
        mod.run(ctx)
        rep.update(cases=ctx.cases, evals=ctx.evals, skipped=ctx.skipped, fails=ctx.fails, samples=ctx.samples[:40], groups=ctx.groups,
                   truncated=ctx.truncated, bound=getattr(mod, "BOUND", ""))
    except BaseException as e:
        rep["error"] = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-2500:]}"
    rep["seconds"] = round(time.time() - t0, 2)
    with open(out, "w") as f:
        json.dump(rep, f, indent=1, default=str)
    return rep


if __name__ == "__main__":
    sys.modules["bounded.run"] = sys.modules["__main__"]
    a = sys.argv
    only = a[5] if len(a) > 5 else None
    r = main(a[1], a[2], int(a[3]), a[4], only)
    if only is not None:
        print(json.dumps(r, indent=1, default=str))
        sys.exit(1 if r["error"] or r["fails"] else 0)

#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough] [--replay FILE]

Decides one property on /repo's current working tree:
 1. deductive part (pyvc.prove): obligations generated from the current source, discharged by z3 / the normaliser;
 2. run-time part (bounded.run): the same contracts evaluated on the real code over a stated finite set of inputs:
    counterexample search for failed obligations and labelled stand-in for functions outside the verifier's reach.
Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: the check itself could not run."""
import argparse, fnmatch, json, os, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             MPLBACKEND="Agg", JAX_PLATFORMS="cpu", CUDA_VISIBLE_DEVICES="", MLFLOW_DISABLE_TELEMETRY="true", DO_NOT_TRACK="true",
             GIT_PYTHON_REFRESH="quiet", LC_ALL="C.UTF-8", VP_REPO=os.environ.get("VP_REPO", "/repo"))
    e["PYTHONPATH"] = HERE
    e.setdefault("HOME", "/root")
    return e


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except Exception as ex:
        return {"error": f"no report: {ex}"}


def findings(prop):
    p = os.path.join(HERE, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("known", []) if f["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop, tier, seed = a.prop, a.tier, int(os.environ.get("VERIF_SEED", "1"))
    if a.replay:
        r = json.load(open(a.replay))
        if not r.get("case"):
            print(json.dumps(r, indent=1))
            return 1
        return subprocess.run([PY, "-W", "ignore", "-m", "bounded.run", prop, r.get("tier", "quick"), str(r.get("seed", 1)), "/dev/null", r["case"]],
                              cwd=HERE, env=env()).returncode
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f"vp_{prop}_")
    limit = 820 if tier == "quick" else 3600
    outs = {k: os.path.join(tmp, f"{k}.json") for k in ("prove", "bounded")}
    procs = {
        "prove": subprocess.Popen([PY, "-W", "ignore", "-m", "pyvc.prove", prop, tier, str(seed), outs["prove"]], cwd=HERE, env=env(),
                                  stdout=open(os.path.join(tmp, "prove.log"), "w"), stderr=subprocess.STDOUT),
        "bounded": subprocess.Popen([PY, "-W", "ignore", "-m", "bounded.run", prop, tier, str(seed), outs["bounded"]], cwd=HERE, env=env(),
                                    stdout=open(os.path.join(tmp, "bounded.log"), "w"), stderr=subprocess.STDOUT)}
    for k, p in procs.items():
        try:
            p.wait(timeout=max(1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    P, B = load(outs["prove"]), load(outs["bounded"])
    obs = P.get("obligations", [])
    known = findings(prop)
    used = []

    def is_known(kind, name):
        for f in known:
            if f.get("kind", "case") == kind and any(fnmatch.fnmatchcase(name, pat) for pat in f["match"]):
                if f not in used:
                    used.append(f)
                return True
        return False

    refuted = [o for o in obs if o["status"] == "refuted" and not is_known("obligation", o["name"])]
    proved = [o for o in obs if o["status"] == "proved"]
    undecided = [o for o in obs if o["status"] == "undecided"]
    fails = [f for f in B.get("fails", []) if not is_known("case", f["case"])]
    violations = []
    rdir = os.path.join(HERE, "replay")
    os.makedirs(rdir, exist_ok=True)
    if fails:
        path = os.path.join(rdir, f"{prop}.json")
        f = fails[0]
        json.dump({"property": prop, "tier": tier, "seed": seed, "case": f["case"], "why": f["why"], "trace": f.get("trace"),
                   "all_failing_cases": [x["case"] for x in fails][:200], "failed_obligations": refuted,
                   "command": f"./check.py {prop} --replay {path}"}, open(path, "w"), indent=1, default=str)
        violations.append(f"VIOLATION property={prop} replay={path}")
        print(f"failing input: {f['case']}: {f['why'][:500]}")
        for o in refuted[:5]:
            print(f"failed obligation: {o['name']}")
    elif refuted:
        path = os.path.join(rdir, f"{prop}.json")
        json.dump({"property": prop, "tier": tier, "seed": seed, "case": None, "failed_obligations": refuted}, open(path, "w"), indent=1, default=str)
        for o in refuted[:5]:
            print(f"failed obligation: {o['name']}: {json.dumps(o['detail'], default=str)[:600]}")
        violations.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
    funcs = sorted({f for o in proved for f in o["funcs"]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": sum(max(1, o["claims"]) for o in obs), "discharged": sum(o["claims"] for o in proved),
            "checker_cmd": f"./check.py {prop} --tier {tier}",
            "trusted_base": ["pyvc (instrumented import of /repo, path enumeration, generic-element rule for loops and comprehensions)",
                             "z3 (bundled python bindings)", "CPython, sympy, torch"] + P.get("trusted", []),
            "functions_under_contract": funcs,
            "obligation_groups": [{k: o[k] for k in ("name", "status", "paths", "claims", "seconds", "backends")} | ({"reason": str(o["detail"])[:300]} if o["status"] != "proved" else {}) for o in obs],
            "back_ends": {k: sum(o["backends"].get(k, 0) for o in proved) for k in sorted({k for o in proved for k in o["backends"]})},
            "solver": P.get("solver"), "undecided": [o["name"] for o in undecided], "deductive_error": P.get("error"),
            "bounded_stand_in": {"label": "bounded, not counted as proved", "bound": B.get("bound"), "cases": B.get("cases"), "evaluations": B.get("evals"),
                                 "groups": B.get("groups"), "truncated_groups": B.get("truncated"), "samples": B.get("samples")},
        },
        "assumptions": P.get("assumptions", []) + ["machine floating point treated as real arithmetic in the proofs",
                                                   "third-party libraries (sympy, torch, networkx, pyqtorch) behave as documented"],
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1, default=str)
    print(f"{prop}: {len(proved)}/{len(obs)} obligation groups proved ({ev['coverage']['discharged']} obligations), {len(undecided)} undecided, "
          f"{len(refuted)} refuted; run-time: {B.get('cases')} cases, {len(fails)} failing; {ev['wall_s']} s")
    for o in undecided:
        print(f"  undecided: {o['name']}: {str(o['detail'])[:160]}")
    for f in used:
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    log = lambda k: open(os.path.join(tmp, f"{k}.log")).read()[-1500:]
    code = 0
    if violations:
        print("\n".join(violations))
        code = 1
    elif B.get("error") and (P.get("error") or not proved):
        print("check could not run:", B.get("error"), P.get("error"), log("bounded"), log("prove"))
        code = 2
    elif B.get("error"):
        print("run-time part did not run:", B["error"][-1500:], log("bounded"))
        code = 2
    elif P.get("error"):
        print("deductive part did not run:", P["error"][-1500:], log("prove"))
        # the bounded stand-in ran; the obligations are undecided
        code = 0 if B.get("cases") else 2
    elif not obs:
        print("no obligations generated")
        code = 2
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    return code


if __name__ == "__main__":
    sys.exit(main())

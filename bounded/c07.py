"""C07 at run time: what embedding delivers to every gate, against an independent evaluator of the expressions."""
from bounded.gen import *
from bounded.run import Skip
import itertools, math
import numpy as np
from oracle.dense import num
from qadence.blocks.embedding import embedding
from qadence.blocks.utils import uuid_to_block, expressions
from qadence.backend import BackendConfiguration
from qadence.parameters import evaluate, stringify, TimeParameter, ParamMap
from qadence.types import Engine

BOUND = ("every pair of constants from a list of 40 (negative, large, tiny, complex, symbolic), a list of expressions over 4 parameters with batches of 1, 2 and 5, random trees of "
         "depth <= 3 on <= 4 qubits, torch and jax engines, inputs given flat and split in circuit/observables")
TOL = 2e-6


def P(n, v, t=True):
    return Parameter(n, trainable=t, value=v)


def gates(b):
    """every (gate, name, expression) of a tree, found without the functions under check"""
    n = type(b).__name__
    out = []
    if n in ("ChainBlock", "KronBlock", "AddBlock", "PutBlock"):
        for x in b.blocks:
            out += gates(x)
        return out
    if n == "ScaleBlock":
        return [(b, b.parameters)] + gates(b.block)
    if n == "HamEvo" and isinstance(b.generator, AbstractBlock):
        out += gates(b.generator)
    if hasattr(b, "parameters"):
        out.append((b, b.parameters))
    return out


def ev(e, values, n):
    """value of expression e for every element of a batch of n"""
    if isinstance(e, sympy.Array):
        return np.array(e.tolist(), dtype=complex)
    out = []
    for i in range(n):
        env = {k: (v[i] if len(v) > 1 else v[0]) for k, v in values.items()}
        out.append(complex(num(e, env)))
    return np.array(out)


class Conf(BackendConfiguration):
    pass


def deliver(ctx, block, inputs, stored=None, batch=1, engine=Engine.TORCH, split=False):
    """embed and compare every gate parameter on both levels"""
    tens = {k: torch.tensor(v, dtype=torch.double) for k, v in inputs.items()}
    if engine == Engine.JAX:
        import jax.numpy as jnp
        tens = {k: jnp.array(v) for k, v in inputs.items()}
    arg = {"circuit": {k: v for i, (k, v) in enumerate(tens.items()) if i % 2 == 0}, "observables": {k: v for i, (k, v) in enumerate(tens.items()) if i % 2}} if split else dict(tens)
    params_e, fn_e = embedding(block, to_gate_params=False, engine=engine)
    params_g, fn_g = embedding(block, to_gate_params=True, engine=engine)
    gs = gates(block)
    syms = {s.name: s for _, pm in gs for _, e in pm.items() for s in getattr(e, "free_symbols", ())}
    want = {n: (np.asarray(inputs[n], dtype=float) if n in inputs else None) for n in syms}
    for n, s in syms.items():
        if want[n] is None:
            v = 1.0 if getattr(s, "is_time", False) else (stored or {}).get(n, s.value)
            want[n] = np.array([float(v)])
    train = {n for n, s in syms.items() if s.trainable}
    for p in (params_e, params_g):
        ctx.ok(train <= set(p), f"a trainable parameter is missing from the stored values {sorted(p)}")
        ctx.ok(not (set(p) & (set(syms) - train)), f"a feature parameter is stored as trainable: {sorted(p)}")
        for n in train:
            ctx.close(np.asarray(p[n].detach() if engine == Engine.TORCH else p[n], dtype=float).reshape(-1), np.array([float(syms[n].value)]), f"initial value of {n}", TOL)
            if engine == Engine.TORCH:
                ctx.ok(p[n].requires_grad, f"stored trainable value {n} does not require gradients")
        if stored:
            for k, v in stored.items():
                p[k] = torch.tensor([v], dtype=torch.double, requires_grad=True) if engine == Engine.TORCH else jnp.array([v])
    before = {k: np.array(v.detach() if engine == Engine.TORCH else v) for k, v in params_e.items()}
    keys = set(params_e), {k for k in tens}
    oe, og = fn_e(params_e, arg), fn_g(params_g, arg)
    ctx.ok((set(params_e), set(tens)) == keys, "embedding added or removed stored values")
    for k, v in before.items():
        now = np.array(params_e[k].detach() if engine == Engine.TORCH else params_e[k])
        ctx.ok(now.shape == v.shape and np.array_equal(now, v), f"stored value {k} changed by embedding")
    for k, v in inputs.items():
        ctx.ok(np.array_equal(np.asarray(tens[k]), np.asarray(v, dtype=float)) or engine == Engine.JAX, f"input {k} changed by embedding")
    ctx.ok(set(og) == {u for _, pm in gs for u in pm.uuids()}, "gate-level embedding has not exactly one entry per gate parameter")
    conf_e, conf_g = BackendConfiguration(), BackendConfiguration()
    conf_e._use_gate_params, conf_g._use_gate_params = False, True
    A = lambda t: np.asarray(t.detach() if hasattr(t, "detach") else t).astype(complex)
    for b, pm in gs:
        exprs = list(pm.expressions())
        try:
            names_e, names_g = conf_e.get_param_name(b), conf_g.get_param_name(b)
        except TypeError:
            names_e, names_g = tuple(stringify(e) for e in exprs), tuple(pm.uuids())
        ctx.ok(len(names_e) == len(names_g) == len(exprs), "one name per gate parameter")
        for e, ne, ng in zip(exprs, names_e, names_g):
            w = ev(e, want, batch)
            for lvl, out, nm in (("expression", oe, ne), ("gate", og, ng)):
                ctx.ok(nm in out, f"{lvl}-level embedding has no entry {nm[:60]!r} for {type(b).__name__} with {str(e)[:60]}")
                v = A(out[nm])
                if not isinstance(e, sympy.Array):
                    v = v.reshape(-1)
                    if len(v) == 1 and len(w) > 1:
                        v = np.repeat(v, len(w))
                    ww = w if len(v) == len(w) else (w[:1] if np.allclose(w, w[0]) else w)
                    ctx.close(v, ww, f"{lvl}-level value of {str(e)[:80]} for {type(b).__name__} with {({k: x.tolist() for k, x in want.items()})}", TOL)
                else:
                    ctx.close(v.reshape(w.shape), w, f"{lvl}-level constant matrix", TOL)
    return oe, og


CONST = [0, 1, -1, 2, -2, 3, 7, -7, 0.0, 0.5, -0.5, 1.5, -1.0, -2.0, 2.0, 1e-3, 1e-9, 1e6, 1e20, math.pi, -math.pi, math.pi / 2, 2 ** 31, 2 ** 61 - 1, 2 ** 61, 2 ** 61 - 2, 314159,
         0.1, 0.2, 0.3, 15, 1.5e1, 1e15, 1e16, 123456789.125, sympy.pi, sympy.Rational(1, 3), sympy.sqrt(2), sympy.pi / 4, -sympy.pi]


def consts(ctx, c1, c2):
    b = chain(RX(0, c1), RY(1, c2))
    p, fn = embedding(b)
    oe = fn(p, {})
    pg, fg = embedding(b, to_gate_params=True)
    og = fg(pg, {})
    for blk, c in zip(b.blocks, (c1, c2)):
        (u,), (e,) = tuple(blk.parameters.uuids()), tuple(blk.parameters.expressions())
        for o, k in ((oe, stringify(e)), (og, u)):
            v, w = float(o[k].reshape(-1)[0]), float(c)
            ctx.ok(abs(v - w) <= 2e-7 * max(1, abs(w)), f"constant {c} arrives as {v} (together with {c1}, {c2})")


def matrices(ctx, n, where):
    rs = np.random.default_rng(3)
    m = rs.normal(size=(2 ** n, 2 ** n)) + 1j * rs.normal(size=(2 ** n, 2 ** n))
    m = torch.tensor(m + m.conj().T)
    k = m.clone()
    i = {"middle": 2 ** (n - 1), "corner": 0, "end": 2 ** n - 1}[where]
    k[i, i] += 1.0
    b = chain(HamEvo(m, "t", tuple(range(n))), HamEvo(k, "t", tuple(range(n))))
    deliver(ctx, b, {"t": [0.4]})


def missing(ctx, block, have, want):
    for lvl in (True, False):
        p, fn = embedding(block, to_gate_params=lvl)
        p = {k: v for k, v in p.items() if k != want}
        try:
            fn(p, {k: torch.tensor([v]) for k, v in have.items()})
        except KeyError as e:
            ctx.ok(want in str(e), f"error {e} does not name the missing parameter {want}")
        else:
            ctx.ok(False, f"missing parameter {want} raised no error")


def evals(ctx, e, supplied, env):
    from bounded.gen import snap
    before = {s: (s.value, s.trainable) for s in e.free_symbols}
    d = dict(supplied)
    r = evaluate(e, d)
    ctx.ok(d == supplied, "evaluate changed the values it was given")
    w = complex(num(e, env))
    ctx.ok(abs(complex(r) - w) <= 1e-9 * max(1, abs(w)), f"evaluate({e}, {supplied}) = {r}, expected {w}")
    if abs(w.imag) < 1e-12:
        t = evaluate(e, d, as_torch=True)
        ctx.ok(abs(complex(t.reshape(-1)[0].detach()) - w) <= 1e-5 * max(1, abs(w)), f"evaluate(as_torch) of {e} with {supplied} = {t}, expected {w}")
    ctx.ok({s: (s.value, s.trainable) for s in e.free_symbols} == before, "evaluate changed stored values")


def run(ctx):
    cs = list(itertools.combinations(range(len(CONST)), 2))
    if not ctx.thorough:
        cs = [c for i, c in enumerate(cs) if i % 3 == ctx.seed % 3] + [(1, 2), (2, 4), (12, 13), (0, 23)]
    for i, j in cs:
        ctx.case(f"const/{i}-{j}", consts, ctx, CONST[i], CONST[j])
    for n in (1, 2, 5) + ((6,) if ctx.thorough else ()):
        for w in ("middle", "corner", "end"):
            ctx.case(f"matrix/{n}/{w}", matrices, ctx, n, w)
    a, b, c, d = P("a", 0.31), P("b", -1.17), P("c", 2.05, False), P("d", 0.77, False)
    E = {"a": a, "2a": 2 * a, "a+b": a + b, "a*b": a * b, "sin": sympy.sin(a), "cos": sympy.cos(a * c), "exp": sympy.exp(-a * d), "pow": a ** 2, "pow3": c ** 3 - a, "sqrt": sympy.sqrt(c), "div": a / c, "ratio": a / (a + c), "ratio2": -3. * b / (a + b) ** 2, "power of sum": a * (a + b) ** 3, "nested": a * sympy.exp(a * b) * sympy.sin(a + c),
         "rat": sympy.Rational(1, 3) * a, "pi": sympy.pi * a, "pi/": sympy.pi / 2 - a, "neg": -c, "abs": sympy.Abs(b), "log": sympy.log(c), "tan": sympy.tan(a), "atan": sympy.atan(a), "mix": 2 * sympy.sin(a * b) + 0.5 * c - d / 3,
         "all": a + b * c - d, "cancel": a * b + a * c, "nested": sympy.sin(sympy.cos(a) + b), "c": c, "c-d": c - d, "d-c": d - c, "acos": sympy.acos(d), "x^a": c ** a, "cosh": sympy.cosh(a), "float": 0.1 * a, "float2": 1.5 * a + 15 * b}
    ins = {1: {"a": [0.2], "b": [0.9], "c": [1.3], "d": [-0.4]}, 2: {"c": [1.3, 0.7], "d": [-0.4, 0.9]}, 5: {"c": [0.3, 1.1, 2.0, 1.7, 0.9], "d": [0.1, -0.2, 0.3, -0.4, 0.5], "a": [0.5, 0.25, -0.125, 1, 2]}}
    for nm, e in E.items():
        for bs, inp in ins.items():
            ctx.case(f"expr/{nm}/batch{bs}", lambda e=e, inp=inp, bs=bs: deliver(ctx, chain(RX(0, e), RY(1, 2 * e), CRZ(0, 1, e)), inp, batch=bs))
        ctx.case(f"expr/{nm}/stored", lambda e=e: deliver(ctx, chain(RX(0, e), U(1, e, a, c), 2 * Z(0)), {"c": [0.6], "d": [0.2]}, stored={k: v for k, v in {"a": 0.55, "b": 0.45}.items() if k in {s.name for s in e.free_symbols | {a}}}))
    # inputs take precedence over stored values, falsy inputs included
    for v in (0.0, -1.0, 3.5):
        ctx.case(f"precedence/{v}", lambda v=v: deliver(ctx, chain(RX(0, a), RX(1, a * b), HamEvo(a * Z(0) + b * X(1), c)), {"a": [v], "c": [0.0]}, stored={"a": 9.0, "b": 4.0}))
        ctx.case(f"split/{v}", lambda v=v: deliver(ctx, chain(RX(0, a), RX(1, c * b), RY(0, d)), {"a": [v], "c": [0.3], "d": [v]}, split=True))
    ctx.case("split/circuit-only", lambda: deliver(ctx, chain(RX(0, c)), {"c": [0.3]}, split=True))
    for v in (1, 0, -3, 2.5, True):
        ctx.case(f"initial/{v}", lambda v=v: deliver(ctx, RX(0, P("k", v)), {}))
    ctx.case("time/absent", lambda: deliver(ctx, HamEvo(TimeParameter("t") * X(0), 2.0, duration=1.5), {}))
    ctx.case("time/given", lambda: deliver(ctx, HamEvo(TimeParameter("t") * X(0), TimeParameter("t"), duration=c), {"t": [0.3], "c": [2.0]}))
    ctx.case("complex/scale", lambda: deliver(ctx, add((1 + 2j) * X(0), a * 1j * Z(0)), {}))
    ctx.case("names/like", lambda: deliver(ctx, chain(RX(0, P("x", .1)), RX(0, P("x1", .2)), RX(0, P("x_1", .3)), RX(0, P("x11", .4)), RX(1, P("x", .1) * P("x1", .2))), {}))
    ctx.case("names/dotted", lambda: deliver(ctx, chain(RX(0, P("y.1", .1, False)), RX(0, P("y_1", .2, False))), {"y.1": [0.5], "y_1": [0.7]}))
    ctx.case("same/expression", lambda: deliver(ctx, chain(RX(0, a + c), RX(1, c + a), RX(0, a + c)), {"c": [0.2]}))
    for nm, blk, have, want in (("feature", RX(0, c), {}, "c"), ("second", chain(RX(0, c), RX(1, d * a)), {"c": 0.1}, "d"), ("trainable", RX(0, a + c), {"c": 0.1}, "a"), ("scale", c * Z(0), {"d": 0.1}, "c"),
                                ("hamevo", HamEvo(d * X(0), 1.0), {}, "d"), ("case", RX(0, P("Abc", 1., False)), {"abc": 1.}, "Abc"), ("prefix", RX(0, P("x1", 1., False)), {"x": 1., "x11": 2.}, "x1")):
        ctx.case(f"missing/{nm}", missing, ctx, blk, have, want)
    env0 = {"a": 0.31, "b": -1.17, "c": 2.05, "d": 0.77}
    for nm, e in E.items():
        for k, sup in enumerate(({}, {"a": 0.0, "b": 0, "c": 1.0, "d": 0.25}, {"a": 0.7}, {"b": -2.0, "d": 0.5, "zz": 3.0}, {"c": 0.125, "a": -1})):
            env = {**env0, **sup}
            try:
                w = complex(num(e, env))
                if not math.isfinite(abs(w)):
                    continue
            except Exception:
                continue
            ctx.case(f"evaluate/{nm}/{k}", evals, ctx, e, sup, env)
    for i in range(ctx.n(120, 1500)):
        r = ctx.rng(f"t{i}")
        blk = tree(r, list(range(r.choice([2, 3, 4]))), r.choice([1, 2, 3]))
        bs = r.choice([1, 2, 5])
        inp = {n: [round(r.uniform(-2, 2), 3) for _ in range(bs)] for n in ("c", "d") + tuple(x for x in "ab" if r.random() < 0.3)}
        ctx.case(f"tree/{i}", lambda: deliver(ctx, blk, inp, batch=bs))
    try:
        import jax
        import horqrux  # noqa: F401
    except Exception:
        return
    for nm in ("a", "2a", "a+b", "mix", "all", "sin", "pow", "div"):
        ctx.case(f"jax/{nm}", lambda e=E[nm]: deliver(ctx, chain(RX(0, e), RY(1, 0.5), RX(0, -1), RX(1, -2)), {"c": [1.3], "d": [-0.4]}, engine=Engine.JAX))

"""C09: the shift rules as postconditions over arbitrary trigonometric polynomials with symbolic amplitudes, gaps, shifts and angles."""
from pyvc.kit import *
import pyvc.sets
from pyvc import tensors as TS
from pyvc.tensors import STensor
import numpy as np, torch
PS = mod("qadence.backends.parameter_shift_rules")
DE = mod("qadence.engines.torch.differentiable_expectation")
import qadence.operations as O
from qadence import Parameter

P = "C09"
TRUSTED = ["torch.linalg.solve(M, F) returns the unique R with M R = F for invertible M", "torch: sin, outer, stack, sum, reshape compute the operation of that name (entries exact)",
           "autograd: calls PSRExpectation.backward with the output gradient and applies the chain rule through the embedding"]
ASSUMES = ["shifts are admissible: the matrix 4 sin(shift gap / 2) is invertible", "bounded: the multi-gap rule is discharged for 2 and 3 gaps with symbolic values (the code is uniform in their number), batches of 1..3 and 1..2 observables"]


def S_(name):
    return sympy.Symbol(name, real=True)


def world(k, B, nobs):
    """f(params)[b, o] = C + y A' + sum_s A_s cos(D_s x / 2) + B_s sin(D_s x / 2)"""
    gaps = [S_(f"D{s}") for s in range(k)]
    xs = [S_(f"x{b}") for b in range(B)]
    ys = [S_(f"y{b}") for b in range(B)]
    calls = []
    def f(p):
        X, Y = p["x"].a.reshape(-1), p["y"].a.reshape(-1)
        calls.append(p)
        out = np.empty((B, nobs), dtype=object)
        for b in range(B):
            for o in range(nobs):
                v = S_(f"C{o}") + S_(f"E{o}") * Y[b]
                for s in range(k):
                    v += S_(f"A{s}{o}") * sympy.cos(gaps[s] * X[b] / 2) + S_(f"B{s}{o}") * sympy.sin(gaps[s] * X[b] / 2)
                out[b, o] = v
        return STensor(out)
    def part(s, b, o):
        return gaps[s] / 2 * (-S_(f"A{s}{o}") * sympy.sin(gaps[s] * xs[b] / 2) + S_(f"B{s}{o}") * sympy.cos(gaps[s] * xs[b] / 2))
    params = {"x": STensor(np.array(xs, dtype=object)), "y": STensor(np.array(ys, dtype=object))}
    return f, gaps, params, part, calls


def num_zero(label, exprs):
    """identically zero as rational functions of trigonometric terms"""
    return vanish(label, [sympy.expand(sympy.expand_trig(sympy.expand(sympy.fraction(sympy.together(e))[0]))) for e in exprs])


for B in (1, 2, 3):
    for nobs in (1, 2):
        @obligation(P, f"single_gap_psr/batch {B}, {nobs} observables", ["qadence.backends.parameter_shift_rules.single_gap_psr"])
        def _(B=B, nobs=nobs):
            f, gaps, params, part, calls = world(1, B, nobs)
            keep = dict(params)
            sh = S_("delta")
            r = PS.single_gap_psr(f, params, "x", STensor(np.array([gaps[0]], dtype=object)), STensor(np.array([sh], dtype=object)))
            r = r.a.reshape(B, nobs)
            return [num_zero(f"exact derivative, element {b}, observable {o}", [r[b, o] - part(0, b, o)]) for b in range(B) for o in range(nobs)] + \
                   [holds("parameter values left alone", list(params) == list(keep) and all(params[q] is keep[q] for q in keep))]


for k in (2, 3):
    for B in (1, 2, 3):
        for nobs in (1, 2):
            if k == 3 and (B, nobs) not in ((1, 1), (2, 2)):
                continue
            @obligation(P, f"multi_gap_psr/{k} gaps, batch {B}, {nobs} observables", ["qadence.backends.parameter_shift_rules.multi_gap_psr"])
            def _(B=B, nobs=nobs, k=k):
                f, gaps, params, part, calls = world(k, B, nobs)
                keep = dict(params)
                out = []
                def solve(M, F, **kw):
                    # contract: the unique R with M R = F.  The specification's R is verified to be that solution.
                    R = np.empty((k, B * nobs), dtype=object)
                    for s in range(k):
                        for b in range(B):
                            for o in range(nobs):
                                R[s, b * nobs + o] = part(s, b, o) / gaps[s]
                    M, F = TS.lift(M).a, TS.lift(F).a
                    if M.shape != (k, k) or F.shape != R.shape:
                        raise Unsupported(f"system of shape {M.shape}, {F.shape}")
                    E = M.dot(R) - F
                    probe = [num_zero("probe", [E[i, j]]).status for i in range(k) for j in range(R.shape[1])]
                    if "proved" not in probe or "refuted" in probe or "unknown" in probe:
                        # another (possibly equivalent) system: solve it symbolically, the final claim decides
                        if k > 2:
                            raise Unsupported("a different linear system")
                        d = M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]
                        return STensor(np.array([[(M[1, 1] * F[0, j] - M[0, 1] * F[1, j]) / d for j in range(F.shape[1])], [(M[0, 0] * F[1, j] - M[1, 0] * F[0, j]) / d for j in range(F.shape[1])]], dtype=object))
                    out.extend(num_zero(f"the linear system holds for the derivatives ({i},{j})", [E[i, j]]) for i in range(k) for j in range(R.shape[1]))
                    return STensor(R)
                VC.shim(torch.linalg.solve, solve)
                try:
                    pre = STensor(np.array(S_("pre"), dtype=object))
                    r = PS.multi_gap_psr(f, params, "x", STensor(np.array(gaps, dtype=object)), pre)
                finally:
                    VC.shims.pop(id(torch.linalg.solve), None)
                r = r.a
                out.append(holds("shape", r.shape == (B, nobs), str(r.shape)))
                out += [num_zero(f"sum of the parts, element {b}, observable {o}", [r[b, o] - sum(part(s, b, o) for s in range(k))]) for b in range(B) for o in range(nobs)]
                out.append(holds("parameter values left alone", list(params) == list(keep) and all(params[q] is keep[q] for q in keep)))
                shs = [c["x"].a[0] - params["x"].a[0] for c in calls]
                out.append(holds("only the differentiated parameter is shifted", all(c["y"] is params["y"] for c in calls)))
                return out


if hasattr(PS, "linear_psr"):
    @obligation(P, "linear_psr", ["qadence.backends.parameter_shift_rules.linear_psr"])
    def _():
        f, gaps, params, part, calls = world(1, 2, 2)
        r = PS.linear_psr(f, params, "y").a
        return [num_zero(f"exact derivative of an affine function {b}{o}", [r[b, o] - S_(f"E{o}")]) for b in range(2) for o in range(2)]


# ---- the set of gaps handed to the rules
for name, spec, want in [("rotation", [-1, 1], [2]), ("controlled rotation", [0, 0, 1, -1], [1, 2]), ("phase", [0, 2], [2]), ("degenerate", [0.5, 0.5, 0.5], []), ("three levels", [0, 1, 3.5], [1, 2.5, 3.5]),
                         ("near-equal", [0, 1, 1 + 1e-9], [1]), ("reversed", [3, 1, 0], [1, 2, 3]), ("equidistant", [-3, -1, 1, 3], [2, 4, 6])]:
    @obligation(P, f"general_psr/gaps of {name}", ["qadence.backends.parameter_shift_rules.general_psr"])
    def _(spec=spec, want=want):
        got = []
        orig = {n: getattr(PS, n) for n in ("single_gap_psr", "multi_gap_psr")}
        r = PS.general_psr(torch.tensor(spec, dtype=torch.cdouble))
        kw = getattr(r, "keywords", {})
        g = kw.get("spectral_gap", kw.get("spectral_gaps"))
        if not want:
            v = r(lambda p: p["x"].reshape(-1, 1) * 0 + 3.0, {"x": torch.tensor([0.1, 0.2])}, "x")
            return [holds("no gap: derivative zero", bool((v == 0).all()))]
        if g is None:
            raise Unsupported("rule without declared gaps")
        return [holds("exactly the differences of the spectrum", len(g) == len(want) and all(abs(float(a) - b) < 1e-6 for a, b in zip(sorted(g.tolist()), want)), str(g))]


# ---- backward: contraction with the output gradient, one gradient per parameter in order
for need in ((True, True, True), (True, False, True), (False, True, False)):
    @obligation(P, f"PSRExpectation.backward/needs {need}", ["qadence.engines.torch.differentiable_expectation.PSRExpectation.backward"])
    def _(need=need):
        B, nobs = 2, 2
        class Ctx:
            pass
        ctx = Ctx()
        ctx.param_keys = ["p", "q", "r"]
        ctx.saved_tensors = tuple(STensor.symbols(n, B, complex=False) for n in "pqr")
        ctx.needs_input_grad = (False, False, False) + need
        ctx.expectation_fn = None
        def rule(n):
            D = STensor.symbols("D" + n, B, nobs, complex=False)
            def psr(fn, params, name):
                if name != n or list(params) != ctx.param_keys or any(params[k] is not v for k, v in zip(ctx.param_keys, ctx.saved_tensors)):
                    return STensor.symbols("wrong" + name, B, nobs, complex=False)
                return D
            psr.D = D
            return psr
        ctx.param_psrs = [rule(n) for n in "pqr"]
        G = STensor.symbols("g", B, nobs, complex=False)
        r = DE.PSRExpectation.backward(ctx, G)
        grads = r[3:]
        out = [holds("one gradient per input", len(r) == 6 and r[:3] == (None, None, None))]
        for i, n in enumerate(need):
            if not n:
                out.append(holds("no gradient where none is needed", grads[i] is None))
                continue
            D = ctx.param_psrs[i].D
            g = grads[i].a.reshape(-1)
            for b in range(B):
                out.append(vanish(f"vector-Jacobian product {i},{b}", [g[b] - sum(G.a[b, o] * D.a[b, o] for o in range(nobs))]))
        return out


# ---- declared spectral gaps of the gates contain every frequency of the gate, for all angles
GATES = [("RX", lambda p: O.RX(0, p)), ("RY", lambda p: O.RY(0, p)), ("RZ", lambda p: O.RZ(0, p)), ("PHASE", lambda p: O.PHASE(0, p)), ("CRX", lambda p: O.CRX(0, 1, p)), ("CRY", lambda p: O.CRY(0, 1, p)),
         ("CRZ", lambda p: O.CRZ(0, 1, p)), ("CPHASE", lambda p: O.CPHASE(0, 1, p)), ("MCRX", lambda p: O.MCRX((0, 1), 2, p)), ("MCRY", lambda p: O.MCRY((0, 1), 2, p)), ("MCRZ", lambda p: O.MCRZ((0, 1), 2, p)),
         ("MCPHASE", lambda p: O.MCPHASE((0, 1), 2, p))]
for nm, make in GATES:
    @obligation(P, f"eigenvalues_generator/{nm}: declared gaps are the frequencies of the gate", [f"qadence.operations.{nm}.eigenvalues_generator"])
    def _(nm=nm, make=make):
        a = Parameter("alpha", trainable=False)
        b = make(a)
        U = leaf.PARAM[nm.replace("MC", "").replace("C", "") if nm not in ("PHASE",) else nm](S_("alpha"))
        n = len(tuple(b.qubit_support))
        U = leaf.controlled(U, n - 1)
        th = S_("alpha")
        # frequencies of the matrix elements of U (x) conj(U): differences of the exponents present
        freqs = set()
        z = sympy.Symbol("z")
        for e in U:
            ex = sympy.expand(sympy.expand(e).rewrite(sympy.exp).subs(th, -2 * sympy.I * sympy.log(z)))
            ex = sympy.simplify(ex)
            for term in sympy.Add.make_args(sympy.expand(ex)):
                if term != 0:
                    freqs.add(sympy.nsimplify(sympy.degree(term * z ** 4, z) - 4) if term.has(z) else sympy.Integer(0))
        diffs = {abs(p - q) for p in freqs for q in freqs} - {0}      # in units of alpha/2: the gaps of the generator
        spec = b.eigenvalues_generator
        r = PS.general_psr(spec)
        kw = r.keywords
        g = kw.get("spectral_gap", kw.get("spectral_gaps")).tolist()
        return [holds("every frequency is declared", all(any(abs(float(d) - x) < 1e-9 for x in g) for d in diffs), (str(diffs), g))]


# ---- one rule per parameter of the circuit: the gate's own spectrum, in the order of the values
@obligation(P, "construct_rules", ["qadence.engines.torch.differentiable_expectation.DifferentiableExpectation.construct_rules", "qadence.blocks.utils.uuid_to_eigen"])
def _():
    from qadence import QuantumCircuit, chain, Z, X
    a, c = Parameter("a", trainable=True, value=0.3), Parameter("c", trainable=False)
    g1, g2, g3, g4 = O.RX(0, a), O.CRX(0, 1, 2 * a), O.HamEvo(X(0) + 0.5 * Z(1), c), O.U(1, a, c, a * c)
    circ = QuantumCircuit(2, chain(g1, g2, g3, g4))
    obs = [2 * Z(0), c * X(1)]
    seen = []
    def psr_fn(eigs, **kw):
        seen.append((tuple(round(float(torch.real(e)), 6) for e in eigs), dict(kw)))
        return ("rule", len(seen) - 1)
    rules = DE.DifferentiableExpectation.construct_rules(circ, obs, psr_fn, shift_prefac=0.5)
    out = []
    for b, want in ((g1, {2.0}), (g2, {1.0, 2.0}), (g4, {2.0})):
        for u in b.parameters.uuids():
            r = rules.get(u)
            if not (isinstance(r, tuple) and r[0] == "rule"):
                out.append(holds("a rule for every parameter of the circuit", False))
                continue
            e = seen[r[1]][0]
            out.append(holds(f"spectrum of {type(b).__name__}", {round(abs(x - y), 6) for x in e for y in e} - {0.0} == want, str(e)))
    (u,) = [u for u in g3.parameters.uuids()][:1]
    e = seen[rules[u][1]][0]
    want = {round(2 * abs(x - y), 5) for x in (1.5, .5, -.5, -1.5) for y in (1.5, .5, -.5, -1.5)} - {0.0}
    out.append(holds("evolutions: twice the differences of the generator", {round(abs(x - y), 5) for x in e for y in e} - {0.0} == want, str(e)))
    for o in obs:
        out.append(holds("values of the observable are passed through", all(u in rules for u in o.parameters.uuids())))
    return out

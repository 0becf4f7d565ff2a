"""C21: classical-shadow estimates combine the snapshots of the prepared state correctly."""
from pyvc.kit import *
from pyvc import leaf
import itertools
import numpy as np
import sympy
import torch
import z3
from collections import Counter
from qadence import operations as O
from qadence.blocks import kron, add, chain
from qadence.types import Endianness, BackendName
SH = mod("qadence.measurements.shadow")

P = "C21"
F = "qadence.measurements.shadow."
ASSUMES = ["observables are sums of coefficients times products of Pauli operators on different qubits", "at least as many snapshots as groups",
           "big-endian outcomes (the default)", "numpy.random.randint draws each basis uniformly and independently"]
TRUSTED = ["numpy slicing, comparison and all(); torch.prod, torch.median, torch.transpose", "sympy", "z3", "unroll_block_with_scaling by its contract (C16)",
           "the backend's run and sample (C08): outcomes are distributed as the squared amplitudes of the rotated state"]


def shim_for(fn, new):
    old = VC.shims.get(id(fn))
    VC.shim(fn, new)
    def undo():
        if old is None:
            VC.shims.pop(id(fn), None)
        else:
            VC.shims[id(fn)] = old
    VC.ex.undo.append(undo)


def embed(m, i, n):
    out = sympy.Matrix([[1]])
    for k in range(n):
        out = sympy.kronecker_product(out, m if k == i else sympy.eye(2))
    return out


def unitary(b, n):
    """matrix of a rotation block (or None: nothing is done)"""
    m = sympy.eye(2 ** n)
    if b is None:
        return m
    if hasattr(b, "blocks"):
        for x in b.blocks:
            m = unitary(x, n) * m
        return m
    return embed(leaf.matrix(b), b.qubit_support[0], n)


PAULIS = (O.X, O.Y, O.Z)


# ---------------------------------------------------------------- the bases
for n in (1, 2, 3):
    @obligation(P, f"extract_operators/every basis of {n} qubits [fixed width]", [F + "extract_operators", F + "nested_operator_indexing", F + "kron_if_non_empty"])
    def _(n=n):
        ids = np.array(list(itertools.product(range(3), repeat=n)))
        ops = SH.extract_operators(ids, n)
        out = [holds("one rotation per snapshot", len(ops) == len(ids))]
        for row, b in zip(ids, ops):
            R = unitary(b, n)
            bad = [q for q in range(n) if (R.H * embed(leaf.Z, q, n) * R - embed(leaf.matrix(PAULIS[int(row[q])](0)), q, n)).applyfunc(sympy.simplify) != sympy.zeros(2 ** n, 2 ** n)]
            out.append(holds("after the rotation each qubit's recorded Pauli is read as Z", not bad, f"bases {row.tolist()}, qubits {bad}"))
        return out


@obligation(P, "the recorded index of a basis is the index of its Pauli", [F + "estimators"])
def _():
    return [holds("X, Y, Z", list(SH.pauli_gates) == [O.X, O.Y, O.Z])]


# ---------------------------------------------------------------- the snapshots
class Be:
    def __init__(self, name, outcomes, wrapped):
        self.log = []
        self.outcomes = iter(outcomes)
        if wrapped:
            self.backend = type("B", (), {"name": name})()
        else:
            self.name = name
    def circuit(self, c):
        return ("conv", c)
    def run(self, circuit, param_values={}, state=None, endianness=Endianness.BIG, **kw):
        self.log.append(("run", circuit, param_values, state, endianness, kw))
        return ("state", circuit)
    def sample(self, circuit, param_values={}, n_shots=1, state=None, noise=None, endianness=Endianness.BIG, **kw):
        self.log.append(("sample", circuit, param_values, n_shots, state, noise, endianness, kw))
        return [Counter({s: 1}) for s in next(self.outcomes)]


class Mark:
    def __init__(self, what):
        self.what = what
    def __repr__(self):
        return f"<{self.what}>"


def snapshots(name, wrapped, n, batch):
    @obligation(P, f"classical_shadow/{name}{' inside an engine' if wrapped else ''}, {n} qubits, batch {batch} [fixed shape]", [F + "classical_shadow"])
    def _():
        ids = np.array(list(itertools.product(range(3), repeat=n))[:7] + [[2] * n])
        N = len(ids)
        allbits = ["".join(x) for x in itertools.product("01", repeat=n)]
        outcomes = [[allbits[(3 * i + 5 * b + 1) % len(allbits)] for b in range(batch)] for i in range(N)]
        be = Be(name, outcomes, wrapped)
        asked = []
        shim_for(np.random.randint, lambda *a, **k: asked.append((a, k)) or ids.copy())
        body = O.H(0) if n == 1 else chain(O.H(0), O.CNOT(0, n - 1), O.Y(n - 1))
        circ, vals, st, noise = SH.QuantumCircuit(n, body), Mark("values"), Mark("state"), Mark("noise")
        got, shadow = SH.classical_shadow(shadow_size=N, circuit=circ, param_values=vals, state=st, backend=be, noise=noise)
        a, k = asked[0] if asked else ((), {})
        size = k.get("size", a[2] if len(a) > 2 else None)
        lohi = (a + tuple(k[x] for x in ("low", "high") if x in k))[:2]
        out = [holds("bases drawn once, uniformly from the three, for every snapshot and qubit", len(asked) == 1 and tuple(lohi) in ((0, 3), (3,)) and tuple(int(x) for x in size) == (N, n), repr(asked)[:200]),
               holds("the recorded bases are those drawn", np.array_equal(got, ids))]
        samples = [l for l in be.log if l[0] == "sample"]
        runs = [l for l in be.log if l[0] == "run"]
        out.append(holds("one measurement per snapshot", len(samples) == N))
        U = leafmat(body, n)
        pre = [l for l in runs if l[1] == ("conv", l[1][1])]
        for i, l in enumerate(samples):
            _, c, pv, shots, state, nz, e, kw = l
            bl = c[1].block
            W = unitary_any(bl, n)
            want_rot = sympy.eye(2 ** n)
            for q in range(n):
                want_rot = embed({0: leaf.matrix(O.H(0)), 1: leaf.matrix(O.H(0)) * leaf.matrix(O.SDagger(0)), 2: sympy.eye(2)}[int(ids[i][q])], q, n) * want_rot
            if state is st:
                total = W
            elif isinstance(state, tuple) and state[0] == "state" and len(runs) >= 1 and all(r[3] is st and r[2] is vals and r[4] == Endianness.BIG for r in runs):
                total = W * unitary_any(state[1][1].block, n)
            else:
                out.append(holds("the snapshot measures the prepared state", False, f"state {state!r}"))
                continue
            # equality of what is measured: the rotated Z operators agree
            ok = all((total.H * embed(leaf.Z, q, n) * total - (U.H * want_rot.H * embed(leaf.Z, q, n) * want_rot * U)).applyfunc(sympy.simplify) == sympy.zeros(2 ** n, 2 ** n) for q in range(n))
            out.append(holds("circuit, then the rotations of this snapshot", ok, f"snapshot {i}, bases {ids[i].tolist()}"))
            out.append(holds("one shot with the given values and noise", shots == 1 and pv is vals and nz is noise and e == Endianness.BIG, repr((shots, nz, e))))
            out.append(holds("on all qubits", c[1].n_qubits == n))
        out.append(holds("one array per batch element", len(shadow) == batch))
        for b in range(min(batch, len(shadow))):
            want = [[1 - 2 * int(x) for x in outcomes[i][b]] for i in range(N)]
            out.append(holds("signs (+1 for 0, -1 for 1) per snapshot and qubit", torch.equal(shadow[b].to(torch.int64), torch.tensor(want)), f"batch {b}"))
        return out


def leafmat(b, n):
    return unitary_any(b, n)


def unitary_any(b, n):
    """matrix of a block of leaves with one or two qubits"""
    if hasattr(b, "blocks") and not isinstance(b, O.CNOT):
        m = sympy.eye(2 ** n)
        for x in b.blocks:
            m = unitary_any(x, n) * m
        return m
    if isinstance(b, O.CNOT):
        c, t = b.qubit_support
        p0, p1 = sympy.Matrix([[1, 0], [0, 0]]), sympy.Matrix([[0, 0], [0, 1]])
        return embed(p0, c, n) + embed(p1, c, n) * embed(leaf.X, t, n)
    return embed(leaf.matrix(b), b.qubit_support[0], n)


for nm, w in ((BackendName.PYQTORCH, False), (BackendName.PYQTORCH, True), (BackendName.HORQRUX, False)):
    for n, bt in ((1, 1), (2, 1), (2, 3)):
        snapshots(nm, w, n, bt)


# ---------------------------------------------------------------- the estimator of one term
class Arr:
    """a tensor of arbitrary numbers (sympy), any outcome of any snapshot"""
    def __init__(self, a):
        self.a = np.asarray(a, dtype=object)
    def __getitem__(self, i):
        if isinstance(i, tuple):
            i = tuple(list(x) if isinstance(x, tuple) else x for x in i)
            if any(isinstance(x, list) and not x for x in i):
                i = tuple(np.array(x, dtype=int) if isinstance(x, list) and not x else x for x in i)
        r = self.a[i]
        return Arr(r) if isinstance(r, np.ndarray) else r
    @property
    def shape(self):
        return self.a.shape
    def sum(self, *a, **k):
        if a or k:
            raise Unsupported("sum over an axis")
        return sum(self.a.reshape(-1).tolist(), sympy.Integer(0))
    def mean(self, *a, **k):
        if a or k:
            raise Unsupported("mean over an axis")
        return self.sum() / sympy.Integer(self.a.size)
    def prod(self, *a, **k):
        return _prod(self, *a, **k)
    def __vc_len__(self):
        return len(self.a)
    def __len__(self):
        return len(self.a)
    def numpy(self):
        raise Unsupported("conversion")


def _prod(x, *a, **k):
    if not isinstance(x, Arr):
        return torch.prod(x, *a, **k)
    ax = a[0] if a else k.get("axis", k.get("dim"))
    if ax not in (-1, x.a.ndim - 1):
        raise Unsupported("product over another axis")
    return Arr(np.array([sympy.Mul(*r) for r in x.a.reshape(-1, x.a.shape[-1])], dtype=object)) if x.a.shape[-1] else Arr(np.array([sympy.Integer(1)] * len(x.a), dtype=object))


class Ten:
    def __init__(self, v):
        self.v = v


def num(x):
    if isinstance(x, Ten):
        return num(x.v)
    if isinstance(x, torch.Tensor):
        return sympy.nsimplify(float(x))
    return sympy.sympify(x)


def _tensor(x, *a, **k):
    def sym(v):
        return isinstance(v, (list, tuple)) and any(map(sym, v)) or isinstance(v, (sympy.Basic, Ten))
    return Ten(x) if sym(x) else torch.tensor(x, *a, **k)


def terms(n):
    for r in range(1, n + 1):
        for qs in itertools.permutations(range(n), r):
            for w in itertools.product("XYZI", repeat=r):
                yield w, qs


def estimator(n, N, K, ids, ws, tag_):
    @obligation(P, f"estimators/{tag_} [fixed shape, any outcomes]", [F + "estimators"])
    def _():
        shim_for(torch.prod, _prod)
        shim_for(torch.tensor, _tensor)
        s = np.array([[sympy.Symbol(f"s{i}_{q}") for q in range(n)] for i in range(N)], dtype=object)
        out = []
        for w, qs in ws:
            fs = [getattr(O, c)(q) for c, q in zip(w, qs)]
            for form in ((fs[0],) if len(fs) == 1 else ()) + (kron(*fs),):
                r = SH.estimators(N=N, K=K, unitary_shadow_ids=ids.copy(), shadow_samples=Arr(s), observable=form)
                got = [num(x) for x in (r.v if isinstance(r, Ten) else (r.reshape(-1).tolist() if isinstance(r, torch.Tensor) else [r]))]
                need = {q: "XYZ".index(c) for c, q in zip(w, qs) if c != "I"}
                g = N // K
                want = []
                for k in range(K):
                    rows = [i for i in range(k * g, (k + 1) * g) if all(ids[i][q] == p for q, p in need.items())]
                    want.append(sympy.Add(*[sympy.Mul(*[s[i][q] for q in need]) for i in rows]) / len(rows) if rows else sympy.Integer(0))
                if len(got) == 1 and K > 1 and not need:
                    got = got * K
                ok = len(got) == K and all(sympy.expand(a - b) == 0 for a, b in zip(got, want))
                out.append(holds("mean, per group, of the signed outcomes of the snapshots in the term's bases", ok, f"{''.join(w)} on {qs}: {got} instead of {want}"[:400]))
        return out


_r = np.random.RandomState(5)
for n_, N_, K_ in ((1, 6, 2), (1, 7, 3), (2, 9, 1), (2, 24, 2), (2, 20, 3)):
    ids_ = np.array((list(itertools.product(range(3), repeat=n_)) * 20)[:N_])
    _r.shuffle(ids_)
    estimator(n_, N_, K_, ids_, list(terms(n_)), f"every Pauli term on {n_} qubits, {N_} snapshots in {K_} groups")
ids3 = _r.randint(0, 3, size=(40, 3))
estimator(3, 40, 2, ids3, [(w, qs) for w, qs in terms(3) if len(qs) == 3 and (w.count("I") == 0 or qs in ((0, 1, 2), (2, 0, 1)))][::5], "Pauli terms on 3 qubits, 40 snapshots in 2 groups")


# ---------------------------------------------------------------- the estimate
class Med(sympy.Function):
    pass


@obligation(P, "estimations/two observables, batch of two [fixed shape, any estimators]", [F + "estimations"])
def _():
    return estimate(None)


for _size in (17, 555):
    @obligation(P, f"estimations/given shadow size {_size}", [F + "estimations"])
    def _(size=_size):
        return estimate(size)


def estimate(size):
    obs = [Mark("first"), Mark("second")]
    c = sympy.symbols("c0:5")
    dec = {id(obs[0]): [(Mark("t0"), c[0]), (Mark("t1"), c[1]), (Mark("t2"), c[2])], id(obs[1]): [(Mark("u0"), c[3]), (Mark("u1"), c[4])]}
    batches = [Mark("batch0"), Mark("batch1")]
    ids = Mark("ids")
    log = {}
    def nos(observables, accuracy, confidence):
        log["n"] = (list(observables) == obs, accuracy, confidence)
        return 101, 4
    def cs(shadow_size, circuit, param_values, state=None, backend=None, noise=None, endianness=Endianness.BIG):
        log["cs"] = (shadow_size, circuit, param_values, state, backend, noise, endianness)
        return ids, batches
    def est(N, K, unitary_shadow_ids, shadow_samples, observable):
        log.setdefault("est", []).append((N, K, unitary_shadow_ids is ids))
        return Est(observable, shadow_samples)
    class Est:
        def __init__(self, o, b):
            self.o, self.b = o, b
        def median(self, *a):
            return sympy.Symbol(f"median[{self.o.what},{self.b.what}]")
    shim_for(SH.number_of_samples, nos)
    shim_for(SH.classical_shadow, cs)
    shim_for(SH.estimators, est)
    shim_for(SH.unroll_block_with_scaling, lambda b, *a: list(dec[id(b)]))
    shim_for(torch.median, lambda x, *a: x.median() if isinstance(x, Est) else torch.median(x, *a))
    shim_for(torch.tensor, _tensor)
    def tr(x, a, b):
        if isinstance(x, Ten):
            if sorted((a, b)) != [0, 1]:
                raise Unsupported("transpose")
            return Ten([list(r) for r in zip(*x.v)])
        return torch.transpose(x, a, b)
    shim_for(torch.transpose, tr)
    circ, vals, st, be, nz = (Mark(x) for x in ("circuit", "values", "state", "backend", "noise"))
    r = SH.estimations(circ, obs, vals, shadow_size=size, accuracy=sympy.Symbol("a"), confidence=sympy.Symbol("d"), state=st, backend=be, noise=nz)
    n = 101 if size is None else size
    out = [holds("budget for all observables at the requested accuracy and confidence", log["n"] == (True, sympy.Symbol("a"), sympy.Symbol("d")), repr(log["n"])),
           holds("shadow of the circuit, with its values, state, backend and noise", log["cs"][:6] == (n, circ, vals, st, be, nz) and log["cs"][6] == Endianness.BIG, repr(log["cs"])),
           holds("all its snapshots, in the groups of the budget", all(x == (n, 4, True) for x in log["est"]), repr(log["est"][0]))]
    if not isinstance(r, Ten):
        return out + [Claim("estimate", "unknown", repr(r)[:200])]
    m = lambda t, b: sympy.Symbol(f"median[{t},batch{b}]")
    want = [[c[0] * m("t0", b) + c[1] * m("t1", b) + c[2] * m("t2", b), c[3] * m("u0", b) + c[4] * m("u1", b)] for b in range(2)]
    ok = len(r.v) == 2 and all(len(x) == 2 and all(sympy.expand(num(p) - q) == 0 for p, q in zip(x, y)) for x, y in zip(r.v, want))
    return out + [holds("per batch element and observable: the sum of coefficient times median", ok, repr(r.v)[:300])]


@obligation(P, "compute_expectation/options", [F + "compute_expectation"])
def _():
    out = []
    for opts in ({"shadow_size": 5, "accuracy": .2, "confidence": .3}, {"accuracy": .2, "confidence": .3}, {"shadow_size": 7, "confidence": .4}):
        got = []
        def est(*a, **k):
            import inspect
            b = inspect.signature(SH.estimations).bind(*a, **k)
            b.apply_defaults()
            got.append(dict(b.arguments))
            return "result"
        shim_for(SH.estimations, est)
        circ, vals, st, be, nz = (Mark(x) for x in ("circuit", "values", "state", "backend", "noise"))
        obs = [Mark("o")]
        r = SH.compute_expectation(circ, obs, vals, dict(opts), state=st, backend=be, noise=nz)
        g = got[0]
        out.append(holds("passed on unchanged", r == "result" and g["circuit"] is circ and g["observables"] == obs and g["param_values"] is vals and g["state"] is st and g["backend"] is be and g["noise"] is nz
                         and g["shadow_size"] == opts.get("shadow_size") and g["confidence"] == opts["confidence"] and ("accuracy" not in opts or g["accuracy"] == opts["accuracy"]), repr(g)[:300]))
    return out


# ---------------------------------------------------------------- the budget
class Rounded:
    def __init__(self, e):
        self.e = e


def _round(x, *a):
    return Rounded(x) if isinstance(x, sympy.Basic) and not a else round(x, *a)


def _log(x, *a):
    return sympy.log(x) if isinstance(x, sympy.Basic) else np.log(x, *a)


for M in (1, 2, 5):
    @obligation(P, f"number_of_samples/any weight, accuracy and confidence, {M} observables [fixed number]", [F + "number_of_samples"])
    def _(M=M):
        k = sympy.Symbol("k", integer=True, positive=True)
        a, d = sympy.symbols("a d", positive=True)
        obs = [Mark(i) for i in range(M)]
        shim_for(SH.maximal_weight, lambda observables: k if list(observables) == obs else 1 / 0)
        shim_for(round, _round)
        shim_for(np.log, _log)
        N, K = SH.number_of_samples(obs, a, d)
        if not isinstance(N, Rounded) or not isinstance(K, Rounded):
            return [Claim("rounded", "unknown", repr((N, K)))]
        e1 = sympy.simplify(sympy.nsimplify(N.e) - 34 * 3 ** k / a ** 2)
        e2 = sympy.simplify(sympy.expand_log(sympy.nsimplify(K.e) - 2 * sympy.log(2 * M / d), force=True))
        return [holds("N = 34 * 3**k / accuracy**2", e1 == 0, str(N.e)), holds("K = 2 log(2 M / confidence)", e2 == 0, str(K.e))]


@obligation(P, "_max_observable_weight/every decomposition into up to two terms [fixed shape]", [F + "_max_observable_weight"])
def _():
    ts = [(b, len([f for f in fs if type(f).__name__ in "XYZ"])) for b, fs in
          [(O.X(0), [O.X(0)]), (O.I(1), []), (O.Y(2), [O.Y(2)]), (O.Z(1), [O.Z(1)])]
          + [(kron(*x), x) for x in ([O.X(0), O.Z(1)], [O.Y(1), O.I(0)], [O.Z(2), O.Y(0), O.X(1)], [O.I(0), O.I(1)], [O.I(0), O.Y(1), O.Z(3), O.X(2)], [O.Z(0), O.Z(1), O.Z(2)], [O.X(2), O.X(0)], [O.Y(0), O.I(1), O.Y(2), O.Y(3)])]]
    out = []
    for r in (1, 2):
        for sel in itertools.product(ts, repeat=r):
            o = Mark("observable")
            shim_for(SH.unroll_block_with_scaling, lambda b, *a: [(t, sympy.Symbol("c")) for t, _ in sel] if b is o else 1 / 0)
            out.append(holds("largest number of non-identity factors of a term", SH._max_observable_weight(o) == max(w for _, w in sel), repr([t for t, _ in sel])[:300]))
    return out


for M in (1, 2, 3):
    @obligation(P, f"maximal_weight/{M} observables of any weight [fixed number]", [F + "maximal_weight"])
    def _(M=M):
        obs = [Mark(i) for i in range(M)]
        ws = [fresh_int(f"w{i}", 0) for i in range(M)]
        shim_for(SH._max_observable_weight, lambda observable: ws[[o is observable for o in obs].index(True)])
        r = SH.maximal_weight(obs)
        z = r.z if isinstance(r, SNum) else z3.IntVal(r)
        return [valid_here("at least each", z3.And(*[z >= w.z for w in ws])), valid_here("one of them", z3.Or(*[z == w.z for w in ws]))]

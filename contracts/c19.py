"""C19: overlaps.  Bra and ket are arbitrary circuits: words of opaque unitaries applied to the zero state, with arbitrary
amplitudes of norm one."""
from pyvc.kit import *
from pyvc import tensors as TS
from pyvc.tensors import STensor
import itertools, math
from collections import Counter
from types import SimpleNamespace
import numpy as np, sympy, torch
import importlib
OV, DV = importlib.import_module("qadence.overlap"), importlib.import_module("qadence.divergences")
from qadence.circuit import QuantumCircuit
from qadence.blocks.primitive import PrimitiveBlock
from qadence.blocks.composite import ChainBlock, KronBlock, AddBlock
from qadence.blocks import ScaleBlock
from qadence.types import OverlapMethod as M

P = "C19"
F = "qadence.overlap."
ASSUMES = ["float literals stand for the numbers they denote", "bra and ket states have norm one"]
TRUSTED = ["reassign relabels qubits (C03), dagger is the adjoint (C01)", "sample and run return what the circuit denotes (C08)", "sympy", "z3"]


def shim_for(fn, new):
    old = VC.shims.get(id(fn))
    VC.shim(fn, new)
    def undo():
        if old is None:
            VC.shims.pop(id(fn), None)
        else:
            VC.shims[id(fn)] = old
    VC.ex.undo.append(undo)


def real_symbols(tag, k):
    return [sympy.Symbol(f"{tag}_{i}r", real=True) + sympy.I * sympy.Symbol(f"{tag}_{i}i", real=True) for i in range(k)]


def norm2(v):
    return sum(sympy.expand(x * sympy.conjugate(x)) for x in v)


def mod_unit(e, vectors):
    """remainder of a polynomial where the given vectors have norm one"""
    e = sympy.expand(e)
    for v in vectors:
        x = sympy.re(v[0])
        rest = 1 - sum(sympy.re(c) ** 2 + sympy.im(c) ** 2 for c in v) + x ** 2
        if x in e.free_symbols:
            e = sympy.expand(sympy.rem(sympy.Poly(e, x), sympy.Poly(x ** 2 - rest, x)).as_expr())
    return e


def ov2(a, b):
    s = sympy.expand(sum(sympy.conjugate(x) * y for x, y in zip(a, b)))
    return sympy.expand(s * sympy.conjugate(s))


# ------------------------------------------------------------------ arbitrary unitaries as blocks
class U(PrimitiveBlock):
    name = "U"
    def __init__(self, sym, support, dag=False):
        self.sym, self.dag = sym, dag
        super().__init__(tuple(support))
    def dagger(self):
        return U(self.sym, self.qubit_support, not self.dag)
    def __ascii__(self, *a):
        return None


def relabel(b, m):
    if not isinstance(b, U):
        raise Unsupported("relabelling of another block")
    return U(b.sym, tuple(m[q] for q in b.qubit_support), b.dag)


class World:
    """state vectors as sums of coefficient * basis state of single qubits * words of opaque unitaries on registers"""
    def __init__(self):
        self.vec = {}
    def word(self, w, k):
        if not w:
            return [sympy.Integer(1)] + [sympy.Integer(0)] * (2 ** k - 1)
        if (w, k) not in self.vec:
            self.vec[w, k] = real_symbols("".join(s + ("'" if d else "") for s, d in w), 2 ** k)
        return self.vec[w, k]
    def start(self, n):
        return [(sympy.Integer(1), tuple([0] * n), ())]
    def expand(self, ts, q):
        """write the register containing q as a sum over basis states"""
        out = []
        for c, bits, regs in ts:
            hit = [r for r in regs if q in r[0]]
            if not hit:
                out.append((c, bits, regs))
                continue
            s, w = hit[0]
            rest = tuple(r for r in regs if r is not hit[0])
            v = self.word(w, len(s))
            for i, a in enumerate(v):
                if a == 0:
                    continue
                nb = list(bits)
                for k, x in enumerate(s):
                    nb[x] = (i >> (len(s) - 1 - k)) & 1
                out += self.expand([(c * a, tuple(nb), rest)], q)
        return out
    def apply(self, b, ts):
        if isinstance(b, U):
            s = tuple(b.qubit_support)
            out = []
            for c, bits, regs in ts:
                hit = [r for r in regs if set(r[0]) & set(s)]
                if hit:
                    if hit[0][0] != s:
                        raise Unsupported("opaque unitary across registers")
                    w = hit[0][1]
                elif any(bits[q] for q in s):
                    raise Unsupported("opaque unitary on a state other than zero")
                else:
                    w = ()
                w = w[:-1] if w and w[-1] == (b.sym, not b.dag) else w + ((b.sym, b.dag),)
                nb = tuple(0 if q in s else x for q, x in enumerate(bits))
                out.append((c, nb, tuple(r for r in regs if r[0] != s) + (((s, w),) if w else ())))
            return out
        if isinstance(b, (ChainBlock, KronBlock)):
            for x in b.blocks:
                ts = self.apply(x, ts)
            return ts
        if isinstance(b, AddBlock):
            return self.collect([t for x in b.blocks for t in self.apply(x, ts)])
        if isinstance(b, ScaleBlock):
            e = b.scale
            return [(c * TS.exact(e if not isinstance(e, sympy.Basic) else complex(e)), bits, regs) for c, bits, regs in self.apply(b.block, ts)]
        if type(b).__name__ == "I":
            return ts
        m = matrix(b)
        s = tuple(b.qubit_support)
        for q in s:
            ts = self.expand(ts, q)
        out = []
        for c, bits, regs in ts:
            i = sum(bits[q] << (len(s) - 1 - k) for k, q in enumerate(s))
            for j in range(m.shape[0]):
                if m[j, i] != 0:
                    nb = list(bits)
                    for k, q in enumerate(s):
                        nb[q] = (j >> (len(s) - 1 - k)) & 1
                    out.append((c * m[j, i], tuple(nb), regs))
        return self.collect(out)
    def collect(self, ts):
        d = {}
        for c, bits, regs in ts:
            k = (bits, tuple(sorted(regs)))
            d[k] = d.get(k, 0) + c
        return [(c, k[0], k[1]) for k, c in d.items() if c != 0]
    def dense(self, ts, n):
        for q in range(n):
            ts = self.expand(ts, q)
        v = [sympy.Integer(0)] * 2 ** n
        for c, bits, _ in ts:
            v[sum(x << (n - 1 - k) for k, x in enumerate(bits))] += c
        return [sympy.expand(x) for x in v]


def matrix(b):
    nm = type(b).__name__
    if nm == "Projector":
        d = 2 ** len(tuple(b.qubit_support))
        m = sympy.zeros(d, d)
        m[int(b.ket, 2), int(b.bra, 2)] = 1
        return m
    if nm == "N":
        return sympy.Matrix([[0, 0], [0, 1]])
    if nm == "SWAP":
        return sympy.Matrix([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]])
    return leaf.matrix(b)


def row(v):
    return STensor(np.array([v], dtype=object))


for method in (M.EXACT, M.COMPUTE_UNCOMPUTE, M.SWAP_TEST, M.HADAMARD_TEST):
    for n in (1, 2) if method == M.SWAP_TEST else (1, 2, 3):
        @obligation(P, f"{method.value}/any two circuits on {n} qubits give |<bra|ket>|^2 [fixed width]", [F + "_select_overlap_method", F + "_cswap", F + "_controlled_unitary", F + "overlap_exact", F + "overlap_compute_uncompute", F + "overlap_swap_test", F + "overlap_hadamard_test"])
        def _(method=method, n=n):
            shim_for(OV.reassign, relabel)
            B, K = U("B", range(n)), U("K", range(n))
            cb, ck = QuantumCircuit(n, B), QuantumCircuit(n, K)
            fn, c1, c2 = OV._select_overlap_method(method, "pyqtorch", cb, ck)
            w = World()
            def calc(c, tag):
                def f(values, state=None):
                    if values != {"of": tag} or state is not None:
                        raise Unsupported("other values or state")
                    ts = w.apply(c.block, w.start(c.n_qubits))
                    return row(w.dense(ts, c.n_qubits))
                return f
            r = fn({"bra": {"of": "bra"}, "ket": {"of": "ket"}}, calc(c1, "bra"), None, calc(c2, "ket") if c2 is not None else None, None)
            got = r.a.reshape(-1)
            if len(got) != 1:
                return [holds("one value per pair", False)]
            # <ket|bra> = first amplitude of K'B|0>; as separate vectors for methods preparing both
            b, k = w.word((("B", False),), n), w.word((("K", False),), n)
            m = w.word((("B", False), ("K", True)), n)
            used = {x for x in got[0].free_symbols}
            split = any(sympy.re(x) in used for x in list(k))
            want = ov2(b, k) if split else sympy.expand(m[0] * sympy.conjugate(m[0]))
            e = sympy.expand(sympy.expand(got[0]) - want)
            return [vanish("squared overlap", [mod_unit(e, [v for v in w.vec.values()])]),
                    holds("the given circuits are unchanged", cb.block is B and ck.block is K and B.qubit_support == K.qubit_support == tuple(range(n)) and not B.dag and not K.dag)]


# ------------------------------------------------------------------ states to overlaps
for n, k in ((1, 1), (1, 2), (2, 3), (3, 1)):
    @obligation(P, f"overlap_exact, fidelity/{k} pairs of states of {n} qubits [fixed shape]", [F + "overlap_exact", F + "fidelity"])
    def _(n=n, k=k):
        a = [real_symbols(f"a{i}", 2 ** n) for i in range(k)]
        b = [real_symbols(f"b{i}", 2 ** n) for i in range(k)]
        t = lambda v: STensor(np.array(v, dtype=object))
        out = []
        for f in (OV.overlap_exact, OV.fidelity):
            r = f(t(a), t(b)).a.reshape(-1)
            out.append(holds("one per pair", len(r) == k))
            out.append(vanish("squared inner products", [sympy.expand(x - ov2(u, v)) for x, u, v in zip(r, a, b)]))
        return out


# ------------------------------------------------------------------ counts to overlaps
def tens(x, *a, **k):
    if isinstance(x, (list, tuple)) and any(isinstance(y, sympy.Basic) for y in x):
        return STensor(np.array(list(x), dtype=object))
    return torch.tensor(x, *a, **k)


def sym_counts(tag, ks, total):
    vs = [sympy.Symbol(f"{tag}{i}", positive=True) for i in range(len(ks) - 1)]
    return Counter(dict(zip(ks, vs + [total - sum(vs)])))


for n in (1, 2, 3):
    full = ["".join(x) for x in itertools.product("01", repeat=n)]
    for keys in [full, full[1:], full[:1] + full[-1:], full[::-1], full[-1:]]:
        if not keys:
            continue
        @obligation(P, f"overlap from counts/{n} qubits, outcomes {','.join(keys)} [fixed outcomes]", [F + "overlap_compute_uncompute", F + "overlap_swap_test", F + "overlap_hadamard_test", F + "_is_counter_list"])
        def _(n=n, keys=keys, full=full):
            shim_for(torch.tensor, tens)
            N = sympy.Symbol("N", positive=True)
            a, b, c = sym_counts("a", keys, N), sym_counts("b", full, N), sym_counts("c", keys[::-1], N)
            z = lambda x: sum(v for k, v in x.items() if k[0] == "0") / N
            out = []
            get = lambda r: list(r.a.reshape(-1)) if isinstance(r, STensor) else [sympy.nsimplify(float(x)) for x in r.reshape(-1)]
            for got, want in ((OV.overlap_compute_uncompute([a, b]), [x["0" * n] / N for x in (a, b)]), (OV.overlap_swap_test([a, b]), [2 * z(a) - 1, 2 * z(b) - 1]),
                              (OV.overlap_hadamard_test([a, b], [c, a]), [(2 * z(a) - 1) ** 2 + (2 * z(c) - 1) ** 2, (2 * z(b) - 1) ** 2 + (2 * z(a) - 1) ** 2])):
                g = get(got)
                out.append(holds("one per counter", len(g) == 2))
                out.append(vanish("value", [sympy.together(sympy.expand(x - y)) for x, y in zip(g, want)]))
            return out


LOG = sympy.Function("LOG")
def np_log(x):
    """the logarithm, by its argument in lowest terms"""
    if not isinstance(x, sympy.Basic):
        return np.log(x)
    x = sympy.cancel(sympy.nsimplify(x, rational=True))
    return sympy.Integer(0) if x == 1 else LOG(x)
def np_sum(x, *a, **k):
    return sum(x) if isinstance(x, list) and any(isinstance(y, sympy.Basic) for y in x) else np.sum(x, *a, **k)
def to_float(x=0.):
    return x if isinstance(x, sympy.Basic) else float(x)


for ks in (("00", "01"), ("00", "01", "11")):
    for kp, kq in itertools.product([list(s) for r in range(1, len(ks) + 1) for s in itertools.combinations(ks, r)], repeat=2):
        if set(kp) | set(kq) != set(ks):
            continue
        @obligation(P, f"js_divergence, norm_difference/{','.join(kp)} and {','.join(kq)} [fixed outcomes]", ["qadence.divergences.js_divergence", "qadence.divergences.shannon_entropy", "qadence.divergences.norm_difference", F + "overlap_jensen_shannon"])
        def _(kp=kp, kq=kq):
            shim_for(np.log, np_log), shim_for(np.sum, np_sum), shim_for(float, to_float), shim_for(torch.tensor, tens)
            def arr(x, *a, **k):
                return np.array(list(x), dtype=object) if any(isinstance(y, sympy.Basic) for y in x) else np.array(x, *a, **k)
            shim_for(np.array, arr)
            shim_for(np.linalg.norm, lambda v: sympy.sqrt(sum(x ** 2 for x in v)))
            p = Counter({k: sympy.Symbol(f"p{k}", positive=True) for k in kp})
            q = Counter({k: sympy.Symbol(f"q{k}", positive=True) for k in kq[::-1]})
            keep = dict(p), dict(q)
            A, B = sum(p.values()), sum(q.values())
            ks = sorted(set(kp) | set(kq))
            x, y = [[c.get(k, sympy.Integer(0)) / t for k in ks] for c, t in ((p, A), (q, B))]
            xlx = lambda v: v * np_log(v) if v != 0 else 0
            want = sum((xlx(a) + xlx(b)) / 2 - xlx((a + b) / 2) for a, b in zip(x, y))
            def same(label, got, w):
                e = sympy.expand(sympy.nsimplify(sympy.sympify(got) - w, rational=True))
                ls = sorted(e.atoms(LOG), key=str)
                fresh = {l: sympy.Symbol(f"log{i}", real=True) for i, l in enumerate(ls)}
                e = e.xreplace(fresh)
                if all(sympy.cancel(sympy.together(e.coeff(v, 1))) == 0 for v in fresh.values()) and sympy.cancel(sympy.together(e.xreplace({v: sympy.Integer(0) for v in fresh.values()}))) == 0:
                    return holds(label, True)
                back = {v: sympy.log(l.args[0]) for l, v in fresh.items()}
                e = e.xreplace(back)
                g = np.random.default_rng(3)
                for _ in range(5):
                    env = {s: sympy.Rational(int(g.integers(1, 50)), 7) for s in e.free_symbols}
                    v = complex(e.subs(env).evalf())
                    if abs(v) > 1e-9:
                        return holds(label, False, f"{env}: off by {v}")
                return holds(label, None)
            out = [same("Jensen-Shannon divergence", DV.js_divergence(p, q), want)]
            r = OV.overlap_jensen_shannon([p], [q]).a.reshape(-1)
            out += [holds("one value", len(r) == 1), same("one minus the divergence", r[0], 1 - want)]
            d = sympy.sympify(DV.norm_difference(p, q))
            out.append(vanish("squared norm difference", [sympy.together(d ** 2 - sum((a - b) ** 2 for a, b in zip(x, y)))]))
            out.append(holds("counters unchanged", (dict(p), dict(q)) == keep))
            return out


# ------------------------------------------------------------------ which values meet which
FORMS = {"both": ({"phi"}, {"psi"}), "bra": ({"phi"}, set()), "ket": (set(), {"psi"}), "none": (set(), set()), "same": ({"phi"}, {"phi"})}
STATES = {"": (None, None), ", initial states": ("<s|", "|t>"), ", initial state of the bra": ("<s|", None), ", initial state of the ket": (None, "|t>")}
for method, (said, given) in [(m, z) for m in (M.EXACT, M.COMPUTE_UNCOMPUTE, M.SWAP_TEST, M.HADAMARD_TEST) for z in STATES.items() if m == M.EXACT or z[0] == ""]:
    for form, nb, nk in [("both", 1, 1), ("both", 2, 1), ("both", 1, 3), ("both", 2, 3), ("both", 3, 2), ("bra", 1, 0), ("bra", 3, 0), ("ket", 0, 1), ("ket", 0, 2), ("none", 0, 0), ("same", 1, 1), ("same", 2, 2)]:
        if form == "same" and method != M.EXACT:
            continue
        @obligation(P, f"Overlap.forward/{method.value}: features in {form}, {nb} and {nk} values{said} [fixed batch]", [F + "Overlap.forward", F + "Overlap._process_param_values"])
        def _(method=method, form=form, nb=nb, nk=nk, given=given):
            fb, fk = FORMS[form]
            bn, kn = (list(fb) or [None])[0], (list(fk) or [None])[0]
            bv = [sympy.Symbol(f"x{i}", real=True) for i in range(nb)]
            kv = [sympy.Symbol(f"y{i}", real=True) for i in range(nk)]
            DIM = 2
            fun = {}
            def runner(names, tag):
                def run(values=None, *a, **k):
                    values = values or {}
                    state = a[0] if a else k.get("state")
                    if a[1:] or set(k) - {"state"}:
                        raise Unsupported("further arguments")
                    miss = [x for x in names if x not in values]
                    if miss:
                        return STensor(np.array([[sympy.Symbol("missing value", real=True)] * DIM], dtype=object))
                    cols = [values[x].a.reshape(-1) for x in sorted(names)]
                    size = {len(c) for c in cols} - {1} or {1}
                    if len(size) > 1:
                        return STensor(np.array([[sympy.Symbol("unequal batches", real=True)] * DIM], dtype=object))
                    s = size.pop()
                    return STensor(np.array([amp(f"{tag}{state}", tuple(c[i if len(c) > 1 else 0] for c in cols)) for i in range(s)], dtype=object))
                return run
            def amp(tag, at):
                return [sympy.Symbol(f"{tag}{at}[{c}]r", real=True) + sympy.I * sympy.Symbol(f"{tag}{at}[{c}]i", real=True) for c in range(DIM)]
            joint = method != M.EXACT
            names1 = fb | fk if joint else fb
            names2 = fb | fk if joint else fk
            post = {M.EXACT: OV.overlap_exact, M.COMPUTE_UNCOMPUTE: OV.overlap_compute_uncompute, M.SWAP_TEST: OV.overlap_swap_test, M.HADAMARD_TEST: OV.overlap_hadamard_test}[method]
            B, K = U("B", (0,)), U("K", (0,))
            shim_for(OV.reassign, relabel)
            fn, c1, c2 = OV._select_overlap_method(method, "pyqtorch", QuantumCircuit(1, B), QuantumCircuit(1, K))
            ket = SimpleNamespace(run=runner(names2, "k")) if c2 is not None else None
            self = SimpleNamespace(method=method, overlap_fn=fn, run=runner(names1, "b"), ket_model=ket, bra_feat_param_names=set(names1), ket_feat_param_names=set(names2) if c2 is not None else set())
            self._process_param_values = lambda *a, **k: OV.Overlap._process_param_values(self, *a, **k)
            t = lambda v: STensor(np.array(v, dtype=object))
            gb = {bn: t(bv)} if bn else {}
            gk = {kn: t(kv)} if kn else {}
            r = OV.Overlap.forward(self, gb, gk, *given) if given != (None, None) else OV.Overlap.forward(self, gb, gk)
            if form == "both":
                cells = [[((x,), (y,)) for y in kv] for x in bv]
            elif form == "same":
                cells = [[((x,), (y,))] for x, y in zip(bv, kv)]
            elif form == "none":
                cells = [[((), ())]]
            else:
                cells = [[((x,), ())] for x in bv] or [[((), (y,))] for y in kv]
            want = []
            for line in cells:
                w = []
                for x, y in line:
                    if joint:
                        at = tuple({**dict(zip([kn], y)), **dict(zip([bn], x))}[nm] for nm in sorted(fb | fk))
                        ab, ak = amp(f"b{given[0]}", at), amp(f"k{given[1]}", at)
                    else:
                        ab, ak = amp(f"b{given[0]}", x), amp(f"k{given[1]}", y)
                    T = lambda v: row(v)
                    w.append((post(T(ab), T(ak)) if method in (M.EXACT, M.HADAMARD_TEST) else post(T(ab))).a.reshape(-1)[0])
                want.append(w)
            want = np.array(want, dtype=object)
            if r.a.shape != want.shape:
                return [holds("one row per bra value, one column per ket value", False, f"{r.a.shape} instead of {want.shape}")]
            return [vanish("entry i, j belongs to bra value i and ket value j", [sympy.expand(a - b) for a, b in zip(r.a.reshape(-1), want.reshape(-1))]),
                    holds("the given values are unchanged", list(gb) == [bn] * len(gb) and list(gk) == [kn] * len(gk))]


# ------------------------------------------------------------------ sampling
for method, (said, given) in [(m, z) for m in (M.JENSEN_SHANNON, M.COMPUTE_UNCOMPUTE, M.SWAP_TEST, M.HADAMARD_TEST) for z in STATES.items() if m == M.JENSEN_SHANNON or z[0] == ""]:
    for form, nb, nk in [("both", 2, 3), ("both", 1, 1), ("bra", 2, 0), ("ket", 0, 2), ("none", 0, 0), ("same", 2, 2)]:
        if form == "same" and method != M.JENSEN_SHANNON:
            continue
        @obligation(P, f"Overlap.forward with shots/{method.value}: features in {form}, {nb} and {nk} values{said} [fixed batch]", [F + "Overlap.forward", F + "Overlap._process_param_values"])
        def _(method=method, form=form, nb=nb, nk=nk, given=given):
            shim_for(torch.tensor, tens)
            shim_for(DV.js_divergence, lambda p, q: sympy.Function("JSD", real=True)(*[c[k] for c in (p, q) for k in ("0", "1")]))
            fb, fk = FORMS[form]
            bn, kn = (list(fb) or [None])[0], (list(fk) or [None])[0]
            bv = [sympy.Symbol(f"x{i}", real=True) for i in range(nb)]
            kv = [sympy.Symbol(f"y{i}", real=True) for i in range(nk)]
            SHOTS = 137
            N = sympy.Symbol("N", positive=True)
            def counts(tag, state, at):
                c = sympy.Symbol(f"{tag}{state}{at}", positive=True)
                return Counter({"0": c, "1": N - c})
            calls = []
            def sampler(names, tag):
                def sample(values=None, n_shots=1000, state=None, *a, **k):
                    if a or k:
                        raise Unsupported("further arguments")
                    calls.append(n_shots)
                    values = values or {}
                    if [x for x in names if x not in values]:
                        return [counts("missing value", state, ())]
                    cols = [values[x].a.reshape(-1) for x in sorted(names)]
                    size = {len(c) for c in cols} - {1} or {1}
                    if len(size) > 1:
                        return [counts("unequal batches", state, ())]
                    return [counts(tag, state, tuple(c[i if len(c) > 1 else 0] for c in cols)) for i in range(size.pop())]
                return sample
            joint = method != M.JENSEN_SHANNON
            names1 = fb | fk if joint else fb
            names2 = fb | fk if joint else fk
            B, K = U("B", (0,)), U("K", (0,))
            shim_for(OV.reassign, relabel)
            fn, c1, c2 = OV._select_overlap_method(method, "pyqtorch", QuantumCircuit(1, B), QuantumCircuit(1, K))
            ket = SimpleNamespace(sample=sampler(names2, "k")) if c2 is not None else None
            self = SimpleNamespace(method=method, overlap_fn=fn, sample=sampler(names1, "b"), ket_model=ket, bra_feat_param_names=set(names1), ket_feat_param_names=set(names2) if c2 is not None else set())
            self._process_param_values = lambda *a, **k: OV.Overlap._process_param_values(self, *a, **k)
            t = lambda v: STensor(np.array(v, dtype=object))
            gb = {bn: t(bv)} if bn else {}
            gk = {kn: t(kv)} if kn else {}
            r = OV.Overlap.forward(self, gb, gk, *given, n_shots=SHOTS)
            cells = {"both": [[((x,), (y,)) for y in kv] for x in bv], "same": [[((x,), (y,))] for x, y in zip(bv, kv)], "none": [[((), ())]]}.get(form) or [[((x,), ())] for x in bv] or [[((), (y,))] for y in kv]
            want = []
            for line in cells:
                w = []
                for x, y in line:
                    if joint:
                        x = y = tuple({**dict(zip([kn], y)), **dict(zip([bn], x))}[nm] for nm in sorted(fb | fk))
                    p, q = [counts("b", given[0], x)], [counts("k", given[1], y)]
                    v = {M.JENSEN_SHANNON: lambda: OV.overlap_jensen_shannon(p, q), M.COMPUTE_UNCOMPUTE: lambda: OV.overlap_compute_uncompute(p), M.SWAP_TEST: lambda: OV.overlap_swap_test(p), M.HADAMARD_TEST: lambda: OV.overlap_hadamard_test(p, q)}[method]()
                    w.append(v.a.reshape(-1)[0])
                want.append(w)
            want = np.array(want, dtype=object)
            if r.a.shape != want.shape:
                return [holds("one row per bra value, one column per ket value", False, f"{r.a.shape} instead of {want.shape}")]
            return [vanish("entry i, j belongs to bra value i and ket value j", [sympy.expand(a - b) for a, b in zip(r.a.reshape(-1), want.reshape(-1))]),
                    holds("as many shots as given", set(calls) == {SHOTS}, calls)]

"""C14: decompositions and the QFT implement the stated unitary."""
from pyvc.kit import *
from pyvc import seqs
from pyvc.seqs import SList, Base, Piece, raw_piece, same, val_eq
import itertools
import numpy as np
import sympy
import torch
import z3
from qadence import operations as O
from qadence.blocks import chain, kron, add, AddBlock, ChainBlock, KronBlock
from qadence.types import LTSOrder, Strategy
DC = mod("qadence.decompose")
DG = mod("qadence.transpile.digitalize")
QF = mod("qadence.constructors.qft")
HE = mod("qadence.operations.ham_evo")

P = "C14"
ASSUMES = ["leaf matrices of H, RX, RZ, RY, PHASE, CNOT, CPHASE, SWAP are the textbook ones (C08)", "unroll_block_with_scaling lists terms whose weighted sum is the generator, in order (C16)",
           "Pauli words: discharged for every word of up to three factors on three qubits in every order and with gaps, for arbitrary time and coefficient; longer words only at run time",
           "QFT: the path-sum identity amplitude(x -> y) = 2^(-n/2) exp(i sum_l y_l (pi x_l + sum_(j>l) angle(l, j) x_j)) for a layered circuit of H and controlled phases is a mathematical lemma applied to the proved structure",
           "product formulas: order of accuracy from the composition theorems (symmetric step: second order; weights with sum 1 and cubes summing to 0: fourth order) applied to the proved step structure",
           "digital_decomposition: the requested order is only honoured up to the known finding (first order is always used)"]
TRUSTED = ["z3", "sympy", "exact integer matrices (numpy, entries of modulus < 2^20)"]


def shim_for(fn, new):
    old = VC.shims.get(id(fn))
    VC.shim(fn, new)
    VC.ex.undo.append(lambda: VC.shims.__setitem__(id(fn), old) if old is not None else VC.shims.pop(id(fn), None))


def ob(name, funcs, **kw):
    def d(fn):
        def g():
            poly.reset()
            return fn()
        obligation(P, name, funcs, **kw)(g)
        return fn
    return d


# ---------------------------------------------------------------- general rotation
@ob("general rotation", ["qadence.operations.parametric.U.digital_decomposition"])
def _():
    a, b, c = (real_param(x) for x in "abc")
    out = []
    for exprs in ((a, b, c), (2 * a + b, a * c, -c)):
        u = O.U(3, *exprs)
        d = u.digital_decomposition()
        m = sympy.eye(2)
        for g in d.blocks:
            m = leaf.matrix(g) * m
        out.append(holds("on the qubit of the gate", all(tuple(g.qubit_support) == (3,) for g in d.blocks)))
        out.append(vanish(f"U{exprs} is the product of its rotations", list(m - leaf.matrix(u))))
    return out


# ---------------------------------------------------------------- Pauli exponentials
PM = {"X": np.array([[0, 1], [1, 0]], complex), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1]).astype(complex), "I": np.eye(2, dtype=complex)}


def place(m, qs, n):
    k = len(qs)
    full = np.eye(2 ** n, dtype=complex).reshape((2,) * (2 * n))
    r = np.tensordot(np.asarray(m, complex).reshape((2,) * (2 * k)), full, axes=(list(range(k, 2 * k)), list(qs)))
    rest = [i for i in range(n) if i not in qs]
    order = [0] * n
    for pos, q in enumerate(list(qs) + rest):
        order[q] = pos
    return r.transpose(order + list(range(n, 2 * n))).reshape(2 ** n, 2 ** n)


def fixed(g):
    """(integer matrix, number of factors 1/sqrt 2) of a constant Clifford gate"""
    k = type(g).__name__
    if k == "H":
        return np.array([[1, 1], [1, -1]], complex), 1
    if k == "CNOT":
        return np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], complex), 0
    if k in PM:
        return PM[k], 0
    if k in ("RX", "RY", "RZ"):
        (e,) = g.parameters.expressions()
        if not e.is_number:
            return None
        q = float(e) / (np.pi / 2)
        if abs(abs(q) - 1) > 1e-12:
            return None
        return np.eye(2) - (1j if q > 0 else -1j) * PM[k[1]], 1
    return None


def word_claims(gates, w, n, angle):
    """the gates multiply to exp(-i angle P_w): one RZ between two constant Clifford parts"""
    par = [i for i, g in enumerate(gates) if fixed(g) is None]
    if len(par) != 1 or type(gates[par[0]]).__name__ != "RZ":
        return [Claim("one rotation", "unknown", repr(gates)[:300])]
    def prod(gs):
        m, k = np.eye(2 ** n, dtype=complex), 0
        for g in gs:
            f, d = fixed(g)
            m, k = place(f, tuple(g.qubit_support), n) @ m, k + d
        return m, k
    (A, ka), (B, kb) = prod(gates[:par[0]]), prod(gates[par[0] + 1:])
    rz = gates[par[0]]
    (e,) = rz.parameters.expressions()
    if (ka + kb) % 2:
        return [Claim("normalisation", "unknown")]
    s = 2 ** ((ka + kb) // 2)
    want = np.eye(2 ** n, dtype=complex)
    for q, p in w:
        want = place(PM[p], (q,), n) @ want
    Zq = place(PM["Z"], tuple(rz.qubit_support), n)
    return [holds("the basis changes cancel", np.array_equal(B @ A, s * np.eye(2 ** n))), holds("the rotation axis is the Pauli word", np.array_equal(B @ Zq @ A, s * want), f"{w}"),
            vanish("the angle is twice the time times the coefficient", [leaf.real(e) / 2 - angle])]


def diag_claims(gates, w, n, angle):
    """words of Z, N and I: the phase of every basis state is -angle times the eigenvalue (linear arithmetic)"""
    out = []
    for x in range(2 ** n):
        bits = [(x >> (n - 1 - q)) & 1 for q in range(n)]
        b, ph = list(bits), sympy.Integer(0)
        for g in gates:
            k, qs = type(g).__name__, tuple(g.qubit_support)
            if k == "CNOT":
                b[qs[1]] ^= b[qs[0]]
            elif k == "X":
                b[qs[0]] ^= 1
            elif k in ("RZ", "PHASE"):
                e = leaf.real(list(g.parameters.expressions())[0])
                ph += (e / 2 if b[qs[0]] else -e / 2) if k == "RZ" else (e if b[qs[0]] else 0)
            else:
                return [Claim("diagonal gates", "unknown", k)]
        ev = sympy.Integer(1)
        for q, p in w:
            ev *= (1 - 2 * bits[q]) if p == "Z" else bits[q] if p == "N" else 1
        if b != bits:
            return [holds(f"state {x} returns", False)]
        out.append(ph + angle * ev)
    return [vanish("every basis state gets its phase", out)]


def words(letters, kmax, qubits=(0, 1, 2)):
    for k in range(1, kmax + 1):
        for qs in itertools.permutations(qubits, k):
            for ps in itertools.product(letters, repeat=k):
                yield list(zip(qs, ps))


def wblock(w, nest=False):
    bs = [getattr(O, p)(q) for q, p in w]
    if len(bs) == 1:
        return bs[0]
    return kron(kron(*bs[:2]), *bs[2:]) if nest else kron(*bs)


FD = ["qadence.decompose.decompose_pauli_exp", "qadence.decompose.change_to_z_basis"]


def decompose_words(name, ws, check, nest=False):
    def f():
        t, s = real_param("t"), real_param("s")
        out = []
        for w in ws:
            b = wblock(w, nest)
            gates = list(DC.decompose_pauli_exp([(b, s)], t))
            cs = check(gates, [x for x in w if x[1] != "I"] if check is word_claims else w, 3, leaf.real(t) * leaf.real(s))
            bad = [c for c in cs if c.status != "proved"]
            if bad:
                c = bad[0]
                return [Claim(f"{w}: {c.label}", c.status, c.detail, c.backend)]
        return [Claim(f"{len(ws)} words", "proved", None, "exact matrices")]
    obligation(P, name, FD)(f)


_ws = list(words("XYZ", 3))
for _k in (1, 2, 3):
    _sel = [w for w in _ws if len(w) == _k]
    for _c in range(0, len(_sel), 54):
        decompose_words(f"exponential of a Pauli word/{_k} factors/{_c // 54}", _sel[_c:_c + 54], word_claims)
decompose_words("exponential of a Pauli word/nested product", [w for w in _ws if len(w) == 3][::5], word_claims, True)
decompose_words("exponential of a Pauli word/with identities", [w for w in words("XYZI", 3) if any(p == "I" for _, p in w) and any(p != "I" for _, p in w)][::4], word_claims)
decompose_words("exponential of a diagonal word", [w for w in words("ZNI", 2)], diag_claims)
decompose_words("exponential of a diagonal word/3 factors", [w for w in words("ZNI", 3) if len(w) == 3][::5], diag_claims)


@ob("exponential of a scaled factor", FD)
def _():
    t, s, r = (real_param(x) for x in "tsr")
    w = [(0, "X"), (2, "Y")]
    out = []
    for b in (kron(r * O.X(0), O.Y(2)), kron(O.X(0), r * O.Y(2)), r * kron(O.X(0), O.Y(2))):
        out += word_claims(list(DC.decompose_pauli_exp([(b, s)], t)), w, 3, leaf.real(t) * leaf.real(s) * leaf.real(r))
    return out


class Gates(list):
    pass


@ob("a list of terms is exponentiated term by term, in order", FD)
def _():
    t = real_param("t")
    ws = [[(0, "X"), (2, "Y")], [(1, "Z")], [(2, "Y"), (1, "X"), (0, "Z")], [(0, "Y")]]
    ss = [real_param(f"s{i}") for i in range(4)]
    out = []
    for k in (2, 3, 4):
        for sel in itertools.permutations(range(4), k):
            if k == 4 and sel[0] != 2:
                continue
            gates = list(DC.decompose_pauli_exp([(wblock(ws[i]), ss[i]) for i in sel], t))
            parts = [list(DC.decompose_pauli_exp([(wblock(ws[i]), ss[i])], t)) for i in sel]
            out.append(gates == [g for p in parts for g in p])
    return [holds("concatenation of the single-term sequences", all(out))]


@ob("a list of terms of any length", FD)
def _():
    t = real_param("t")
    b = Base("terms", lambda j: (wblock([(0, "X"), (2, "Y")]), sympy.Symbol(f"s[{j}]", real=True)))
    got = DC.decompose_pauli_exp(SList([raw_piece(b)]), t)
    if not isinstance(got, SList):
        raise Unsupported("result")
    its = [p for p in got.items]
    if len(its) != 1 or not isinstance(its[0], Piece) or its[0].base is not b or len(its[0].cases) != 1:
        return [Claim("one group of gates per term", "unknown", repr(got)[:300])]
    v = its[0].cases[0][1]
    gates = list(v.items) if isinstance(v, (seqs.Flat, SList)) else list(v)
    return word_claims(gates, [(0, "X"), (2, "Y")], 3, leaf.real(t) * sympy.Symbol(f"s[{b.idx}]", real=True))


# ---------------------------------------------------------------- product formulas
class Terms:
    """an arbitrary non-empty list of terms"""
    def __init__(self, nm="terms", part="all", dir=1):
        self.nm, self.part, self.dir = nm, part, dir
    def __vc_isinstance__(self, T):
        return any(t in (list, object) for t in (T if isinstance(T, tuple) else (T,)))
    def __vc_type__(self):
        return list
    def __getitem__(self, k):
        if self.part == "all" and self.dir == 1:
            if isinstance(k, slice):
                if (k.start, k.stop, k.step) in ((None, -1, None), (None, -1, 1), (0, -1, None), (0, -1, 1)):
                    return Terms(self.nm, "init")
                if (k.start, k.stop, k.step) == (-2, None, -1):
                    return Terms(self.nm, "init", -1)
                if (k.start, k.stop, k.step) == (-1, None, None):
                    return [self[-1]]
                if (k.start, k.stop, k.step) == (None, None, None):
                    return Terms(self.nm)
            elif k == -1:
                return ("last", self.nm)
        if isinstance(k, slice) and (k.start, k.stop, k.step) == (None, None, -1):
            return Terms(self.nm, self.part, -self.dir)
        raise Unsupported("part of a term list")
    def copy(self):
        return Terms(self.nm, self.part, self.dir)
    __copy__ = copy
    def __vc_reversed__(self):
        return Terms(self.nm, self.part, -self.dir)
    def __iter__(self):
        raise Unsupported("iterating a term list")


class E:
    """the gates of exp(-i tau term) for the terms of a list, in its order"""
    def __init__(self, part, dir, tau):
        self.part, self.dir, self.tau = part, dir, tau
    def __repr__(self):
        return f"E({self.part},{self.dir},{self.tau})"


def c_dpe(bl, tau, *a, **k):
    if isinstance(bl, Terms):
        return [E(bl.part, bl.dir, sympy.sympify(tau))]
    if isinstance(bl, list) and len(bl) == 1 and isinstance(bl[0], tuple) and bl[0][0] == "last":
        return [E("last", 1, sympy.sympify(tau))]
    raise Unsupported("exponential of other terms")


FL = ["qadence.decompose.lie_trotter_suzuki", "qadence.decompose.time_discretisation"]


def seq(order, listed):
    shim_for(DC.decompose_pauli_exp, c_dpe)
    t = real_param("t")
    if listed:
        b = Terms()
    else:
        b = wblock([(0, "X")])
        shim_for(DC.unroll_block_with_scaling, lambda x, *a, **k: Terms() if x is b else (_ for _ in ()).throw(Unsupported("other block")))
    r = list(DC.lie_trotter_suzuki(b, t, order)) if order is not None else list(DC.lie_trotter_suzuki(b, t))
    if not all(isinstance(x, E) for x in r):
        raise Unsupported("steps")
    return r, t


def zero(label, exprs):
    """numeric coefficients are floats: the linear combination of t vanishes up to rounding"""
    bad = []
    for e in exprs:
        e = sympy.expand(sympy.sympify(e))
        if any(abs(complex(c)) > 1e-12 for c in e.as_coefficients_dict().values() if c.is_number) if e != 0 else False:
            bad.append(str(e)[:200])
    return Claim(label, "refuted" if bad else "proved", bad[:1] or None, "sympy")


for _listed in (True, False):
    @ob(f"first order/{'list' if _listed else 'block'}", FL)
    def _(listed=_listed):
        r, t = seq(LTSOrder.BASIC, listed)
        return [holds("one pass over all terms in order", len(r) == 1 and r[0].part == "all" and r[0].dir == 1, repr(r)), vanish("the full time", [r[0].tau - t])]

    @ob(f"first order is the default/{'list' if _listed else 'block'}", FL)
    def _(listed=_listed):
        r, t = seq(None, listed)
        return [holds("one pass over all terms in order", len(r) == 1 and r[0].part == "all" and r[0].dir == 1, repr(r)), vanish("the full time", [r[0].tau - t])]

    for _order in (LTSOrder.ST2, LTSOrder.ST4):
        @ob(f"{_order.value}/{'list' if _listed else 'block'}", FL)
        def _(listed=_listed, order=_order):
            r, t = seq(order, listed)
            share = {"init": sympy.Integer(0), "last": sympy.Integer(0)}
            for x in r:
                for p in (("init", "last") if x.part == "all" else (x.part,)):
                    share[p] = share[p] + x.tau
            out = [zero("every term evolves for the full time", [share["init"] - t, share["last"] - t])]
            mirror = [(x.part, -x.dir if x.part != "last" else 1, x.tau) for x in reversed(r)]
            pal = len(r) % 2 == 1 or True
            ok = all(a.part == m[0] and a.dir == m[1] for a, m in zip(r, mirror))
            if not ok and not any(x.part == "all" for x in r):
                out.append(holds("the steps are time symmetric", False, f"{r[:6]}"))
            elif not ok:
                out.append(Claim("the steps are time symmetric", "unknown"))
            else:
                out.append(zero("the steps are time symmetric", [a.tau - m[2] for a, m in zip(r, mirror)]))
            steps = [x.tau for x in r if x.part == "last"]
            if order == LTSOrder.ST4:
                c = [complex(sympy.expand(x / t)) for x in steps]
                v = abs(sum(z ** 3 for z in c))
                out.append(holds("the cubes of the step weights cancel (fourth order)", v < 1e-12, str(v)))
            return out


# ---------------------------------------------------------------- digital_decomposition and digitalize
@ob("evolution of a Pauli Hamiltonian", ["qadence.operations.ham_evo.HamEvo.digital_decomposition"])
def _():
    t = real_param("t")
    out = []
    for order in (LTSOrder.BASIC, LTSOrder.ST2, LTSOrder.ST4, None):
        for commute in (True, False, TypeError):
            g = add(O.X(0), O.Z(2))
            h = O.HamEvo(g, 2 * t)
            calls = []
            def lts(*a, **k):
                import inspect
                ba = inspect.signature(DC.lie_trotter_suzuki).bind(*a, **k); ba.apply_defaults()
                calls.append(ba.arguments)
                return [O.X(1), O.RZ(2, t), O.Y(0)]
            shim_for(HE.lie_trotter_suzuki, lts)
            shim_for(HE.block_is_qubit_hamiltonian, lambda b: True)
            def com(b):
                if commute is TypeError:
                    raise TypeError("not commuting")
                return commute
            shim_for(HE.block_is_commuting_hamiltonian, com)
            r = h.digital_decomposition() if order is None else h.digital_decomposition(order)
            out += [holds("the gates of the product formula in order", isinstance(r, ChainBlock) and tuple(r.blocks) == (O.X(1), O.RZ(2, t), O.Y(0)), repr(r)),
                    holds("called once", len(calls) == 1)]
            c = calls[0]
            out += [holds("with the generator", c["block"] is h.generator or c["block"] == h.generator), holds("with the time of the evolution", sympy.simplify(sympy.sympify(c["parameter"]) - 2 * t) == 0, str(c["parameter"]))]
            want = {LTSOrder.BASIC} | ({order or LTSOrder.ST4})
            out.append(holds("with the requested or the first order", c["order"] in want, str(c["order"])))
            if commute is TypeError:
                out.append(holds("the requested order when terms may not commute", c["order"] == (order or LTSOrder.ST4), str(c["order"])))
    return out


@ob("evolution of a non-Pauli generator is rejected", ["qadence.operations.ham_evo.HamEvo.digital_decomposition"])
def _():
    shim_for(HE.block_is_qubit_hamiltonian, lambda b: False)
    try:
        O.HamEvo(O.H(0), 0.3).digital_decomposition()
    except (NotImplementedError, AssertionError):
        return [holds("raises", True)]
    return [holds("raises", False, "accepted")]


def c_digit(x, *a, **k):
    if isinstance(x, Opaque):
        return Opaque(x.den, x.sup, DIGITAL, "digitalized")
    return DG.digitalize(x, *a, **k)


def build(K, shape):
    if shape == "seg":
        return mk(K, new_seg(kron=K is KronBlock)[0])
    A, B = new_opaque("A"), new_opaque("B")
    s, d = new_seg(kron=K is KronBlock)
    if K is KronBlock:
        FACTS.add(*[list(x)[0] for x in (A.sup, B.sup)])
        for x in (A, B):
            FACTS.add(list(x.sup)[0], ("S", d)); FACTS.add(list(x.sup)[0], ("es", d))
    return mk(K, A, s, B)


def digit_obs():
    for K in (ChainBlock, KronBlock, AddBlock):
        for shape in ("seg", "ends"):
            def f(K=K, shape=shape):
                poly.reset()
                shim_for(DG.digitalize, c_digit)
                b = build(K, shape)
                before, want = snap(b), den(b)
                r = DG.digitalize.dispatch(K)(b, LTSOrder.BASIC)
                return [op_eq("same operator", den(r), want), holds("same kind of block", type(r) is K), unchanged("input unchanged", before, b)]
            obligation(P, f"digitalize/{K.__name__}/{shape}", ["qadence.transpile.digitalize.digitalize"])(f)


@ob("digitalize/leaves", ["qadence.transpile.digitalize.digitalize"])
def _():
    t = real_param("t")
    out = []
    h = O.HamEvo(add(O.X(0), O.Z(2)), t)
    calls = []
    old = O.HamEvo.digital_decomposition
    O.HamEvo.digital_decomposition = lambda self, approximation=LTSOrder.ST4: calls.append((self, approximation)) or chain(O.X(0))
    VC.ex.undo.append(lambda: setattr(O.HamEvo, "digital_decomposition", old))
    d = DG.digitalize.dispatch(type(h))
    for o in LTSOrder:
        r = d(h, o)
        out += [holds("an evolution is replaced by its decomposition", r == chain(O.X(0)) and calls[-1][0] is h), holds("with the requested approximation", calls[-1][1] == o)]
    u = O.U(1, t, 2 * t, 0.3)
    r = DG.digitalize.dispatch(O.U)(u, LTSOrder.BASIC)
    m = sympy.eye(2)
    for g in r.blocks:
        m = leaf.matrix(g) * m
    out.append(vanish("a general rotation by its rotations", list(m - leaf.matrix(u))))
    for b in (O.X(0), O.RX(1, t), O.CNOT(0, 2), O.CRZ(1, 0, t), O.SWAP(0, 1), 2 * O.RX(0, t)):
        r = DG.digitalize.dispatch(type(b))(b, LTSOrder.BASIC)
        out.append(holds(f"{type(b).__name__} is kept", r is b or r == b))
    return out


# ---------------------------------------------------------------- quantum Fourier transform (any width)
PI2 = 2 * float(np.pi)


class Pow:
    """c * 2**(-e) for a symbolic integer e"""
    def __init__(self, c, e):
        self.c, self.e = c, e
    def __mul__(self, k):
        if isinstance(k, (int, float, complex)) and not isinstance(k, bool):
            return Pow(self.c * k, self.e)
        if isinstance(k, Pow):
            return Pow(self.c * k.c, z3.simplify(self.e + k.e))
        raise Unsupported("power")
    __rmul__ = __mul__
    def __truediv__(self, k):
        if isinstance(k, (int, float, complex)):
            return Pow(self.c / k, self.e)
        if isinstance(k, Pow):
            return Pow(self.c / k.c, z3.simplify(self.e - k.e))
        raise Unsupported("power")
    def __rtruediv__(self, k):
        if isinstance(k, (int, float, complex)):
            return Pow(k / self.c, z3.simplify(-self.e))
        raise Unsupported("power")
    def __neg__(self):
        return Pow(-self.c, self.e)
    def __repr__(self):
        return f"{self.c}*2^-({self.e})"
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{n} of a power")


class Sup:
    """an arbitrary tuple of n distinct qubits"""
    def __init__(self, n, rev=False):
        self.n, self.rev = n, rev
    def __vc_len__(self):
        return SNum(self.n)
    def __getitem__(self, k):
        if isinstance(k, slice):
            if (k.start, k.stop, k.step) == (None, None, -1):
                return Sup(self.n, not self.rev)
            if (k.start, k.stop, k.step) == (None, None, None):
                return self
            raise Unsupported("slice of the support")
        z = k.z if isinstance(k, SNum) else z3.IntVal(k)
        if not decide(z3.And(z >= -self.n, z < self.n)):
            raise IndexError("qubit index out of range")
        z = z if not isinstance(k, int) or k >= 0 else self.n + z
        if not decide(z >= 0):
            z = self.n + z
        return Qb(z3.simplify(self.n - 1 - z if self.rev else z))
    def __vc_reversed__(self):
        return Sup(self.n, not self.rev)
    def __iter__(self):
        raise Unsupported("iterating the support")


class Qb:
    def __init__(self, z):
        self.z = z
    def __repr__(self):
        return f"q[{self.z}]"
    def __vc_same__(self, o):
        return isinstance(o, Qb) and (z3.eq(self.z, o.z) or valid(self.z == o.z))
    def __vc_inst__(self, i, j):
        return Qb(z3.substitute(self.z, (i, j)))


def valid(f, *facts):
    s = z3.Solver(); s.set("timeout", 5000)
    for x in list(VC.ex.pc) + list(facts):
        s.add(x)
    s.add(z3.Not(f))
    return s.check() == z3.unsat


class G:
    def __init__(self, nm, *qs, angle=None):
        self.nm, self.qs, self.angle = nm, qs, angle
    def __repr__(self):
        return f"{self.nm}{self.qs}{self.angle if self.angle is not None else ''}"


class Ch:
    def __init__(self, items, tag=None):
        self.items = items
        self.tag = tag
    def __repr__(self):
        return f"Ch{self.items}"


class Lay:
    def __init__(self, n, support, layer, inverse):
        self.n, self.support, self.layer, self.inverse = n, support, layer, inverse


def c_chain(*a):
    out = []
    for x in a:
        if isinstance(x, SList):
            out += list(x.items)
        elif type(x) is Seg:
            out.append(x.info["piece"])
        elif isinstance(x, (list, tuple)):
            out += [y.info["piece"] if type(y) is Seg else y for y in x]
        elif hasattr(x, "__next__"):
            out += list(x)
        else:
            out.append(x)
    return Ch(out)


def c_tag(b, tag=None):
    b.tag = tag
    return b


def qsetup(lo=1):
    n = sint("n", lo)
    shim_for(QF.chain, c_chain)
    shim_for(QF.tag, c_tag)
    shim_for(QF.H, lambda q: G("H", q))
    shim_for(QF.SWAP, lambda a, b: G("SWAP", a, b))
    shim_for(QF.CPHASE, lambda c, t, p: G("CPHASE", c, t, angle=p))
    old = VC.shims.get(id(torch.tensor))
    shim_for(torch.tensor, lambda x, *a, **k: x if isinstance(x, Pow) else (old or torch.tensor)(x, *a, **k))
    return n


from pyvc.tensors import Pow2 as _P2


def _pow_from(p):
    return Pow(1.0, z3.simplify(-p.n.z))


_P2.__rtruediv__ = lambda self, k: k / _pow_from(self)
_P2.__mul__ = lambda self, k: _pow_from(self) * k
_P2.__rmul__ = _P2.__mul__


FQ = ["qadence.constructors.qft.qft", "qadence.constructors.qft._qft_layer_digital"]


def same_q(a, z, *facts):
    return isinstance(a, Qb) and valid(a.z == z, *facts)


for _inv in (False, True):
    @ob(f"QFT layer of any width/inverse={_inv}", FQ)
    def _(inverse=_inv):
        n = qsetup()
        l = fresh_int("l", 0)
        assume(l.z < n.z)
        r = QF._qft_layer_digital(n_qubits=n, support=Sup(n.z), layer=l, inverse=inverse)
        if not isinstance(r, Ch):
            raise Unsupported("layer")
        its = [x for x in r.items if not (isinstance(x, Piece) and valid(x.base.n == 0))]
        hs = [x for x in its if isinstance(x, G)]
        ps = [x for x in its if isinstance(x, Piece)]
        if len(hs) != 1 or len(ps) > 1:
            return [Claim("one Hadamard and one run of controlled phases", "unknown", repr(its)[:300])]
        out = [holds("Hadamard on the qubit of the layer", hs[0].nm == "H" and same_q(hs[0].qs[0], l.z), repr(hs))]
        if not ps:
            return out + [valid_here("no phases only for the last layer", l.z == n.z - 1)]
        p = ps[0]
        out.append(holds("Hadamard " + ("after" if inverse else "before") + " the phases", (its[0] is p) == inverse))
        # the run visits every j in layer+1 .. n-1 exactly once
        import math
        dom = [p.base.idx >= 0, p.base.idx < p.base.n] + list(p.base.facts)
        out.append(valid_here("as many phases as later qubits", p.base.n == n.z - 1 - l.z))
        whole = seqs._total(p) or valid(z3.Implies(z3.And(*dom), z3.Or(*[c for c, _ in p.cases])))
        out.append(holds("a phase for each", True if whole else None, repr(p.cases)[:300]))
        j = None
        for cond, v in p.cases:
            if not isinstance(v, G) or v.nm != "CPHASE":
                return out + [Claim("controlled phases", "unknown", repr(p.cases)[:300])]
            ang = v.angle
            if isinstance(ang, (int, float, complex)) or (isinstance(ang, torch.Tensor) and ang.numel() == 1):
                ang = Pow(complex(ang), z3.IntVal(0))
            if not isinstance(ang, Pow):
                return out + [Claim("controlled phases", "unknown", repr(p.cases)[:300])]
            dm = dom + [cond]
            tgt, ctl = (v.qs[1], v.qs[0]) if same_q(v.qs[1], l.z, *dm) else (v.qs[0], v.qs[1])
            out.append(holds("one end is the qubit of the layer", same_q(tgt, l.z, *dm)))
            out.append(valid_here("the other end is a later qubit", z3.Implies(z3.And(*dm), z3.And(ctl.z > l.z, ctl.z < n.z))))
            j = ctl.z if j is None else z3.If(cond, ctl.z, j)
            # angle(l, j) = +-2 pi 2^(l - j - 1), up to a common factor of two in the exponent
            c = complex(ang.c)
            k2 = math.log2(abs(c) / PI2) if c != 0 else None
            okc = k2 is not None and abs(k2 - round(k2)) < 1e-12 and abs(c.imag) < 1e-12 and (c.real > 0) == (not inverse)
            out.append(holds("the sign of the angle", okc, str(ang)))
            if okc:
                out.append(valid_here("angle 2 pi / 2^(j - layer + 1)", z3.Implies(z3.And(*dm), ang.e - round(k2) == ctl.z - l.z + 1)))
        k = z3.Int("k!")
        inj = z3.Implies(z3.And(*[z3.substitute(f, (p.base.idx, k)) for f in dom], *dom, z3.substitute(j, (p.base.idx, k)) == j), k == p.base.idx)
        out.append(valid_here("each exactly once", inj))
        return out


def index_of(base, z, *facts):
    return z


def layer_shims():
    def mk_(fn):
        def f(*a, **k):
            import inspect
            b = inspect.signature(fn).bind(*a, **k); b.apply_defaults()
            g = b.arguments
            return Lay(g["n_qubits"], g["support"], g["layer"], g["inverse"])
        return f
    shim_for(QF._qft_layer_digital, mk_(QF._qft_layer_digital))


for _inv, _rev, _sw in itertools.product((False, True), repeat=3):
    @ob(f"QFT of any width/inverse={_inv}, reverse_in={_rev}, swaps_out={_sw}", FQ)
    def _(inverse=_inv, rev=_rev, sw=_sw):
        n = qsetup()
        layer_shims()
        r = QF.qft(n, support=Sup(n.z), inverse=inverse, reverse_in=rev, swaps_out=sw)
        if not isinstance(r, Ch):
            raise Unsupported("circuit")
        def flat(c):
            o = []
            for x in c.items:
                o += flat(x) if isinstance(x, Ch) else [x]
            return o
        its = [x for x in flat(r) if not (isinstance(x, Piece) and valid(x.base.n == 0))]
        if not all(isinstance(x, Piece) and len(x.cases) == 1 for x in its):
            return [Claim("runs of layers and swaps", "unknown", repr(its)[:300])]
        lay = [x for x in its if isinstance(x.cases[0][1], Lay)]
        sws = [x for x in its if isinstance(x.cases[0][1], G)]
        if len(lay) != 1 or len(sws) > 1 or len(lay) + len(sws) != len(its):
            return [Claim("runs of layers and swaps", "unknown", repr(its)[:300])]
        L, v = lay[0], lay[0].cases[0][1]
        i = L.base.idx
        dom = [i >= 0, i < L.base.n] + list(L.base.facts)
        out = [valid_here("one layer per qubit", L.base.n == n.z), valid_here("layers in order", z3.Implies(z3.And(*dom), zl(v.layer) == (n.z - 1 - i if inverse else i))),
               holds("direction", bool(v.inverse) == inverse), holds("on the given qubits", isinstance(v.support, Sup) and v.support.rev == rev), valid_here("of the given width", zl(v.n) == n.z)]
        if not sw:
            return out + [holds("no swaps", not sws)]
        if not sws:
            return out + [valid_here("no swaps only on one qubit", n.z <= 1)]
        s, g = sws[0], sws[0].cases[0][1]
        out.append(holds("swaps at the right end", (its[0] is s) == inverse))
        k = s.base.idx
        dom = [k >= 0, k < s.base.n] + list(s.base.facts)
        a, b = g.qs
        out += [holds("swap gates", g.nm == "SWAP"), valid_here("mirror pairs", z3.Implies(z3.And(*dom), z3.And(a.z + b.z == n.z - 1, a.z != b.z, a.z >= 0, b.z >= 0)))]
        k2 = z3.Int("k!")
        d2 = [z3.substitute(f, (k, k2)) for f in dom]
        out += [valid_here("pairs are disjoint", z3.Implies(z3.And(*dom, *d2, k != k2), z3.And(a.z != z3.substitute(a.z, (k, k2)), a.z != z3.substitute(b.z, (k, k2)))))]
        out += [valid_here("every mirrored qubit is swapped", s.base.n == n.z / 2)]
        return out


def zl(x):
    return x.z if isinstance(x, SNum) else z3.IntVal(x)


@ob("QFT: the path-sum phase of the layers is that of the discrete Fourier transform", FQ)
def _():
    """2 pi x y / 2^n with x = sum x_j 2^(n-1-j) and the bit-reversed y = sum y_l 2^l: the coefficient of x_j y_l is 2 pi 2^(l-j-1);
    a multiple of 2 pi for j < l, pi (the Hadamard) for j = l, the angle of the controlled phase for j > l"""
    l, j, n = (z3.Int(x) for x in "ljn")
    e = (n - 1 - j) + l - n
    return [z3_valid("exponent", e == l - j - 1), z3_valid("whole turns for earlier qubits", z3.Implies(j < l, l - j - 1 >= 0)), z3_valid("half a turn on the diagonal", z3.Implies(j == l, l - j - 1 == -1)),
            z3_valid("controlled phase", z3.Implies(j > l, l - j - 1 == -(j - l + 1)))]


digit_obs()

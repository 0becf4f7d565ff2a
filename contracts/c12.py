"""C12: Hamiltonian constructors contain exactly the requested terms."""
from pyvc.kit import *
from pyvc import seqs
from pyvc.seqs import SList, Base, Piece, SMap, raw_piece, same, val_eq
from pyvc.runtime import GenList
import z3, sympy, torch, itertools
from qadence.types import Interaction
HM = mod("qadence.constructors.hamiltonians")
HT = mod("qadence.analog.hamiltonian_terms")
MC = mod("qadence.ml_tools.constructors")

P = "C12"
FH, FT = "qadence.constructors.hamiltonians.", "qadence.analog.hamiltonian_terms."
ASSUMES = ["register.nodes, .edges, .all_node_pairs and .distances are those of C13, listed in the same order on every call", "add / scalar multiplication build the sum / multiple (C04)",
           "torch.ones and torch.rand give n ones and n numbers in [0, 1)", "textbook two-qubit terms are evaluated on the pairs (0,1), (1,0), (2,5), (7,3); other pairs follow by relabelling (C03)"]
TRUSTED = ["z3", "sympy", "operator normaliser (pyvc/poly.py)"]
TRUE = z3.BoolVal(True)
I_ = z3.IntSort()


def shim_for(fn, new):
    old = VC.shims.get(id(fn))
    VC.shim(fn, new)
    VC.ex.undo.append(lambda: VC.shims.__setitem__(id(fn), old) if old is not None else VC.shims.pop(id(fn), None))


class At:
    """an arbitrary object determined by an index"""
    def __init__(self, nm, j=None):
        self.nm, self.j = nm, j
    def __vc_same__(self, o):
        return type(o) is type(self) and o.nm == self.nm and (self.j is o.j or (self.j is not None and o.j is not None and z3.eq(z3.simplify(self.j), z3.simplify(o.j))))
    def __vc_inst__(self, i, j):
        return type(self)(self.nm, z3.substitute(self.j, (i, j)))
    def __vc_key__(self, base):
        return z3.eq(self.j, base.idx)
    def __vc_fmt__(self):
        return f"<{self.nm} {self.j}>"
    def __repr__(self):
        return self.__vc_fmt__()


class Ed(tuple):
    """the pair number j of a list of pairs"""
    def __new__(cls, nm, j):
        r = tuple.__new__(cls, (At(nm + " first", j), At(nm + " second", j)))
        r.nm, r.j = nm, j
        return r
    def __vc_same__(self, o):
        return isinstance(o, Ed) and o.nm == self.nm and z3.eq(o.j, self.j)
    def __vc_inst__(self, i, j):
        return Ed(self.nm, z3.substitute(self.j, (i, j)))
    def __vc_key__(self, base):
        return z3.eq(self.j, base.idx)


class Op:
    """an operator applied to qubits, and its multiples"""
    def __init__(self, nm, qs, c=None):
        self.nm, self.qs, self.c = nm, tuple(qs), c
    def __rmul__(self, s):
        if self.c is not None:
            raise Unsupported("several factors")
        return Op(self.nm, self.qs, s)
    __mul__ = __rmul__
    def __vc_same__(self, o):
        return isinstance(o, Op) and o.nm == self.nm and len(o.qs) == len(self.qs) and all(val_eq(a, b) for a, b in zip(self.qs, o.qs)) and val_eq(self.c, o.c) or False
    def __repr__(self):
        return f"{self.c}*{self.nm}{self.qs}"


class Sum:
    def __init__(self, items):
        self.items = SList([x.info["piece"] if type(x) is Seg else x for x in items])


class Vec(SList):
    """an array of numbers, one per element"""
    kinds = (torch.Tensor,)
    _op_priority = 1000.0
    def _map(self, f):
        return Vec([Piece(p.base, [(c, f(v)) for c, v in p.cases], raw=(lambda j, r=p.raw: f(r(j))) if p.raw else None) for p in self.items])
    def __rmul__(self, k):
        return self._map(lambda v: k * v)
    __mul__ = __rmul__
    def __sub__(self, k):
        return self._map(lambda v: v - k)
    def __add__(self, k):
        return self._map(lambda v: v + k)
    __radd__ = __add__
    def __rtruediv__(self, k):
        return self._map(lambda v: k / v)
    def __truediv__(self, k):
        return self._map(lambda v: v / k)
    def __pow__(self, k):
        return self._map(lambda v: v ** k)
    def copy(self):
        return Vec(list(self.items))


class Reg:
    """an arbitrary register"""
    def __init__(self, nm="register"):
        self.bn, self.be, self.bp = Base("nodes", lambda j: At("node", j)), Base("edges", lambda j: Ed("edge", j)), Base("pairs", lambda j: Ed("pair", j))
        assume(self.bn.n >= 1)
    nodes = property(lambda s: SList([raw_piece(s.bn)]))
    edges = property(lambda s: SList([raw_piece(s.be)]))
    all_node_pairs = property(lambda s: SList([raw_piece(s.bp)]))
    n_qubits = property(lambda s: s.nodes.__vc_len__())
    def __vc_isinstance__(self, T):
        return any(getattr(t, "__name__", "") == "Register" for t in (T if isinstance(T, tuple) else (T,)))
    @property
    def distances(self):
        b = self.bp
        return SMap(SList([Piece(b, [(TRUE, (Ed("pair", b.idx), dsym(b.idx)))])]))


def dsym(j):
    return sympy.Symbol(f"d[{j}]", positive=True)


_ones, _rand = torch.ones, torch.rand


def setup():
    poly.reset()
    for nm in ("N", "X", "Y", "Z"):
        shim_for(getattr(HM, nm), lambda q, nm=nm: Op(nm, (q,)))
    for nm in ("zz", "nn", "xy", "xyz"):
        shim_for(getattr(HM, "interaction_" + nm), lambda i, j, nm=nm: Op("interaction " + nm, (i, j)))
    shim_for(HM.add, lambda *a: Sum(a))
    def vec(make):
        def f(n, **k):
            if not isinstance(n, seqs.SLen):
                raise Unsupported("array of another length")
            (p,) = n.of
            return Vec([Piece(p.base, [(TRUE, make(p.base.idx))], raw=make)])
        return f
    shim_for(torch.ones, vec(lambda j: sympy.Float(1.0)))
    shim_for(torch.rand, vec(lambda j: sympy.Symbol(f"random[{j}]")))
    return Reg()


def strength_list(nm):
    b = Base(nm, lambda j: At(nm, j))
    return SList([raw_piece(b)]), b


def terms(label, r, want):
    if not isinstance(r, Sum):
        return Claim(label, "unknown", repr(r))
    return same(label, r.items, SList(want))


INTS = {Interaction.ZZ: "zz", Interaction.NN: "nn", Interaction.XY: "xy", Interaction.XYZ: "xyz"}


def fac(inter, det, how_i, how_d, allp, intreg=False):
    nm = f"hamiltonian_factory/{inter if inter is None or isinstance(inter, str) else 'custom'}/{det}/{how_i}/{how_d}/{'all pairs' if allp else 'edges'}{'/number of qubits' if intreg else ''}"
    @obligation(P, nm, [FH + "hamiltonian_factory", FH + "_preprocess_strengths"])
    def _():
        reg = setup()
        arg = reg
        if intreg:
            shim_for(HM.Register, lambda n: reg if n == 4 else None)
            arg = 4
        fn = inter
        opn = None if inter is None else "interaction " + INTS.get(inter, "custom")
        if inter == "custom":
            fn = lambda i, j: Op("interaction custom", (i, j)) if not isinstance(i, int) else At("probe")
            shim_for(HM.block_is_qubit_hamiltonian, lambda b: True)
        pb = reg.bp if allp else reg.be
        pnm = "pair" if allp else "edge"
        kw, sv = {}, {}
        lens = []
        for key, how, b, own in (("interaction_strength", how_i, pb, lambda j: f"v_<{pnm} first {j}><{pnm} second {j}>"), ("detuning_strength", how_d, reg.bn, lambda j: f"u_<node {j}>")):
            if how == "none":
                sv[key] = lambda j: sympy.Float(1.0)
            elif how == "random":
                kw["random_strength"] = True
                sv[key] = lambda j: 2 * sympy.Symbol(f"random[{j}]") - 1
            elif how == "names":
                kw[key] = "v" if key[0] == "i" else "u"
                sv[key] = own
            else:
                kw[key], lb = strength_list(key)
                lens.append((lb, b))
                sv[key] = lambda j, key=key: At(key, j)
        try:
            r = HM.hamiltonian_factory(arg, interaction=fn, detuning=None if det is None else getattr(HM, det), use_all_node_pairs=allp, **kw)
        except ValueError:
            return [z3_valid("rejected only for strengths of the wrong length", z3.Or([lb.n != b.n for lb, b in lens] or [z3.BoolVal(False)]), assumptions=list(VC.ex.pc))]
        want = []
        # a strength list may serve as the index of its run: both have the same length here
        if det is not None:
            b = next((lb for lb, bb in lens if bb is reg.bn), reg.bn)
            want.append(Piece(b, [(TRUE, Op(det, (At("node", b.idx),), sv["detuning_strength"](b.idx)))]))
        if inter is not None:
            b = next((lb for lb, bb in lens if bb is pb), pb)
            e = Ed(pnm, b.idx)
            want.append(Piece(b, [(TRUE, Op(opn, tuple(e), sv["interaction_strength"](b.idx)))]))
        want2 = [Piece(b2, [(c, v)]) for b2, (c, v) in []]
        out = [z3_valid("accepted only strengths of the right length", z3.And([lb.n == b.n for lb, b in lens] or [TRUE]), assumptions=list(VC.ex.pc))]
        c = terms("exactly one term per node and per pair, each with its own strength", r, want)
        if c.status != "proved":
            alt = rebased(want, lens)
            c2 = terms(c.label if hasattr(c, "label") else "exactly one term per node and per pair, each with its own strength", r, alt)
            c = c2 if c2.status == "proved" else c
            if c.status == "unknown":
                c = differ(r, want, c)
        return out + [c]


def rebased(want, lens):
    m = {id(lb): b for lb, b in lens}
    out = []
    for p in want:
        b = m.get(id(p.base))
        out.append(p if b is None else Piece(b, [(c, sub(v, p.base.idx, b.idx)) for c, v in p.cases]))
    return out


def sub(op, i, j):
    return Op(op.nm, [q.__vc_inst__(i, j) for q in op.qs], op.c.__vc_inst__(i, j) if isinstance(op.c, At) else op.c)


def differ(r, want, c):
    """refuted when both sides are the same kinds of runs and some element differs"""
    if not isinstance(r, Sum):
        return c
    got = r.items.items
    if len(got) < len(want):
        return Claim(c.label, "refuted", f"terms {got}", "formal sums") if all(isinstance(p, Piece) for p in got) else c
    if len(got) == len(want):
        for p, q in zip(got, want):
            if isinstance(p, Piece) and len(p.cases) == 1 and isinstance(p.cases[0][1], Op):
                a, b = p.cases[0][1], q.cases[0][1]
                if a.nm != b.nm and a.nm.split()[0] == b.nm.split()[0]:
                    return Claim(c.label, "refuted", f"{a} instead of {b}", "formal sums")
    return c


for inter in [*INTS, "custom"]:
    fac(inter, None, "list", "none", False)
    fac(inter, "Z", "none", "none", False)
    fac(inter, None, "none", "none", True)
    fac(inter, "N", "names", "names", True)
for det in ("N", "X", "Y", "Z"):
    fac(None, det, "none", "list", False)
    fac(None, det, "none", "names", False)
    fac(Interaction.ZZ, det, "list", "list", False)
    fac(Interaction.NN, det, "list", "none", True)
    fac(Interaction.XY, det, "random", "random", False)
    fac(Interaction.XYZ, det, "names", "list", False)
    fac(Interaction.ZZ, det, "none", "list", False, True)
    fac(None, det, "none", "random", False)


for nm, call in {"no terms": lambda r: HM.hamiltonian_factory(r), "unknown interaction": lambda r: HM.hamiltonian_factory(r, interaction="blah"),
                 "detuning by another gate": lambda r: HM.hamiltonian_factory(r, detuning=HM.H), "numeric strength": lambda r: HM.hamiltonian_factory(r, detuning=HM.Z, detuning_strength=2.0),
                 "numeric interaction strength": lambda r: HM.hamiltonian_factory(r, interaction=Interaction.ZZ, interaction_strength=2.0),
                 "one-qubit interaction": lambda r: HM.hamiltonian_factory(r, interaction=lambda i: At("x"))}.items():
    @obligation(P, f"hamiltonian_factory/rejects {nm}", [FH + "hamiltonian_factory", FH + "_preprocess_strengths"])
    def _(call=call):
        reg = setup()
        try:
            call(reg)
        except (ValueError, TypeError, KeyError):
            return [holds("rejected", True)]
        return [holds("rejected", False)]


@obligation(P, "hamiltonian_factory/rejects custom interactions that are no Hamiltonian", [FH + "hamiltonian_factory"])
def _():
    reg = setup()
    shim_for(HM.block_is_qubit_hamiltonian, lambda b: False)
    try:
        HM.hamiltonian_factory(reg, interaction=lambda i, j: At("x"))
    except ValueError:
        return [holds("rejected", True)]
    return [holds("rejected", False)]


# ---------------------------------------------------------------- textbook terms
P2 = {"X": sympy.Matrix([[0, 1], [1, 0]]), "Y": sympy.Matrix([[0, -sympy.I], [sympy.I, 0]]), "Z": sympy.diag(1, -1), "N": sympy.diag(0, 1)}


def mats(ws, n):
    out = sympy.zeros(2 ** n, 2 ** n)
    for c, at in ws:
        m = sympy.Matrix([[1]])
        for q in range(n):
            m = sympy.kronecker_product(m, P2[at[q]] if q in at else sympy.eye(2))
        out += c * m
    return out


TEXT = {"zz": lambda i, j: [(1, {i: "Z", j: "Z"})], "nn": lambda i, j: [(1, {i: "N", j: "N"})], "xy": lambda i, j: [(1, {i: "X", j: "X"}), (1, {i: "Y", j: "Y"})],
        "xyz": lambda i, j: [(1, {i: "X", j: "X"}), (1, {i: "Y", j: "Y"}), (1, {i: "Z", j: "Z"})]}


def block_sum(b, qs):
    """a block of sums and krons of single-qubit operators as an explicit matrix over the qubits qs"""
    pos = {q: k for k, q in enumerate(qs)}
    n = len(qs)
    kind = type(b).__name__
    if kind == "AddBlock":
        return sum((block_sum(x, qs) for x in b.blocks), sympy.zeros(2 ** n, 2 ** n))
    if kind in ("KronBlock", "ChainBlock"):
        out = sympy.eye(2 ** n)
        for x in b.blocks:
            out = block_sum(x, qs) * out
        return out
    if kind == "ScaleBlock":
        return b.parameters.parameter * block_sum(b.block, qs)
    if len(b.qubit_support) == 1:
        m = sympy.Matrix([[1]])
        for q in qs:
            m = sympy.kronecker_product(m, leaf.matrix(b) if q == b.qubit_support[0] else sympy.eye(2))
        return m
    raise Unsupported(kind)


for nm, f in TEXT.items():
    for i, j in ((0, 1), (1, 0), (2, 5), (7, 3)):
        @obligation(P, f"interaction_{nm}/{i},{j}", [FH + "interaction_" + nm])
        def _(nm=nm, f=f, i=i, j=j):
            poly.reset()
            b = getattr(HM, "interaction_" + nm)(i, j)
            qs = [i, j]
            d = (block_sum(b, qs) - mats([(c, {qs.index(q): p for q, p in at.items()}) for c, at in f(i, j)], 2)).applyfunc(sympy.simplify)
            return [holds("the textbook operator", bool(d == sympy.zeros(4, 4))), holds("on that pair", set(b.qubit_support) == {i, j})]


# ---------------------------------------------------------------- named Hamiltonians
def calls():
    log = []
    def f(register, interaction=None, detuning=None, interaction_strength=None, detuning_strength=None, random_strength=False, use_all_node_pairs=False):
        log.append(dict(register=register, interaction=interaction, detuning=detuning, interaction_strength=interaction_strength, detuning_strength=detuning_strength, random_strength=random_strength, use_all_node_pairs=use_all_node_pairs))
        return Ham(len(log) - 1)
    return f, log


class Ham:
    def __init__(self, *ks):
        self.ks = tuple(ks)
    def __add__(self, o):
        return Ham(*self.ks, *o.ks)


def is_call(c, **want):
    base = dict(interaction=None, detuning=None, interaction_strength=None, detuning_strength=None, random_strength=False, use_all_node_pairs=False)
    base.update(want)
    return all(c[k] is v or (isinstance(v, (int, str, bool, type(None))) and c[k] == v) for k, v in base.items())


@obligation(P, "total_magnetization", [FH + "total_magnetization"])
def _():
    poly.reset()
    f, log = calls()
    shim_for(HM.hamiltonian_factory, f)
    z = At("weights")
    r = HM.total_magnetization(4, z)
    return [holds("one Z per qubit with its weight", isinstance(r, Ham) and r.ks == (0,) and is_call(log[0], register=4, detuning=HM.Z, detuning_strength=z))]


class Matrix2:
    def __getitem__(self, ij):
        return Entry(ij[0], ij[1])


class Entry:
    def __init__(self, a, b):
        self.a, self.b = a, b
    def __vc_same__(self, o):
        return isinstance(o, Entry) and val_eq(self.a, o.a) and val_eq(self.b, o.b)
    def __repr__(self):
        return f"zz[{self.a},{self.b}]"


for weights in (True, False):
    @obligation(P, f"zz_hamiltonian/{'with' if weights else 'without'} couplings", [FH + "zz_hamiltonian"])
    def _(weights=weights):
        reg = setup()
        f, log = calls()
        shim_for(HM.hamiltonian_factory, f)
        shim_for(HM.Register, lambda n: reg if n == 4 else None)
        z = At("weights")
        r = HM.zz_hamiltonian(4, z, Matrix2() if weights else None)
        c = log[0]
        s = c["interaction_strength"]
        out = [holds("ZZ on every pair, Z on every qubit with its weight", isinstance(r, Ham) and r.ks == (0,) and len(log) == 1 and c["register"] == 4 and is_call(dict(c, interaction_strength=None), interaction=Interaction.ZZ, detuning=HM.Z, detuning_strength=z))]
        if not weights:
            return out + [holds("unit couplings", s is None)]
        b = reg.be
        e = Ed("edge", b.idx)
        return out + [same("the coupling of that pair", s, SList([Piece(b, [(TRUE, Entry(e[0], e[1]))])]))]


@obligation(P, "ising_hamiltonian", [FH + "ising_hamiltonian"])
def _():
    poly.reset()
    f, log = calls()
    shim_for(HM.hamiltonian_factory, f)
    x, z, zz = At("x"), At("z"), At("zz")
    got = []
    def zzh(n_qubits, z_terms=None, zz_terms=None):
        got.append((n_qubits, z_terms, zz_terms))
        return Ham("zz")
    shim_for(HM.zz_hamiltonian, zzh)
    r = HM.ising_hamiltonian(4, x, z, zz)
    return [holds("the zz Hamiltonian with its weights", got == [(4, z, zz)]), holds("plus X on every qubit with its weight", isinstance(r, Ham) and sorted(map(str, r.ks)) == ["0", "zz"] and len(log) == 1 and is_call(log[0], register=4, detuning=HM.X, detuning_strength=x))]


# ---------------------------------------------------------------- Rydberg terms
class Dev:
    pass


class Lin:
    """formal linear combination of operators at one qubit, or the sum of those over all qubits of a list"""
    def __init__(self, t):
        self.t = {k: sympy.expand(v) for k, v in t.items() if sympy.expand(v) != 0}
    def __rmul__(self, k):
        return Lin({o: sympy.sympify(k) * c for o, c in self.t.items()})
    __mul__ = __rmul__
    def __add__(self, o):
        return Lin({k: self.t.get(k, 0) + o.t.get(k, 0) for k in {**self.t, **o.t}})
    def __sub__(self, o):
        return self + (-1) * o
    def __neg__(self):
        return (-1) * self
    def __repr__(self):
        return str(self.t)


def lin_ops(idx):
    for nm in ("X", "Y", "N", "Z", "I"):
        def mk(q, nm=nm):
            z = q.z if isinstance(q, SNum) else q.j
            if not z3.eq(z3.simplify(z), idx()):
                raise Unsupported("an operator on another qubit")
            if nm == "N":
                return Lin({"I": sympy.Rational(1, 2), "Z": -sympy.Rational(1, 2)})
            return Lin({nm: 1})
        shim_for(getattr(HT, nm), mk)
    def add(*a):
        if len(a) == 1 and isinstance(a[0], SList):
            (p,) = a[0].items
            if not isinstance(p, Piece) or len(p.cases) != 1 or not seqs._total(p) or not isinstance(p.cases[0][1], Lin):
                raise Unsupported("sum of another list")
            return p.cases[0][1]           # the sum over the qubits, stated for one of them
        raise Unsupported("another sum")
    shim_for(HT.add, add)


def lin_eq(label, got, want):
    if not isinstance(got, Lin):
        return Claim(label, "unknown", repr(got))
    d = {k: sympy.simplify(v) for k, v in (got - want).t.items()}
    bad = {k: v for k, v in d.items() if v != 0}
    if not bad:
        return Claim(label, "proved", None, "sympy")
    fs = set().union(*[v.free_symbols for v in bad.values()])
    at = {s: sympy.Rational(2 * i + 3, 5) for i, s in enumerate(sorted(fs, key=str))}
    num = {k: v.subs(at).evalf() for k, v in bad.items()}
    if any(v.is_number and abs(v) > 1e-9 for v in num.values()):
        return Claim(label, "refuted", f"difference {bad}, at {at}: {num}", "sympy")
    return Claim(label, "unknown", str(bad))


for inter in (Interaction.NN, Interaction.XY):
    @obligation(P, f"rydberg_interaction_hamiltonian/{inter}", [FT + "rydberg_interaction_hamiltonian"])
    def _(inter=inter):
        reg = setup()
        dev = Dev()
        dev.interaction, dev.rydberg_level, dev.coeff_xy = inter, 61, sympy.Symbol("c3")
        reg.device_specs = dev
        f, log = calls()
        shim_for(HT.hamiltonian_factory, f)
        shim_for(torch.tensor, lambda x, **k: Vec(x.items) if isinstance(x, SList) else torch.tensor(x, **k))
        HT.rydberg_interaction_hamiltonian(reg)
        c = log[0]
        s = c["interaction_strength"]
        d = dsym(reg.bp.idx)
        want = sympy.Float(HT.C6_DICT[61]) / d ** 6 if inter == Interaction.NN else sympy.Symbol("c3") / d ** 3
        ok = len(log) == 1 and c["register"] is reg and is_call(dict(c, interaction_strength=None), interaction=inter, use_all_node_pairs=True)
        out = [holds("the device's interaction on all pairs of the register", ok)]
        if not isinstance(s, SList):
            return out + [Claim("strengths", "unknown")]
        (p,) = s.items
        if p.base is not reg.bp or len(p.cases) != 1:
            return out + [Claim("strength of each pair", "unknown", str(p))]
        dd = sympy.simplify(p.cases[0][1] - want)
        num = dd.subs({d: sympy.Rational(3, 2), sympy.Symbol("c3"): 7}).evalf()
        return out + [holds("strength of each pair from the distance of that same pair", True if dd == 0 or abs(num) < 1e-9 * 1e5 and sympy.simplify(p.cases[0][1] / want) == 1 else False if num.is_number and abs(num) > 1e-6 else None, str(dd))]


for glob in (True, False):
    @obligation(P, f"rydberg_drive_hamiltonian/{'global' if glob else 'any support'}", [FT + "rydberg_drive_hamiltonian"])
    def _(glob=glob):
        reg = setup()
        sb = Base("support", lambda j: At("qubit", j))
        class Sup(SList):
            is_global = glob
        blk = Dev()
        blk.qubit_support = Sup([raw_piece(sb)])
        blk.parameters = Dev()
        om, de, ph = (sympy.Symbol(x, real=True) for x in ("omega", "delta", "phase"))
        blk.parameters.omega, blk.parameters.delta, blk.parameters.phase = om, de, ph
        b = reg.bn if glob else sb
        lin_ops(lambda: b.idx)
        r = HT.rydberg_drive_hamiltonian(blk, reg)
        return [lin_eq("for every qubit of the support: omega/2 (cos X - sin Y) - delta N", r, Lin({"X": om / 2 * sympy.cos(ph), "Y": -om / 2 * sympy.sin(ph), "I": -de / 2, "Z": de / 2}))]


class W:
    def __init__(self, nm):
        self.nm = nm
    def __getitem__(self, i):
        return sympy.Symbol(f"{self.nm}[{i.z}]")


@obligation(P, "rydberg_pattern_hamiltonian/any pattern", [FT + "rydberg_pattern_hamiltonian"])
def _():
    reg = setup()
    pt = Dev()
    for k in ("amp", "det", "global_constr_amp", "global_constr_det"):
        setattr(pt, k, sympy.Symbol(k, real=True))
    for k in ("weights_amp", "weights_det", "local_constr_amp", "local_constr_det"):
        setattr(pt, k, W(k))
    reg.device_specs = Dev()
    reg.device_specs.pattern = pt
    cur = []
    lin_ops(lambda: idx(reg))
    r = HT.rydberg_pattern_hamiltonian(reg)
    i = idx(reg)
    s = lambda k: sympy.Symbol(f"{k}[{i}]")
    a = pt.amp * pt.global_constr_amp * s("weights_amp") * s("local_constr_amp")
    d = pt.det * pt.global_constr_det * s("weights_det") * s("local_constr_det")
    return [lin_eq("for every qubit: amp/2 w X - det w N, within its constraints", r, Lin({"X": a / 2, "I": -d / 2, "Z": d / 2}))]


def idx(reg):
    return reg.bn.idx


@obligation(P, "rydberg_pattern_hamiltonian/no pattern", [FT + "rydberg_pattern_hamiltonian"])
def _():
    reg = setup()
    reg.device_specs = Dev()
    reg.device_specs.pattern = None
    return [holds("none", HT.rydberg_pattern_hamiltonian(reg) is None)]

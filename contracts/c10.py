"""C10: sample post-processing is exact and loses no counts."""
from pyvc.kit import *
from pyvc import seqs, maps
from pyvc.maps import GMap, Gen, Key, gen_seg, gmap
from pyvc.seqs import SList, Base, Piece, raw_piece, same, Joined, val_eq
from collections import Counter
import functools, itertools
import numpy as np, torch, z3, sympy
from qadence import operations as O
from qadence.types import Endianness
UT = mod("qadence.utils")
MU = mod("qadence.measurements.utils")
BU = mod("qadence.blocks.utils")
SA = mod("qadence.measurements.samples")
TO = mod("qadence.measurements.tomography")
QC = mod("qadence.circuit").QuantumCircuit

P = "C10"
FU, FM = "qadence.utils.", "qadence.measurements.utils."
ASSUMES = ["outcomes of one counter are bit strings of equal width with positive counts", "samples are not empty",
           "counts are mathematical numbers (floating-point division ignored)"]
TRUSTED = ["int(s, 2), format(k, '0nb') and s[::-1] (Python): int(format(k,'0nb'), 2) = k for 0 <= k < 2**n, reversal is an involution",
           "collections.Counter addition adds the counts of equal keys", "numpy.sum, torch.stack, torch.sum", "z3", "sympy", "unroll_block_with_scaling and primitive_blocks by their contracts (C16)"]
BIG, LITTLE = Endianness.BIG, Endianness.LITTLE
pow2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())


def shim_for(fn, new):
    old = VC.shims.get(id(fn))
    VC.shim(fn, new)
    def undo():
        if old is None:
            VC.shims.pop(id(fn), None)
        else:
            VC.shims[id(fn)] = old
    VC.ex.undo.append(undo)


# ---------------------------------------------------------------- bit strings
class Pow2(SNum):
    __slots__ = ()
    __hash__ = SNum.__hash__


def here(claim):
    return valid_here("", claim).status == "proved"


class Width(SNum):
    """a number of qubits"""
    __slots__ = ()
    __hash__ = SNum.__hash__
    def __rpow__(self, b):
        if b != 2:
            raise Unsupported("power of another base")
        return Pow2(pow2(self.z))
    def __vc_str_format__(self, fmt, a, k):
        if fmt != "0{}b" or len(a) != 1 or k:
            raise Unsupported("format of another shape")
        return Spec(self)


class Spec:
    def __init__(self, n):
        self.n = n


class KInt(SNum):
    """an integer to be written in binary"""
    __slots__ = ()
    __hash__ = SNum.__hash__
    def bit_length(self):
        n = z3.Int(f"bit_length({self.z})")
        assume(z3.And(n >= 0, self.z < pow2(n), z3.Implies(self.z > 0, z3.And(n >= 1, pow2(n - 1) <= self.z)), z3.Implies(self.z == 0, n == 0), pow2(1) == 2, pow2(0) == 1))
        return Width(n)


class SBits:
    """a bit string: rev (is it reversed), of = ("var", name) or ("bits", k, n)"""
    def __init__(self, of, rev=False):
        self.of, self.rev = of, rev
    def __getitem__(self, i):
        if isinstance(i, slice) and i.start is None and i.stop is None and i.step in (-1, 1, None):
            return SBits(self.of, self.rev != (i.step == -1))
        raise Unsupported("part of a bit string")
    def __vc_isinstance__(self, T):
        return str in (T if isinstance(T, tuple) else (T,))
    def __vc_len__(self):
        return Width(z3.Int("len(s)")) if self.of[0] == "var" else Width(self.of[2])


def _int(*a, **k):
    x = a[0]
    if isinstance(x, SBits):
        b = a[1] if len(a) > 1 else k.get("base", 10)
        if b != 2:
            raise Unsupported("another base")
        if not x.rev and x.of[0] == "bits":
            kk, n = x.of[1:]
            if here(z3.And(kk >= 0, kk < pow2(n))):
                return KInt(kk)
        return KVal(x)
    if isinstance(x, KInt):
        return x
    return _int0(*a, **k)


class KVal(KInt):
    """the value of a bit string"""
    __slots__ = ("s",)
    __hash__ = SNum.__hash__
    def __init__(self, s):
        self.s = s
        self.z = z3.Int(f"value of {'reversed ' if s.rev else ''}{s.of}")


_int0 = VC.shims.get(id(int), int)
_fmt0 = VC.shims.get(id(format), format)
_max0 = VC.shims.get(id(max), max)


def _format(x, spec=""):
    if isinstance(spec, Spec):
        if isinstance(x, KVal) and z3.eq(z3.simplify(spec.n.z), z3.Int("len(s)")):
            return x.s                 # the string a number was read from, written at its own width
        return SBits(("bits", x.z, spec.n.z))
    return _fmt0(x, spec)


def _max(*a, **k):
    if len(a) == 2 and not k and any(isinstance(x, Width) for x in a):
        x, y = a
        return Width(z3.simplify(z3.If(lift_(x) >= lift_(y), lift_(x), lift_(y))))
    return _max0(*a, **k)


def lift_(x):
    return x.z if isinstance(x, SNum) else z3.IntVal(x)


def use_strings():
    shim_for(int, _int)
    shim_for(format, _format)
    shim_for(max, _max)


def setup():
    poly.reset()
    use_strings()
    k, n = KInt(z3.Int("k")), Width(z3.Int("n"))
    assume(k.z >= 0)
    assume(n.z >= 1)
    return k, n


def is_bits(label, r, kz, nz, rev):
    if isinstance(r, SBits) and r.of[0] == "bits" and r.rev != rev:
        return holds(label, False, "the digits are in the opposite order")
    ok = isinstance(r, SBits) and r.rev == rev and r.of[0] == "bits" and here(z3.And(r.of[1] == kz, r.of[2] == nz))
    return holds(label, True if ok else None, repr(getattr(r, "of", r)))


for e in (BIG, LITTLE):
    @obligation(P, f"int_to_basis/{e}", [FU + "int_to_basis"])
    def _(e=e):
        k, n = setup()
        try:
            r = UT.int_to_basis(k, n, e)
        except AssertionError:
            return [z3_valid("rejected only when it does not fit", k.z >= pow2(n.z), assumptions=list(VC.ex.pc))]
        return [is_bits("the bits of k at width n, in the requested order", r, k.z, n.z, e == LITTLE), z3_valid("accepted only when it fits", k.z < pow2(n.z), assumptions=list(VC.ex.pc))]

    @obligation(P, f"int_to_basis/default width/{e}", [FU + "int_to_basis"])
    def _(e=e):
        k, n = setup()
        r = UT.int_to_basis(k, endianness=e)
        if not isinstance(r, SBits) or r.of[0] != "bits":
            return [Claim("bits", "unknown")]
        w = r.of[2]
        pc = list(VC.ex.pc) + [pow2(0) == 1, pow2(1) == 2]
        return [is_bits("the bits of k", r, k.z, w, e == LITTLE), z3_valid("at a width it fits in", z3.And(k.z < pow2(w), w >= 1), assumptions=pc),
                z3_valid("and no more than needed", z3.Or(w == 1, pow2(w - 1) <= k.z), assumptions=pc)]

    @obligation(P, f"basis_to_int/{e}", [FU + "basis_to_int"])
    def _(e=e):
        setup()
        s = SBits(("var", "s"))
        r = UT.basis_to_int(s, e)
        ok = isinstance(r, KVal) and r.s.of == s.of and r.s.rev == (e == LITTLE)
        return [holds("value of the string read from the most significant end", True if ok else None)]

    @obligation(P, f"conversions are mutually inverse/{e}", [FU + "int_to_basis", FU + "basis_to_int"])
    def _(e=e):
        k, n = setup()
        assume(k.z < pow2(n.z))
        r = UT.basis_to_int(UT.int_to_basis(k, n, e), e)
        s = SBits(("var", "s"))
        v = UT.basis_to_int(s, e)
        assume(v.z < pow2(z3.Int("len(s)")))
        b = UT.int_to_basis(v, Width(z3.Int("len(s)")), e)
        return [z3_valid("int -> string -> int", r.z == k.z, assumptions=list(VC.ex.pc)), holds("string -> int -> string", True if b.of == s.of and b.rev is False else None)]

    @obligation(P, f"nqubits_to_basis/strings/{e}", [FU + "nqubits_to_basis"])
    def _(e=e):
        k, n = setup()
        base = Base("basis states", lambda j: SNum(j))
        assume(base.n == pow2(n.z))
        lst = SList([raw_piece(base)])
        old = VC.shims[id(range)]
        def rng(*a):
            if isinstance(a[-1], Pow2) and (len(a) == 1 or (len(a) == 2 and isinstance(a[0], int) and a[0] == 0)):
                return lst
            return old(*a)
        shim_for(range, rng)
        shim_for(UT.int_to_basis, lambda k, n_qubits=None, endianness=BIG: State(k, n_qubits, endianness))
        r = UT.nqubits_to_basis(n, UT.ResultType.STRING, e)
        return [same("the k-th state is the bits of k", r, SList([Piece(base, [(z3.BoolVal(True), State(SNum(base.idx), n, e))])]))]

    @obligation(P, f"samples_to_integers/{e}", [FU + "samples_to_integers"])
    def _(e=e):
        poly.reset()
        k, v = Gen("outcome"), Gen("count")
        sg = gen_seg("outcomes", lambda: k)
        m = GMap([("fam", sg, k, k, [(k, v)], [k], False)])
        shim_for(UT.basis_to_int, lambda b, endianness=BIG: Key(("int", endianness), b))
        shim_for(Counter, lambda x: x if isinstance(x, GMap) else Counter(x))
        r = gmap(UT.samples_to_integers(m, e))
        ok = len(r.entries) == 1 and r.entries[0][0] == "fam" and not r.entries[0][6] and isinstance(r.entries[0][3], Key) and r.entries[0][3].f == ("int", e) and r.entries[0][3].of is k and all(x is v for _, x in r.entries[0][4])
        return [holds("one entry per outcome: its integer, with its count", True if ok else None, repr(r.entries))]


class State:
    def __init__(self, k, n, e):
        self.k, self.n, self.e = k, n, e
    def __vc_same__(self, o):
        return isinstance(o, State) and val_eq(self.k, o.k) and val_eq(self.n, o.n) and self.e == o.e


# ---------------------------------------------------------------- counters
class Ref:
    """an arbitrary object named by its place"""
    def __init__(self, nm, j=None):
        self.nm, self.j = nm, j
    def __vc_same__(self, o):
        return type(o) is type(self) and o.nm == self.nm and (self.j is o.j or z3.eq(z3.simplify(self.j), z3.simplify(o.j)))
    def __eq__(self, o):
        if isinstance(o, Ref) and self.__vc_same__(o):
            return True
        raise Unsupported("comparison")
    def __hash__(self):
        return hash(self.nm)


class Outcome(Ref):
    """an outcome (bit string) of a counter"""
    def __getitem__(self, i):
        if isinstance(i, SNum):
            return Char(self, i)
        raise Unsupported("part of an outcome")
    def __vc_comp__(self, kind, lam):
        (x,) = lam((Bit(self),))
        if isinstance(x, BitInt) and x.b.o is self:
            return Ones(self)
        raise Unsupported("another use of the bits")
    def ones(self):
        return sympy.Symbol(f"ones[{self.nm},{self.j}]", integer=True)
    def __vc_elems__(self):
        raise Unsupported("loop over the bits of an outcome")


class Char:
    def __init__(self, o, i):
        self.o, self.i = o, i
    def __vc_same__(self, c):
        return isinstance(c, Char) and self.o.__vc_same__(c.o) and val_eq(self.i, c.i)


class Bit:
    def __init__(self, o):
        self.o = o


class BitInt:
    def __init__(self, b):
        self.b = b


class Ones:
    """the bits of an outcome as integers"""
    def __init__(self, o):
        self.o = o


class SCounter(Ref):
    """an arbitrary counter: outcome -> count"""
    def base(self):
        nm = f"outcomes of {self.nm}[{self.j}]"
        b = _B.get(nm)
        if b is None:
            b = _B[nm] = Base(nm, lambda j: (Outcome(nm, j), cnt(nm, j)))
        assume(b.n >= 1)
        return b
    def items(self):
        return SList([raw_piece(self.base())])
    def keys(self):
        b = self.base()
        return SList([Piece(b, [(z3.BoolVal(True), b.elem(b.idx)[0])])])
    __vc_elems__ = lambda self: self.keys().__vc_elems__()
    def values(self):
        b = self.base()
        return SList([Piece(b, [(z3.BoolVal(True), b.elem(b.idx)[1])])])
    def __getitem__(self, k):
        if isinstance(k, Outcome) and k.nm == self.base().name:
            return cnt(k.nm, k.j)
        raise Unsupported("count of another outcome")
    def __vc_isinstance__(self, T):
        return any(t in (dict, Counter, object) for t in (T if isinstance(T, tuple) else (T,)))


def cnt(nm, j):
    return sympy.Symbol(f"count[{nm},{j}]")


_B = {}


class SCount:
    """a formal sum of counters: [(key, count)] plus sums over a base"""
    def __init__(self, terms):
        self.terms = list(terms)
    def __add__(self, o):
        return SCount(self.terms + o.terms)
    def __vc_same__(self, o):
        if not isinstance(o, SCount) or len(o.terms) != len(self.terms):
            return False
        rest = list(o.terms)
        for t in self.terms:
            for u in rest:
                if len(t) == len(u) and all((x is y) or val_eq(x, y) for x, y in zip(t, u)):
                    rest.remove(u)
                    break
            else:
                return False
        return True


def _counter(*a):
    if len(a) == 1 and isinstance(a[0], dict) and any(isinstance(k, (Joined, Outcome)) for k in a[0]):
        return SCount([("one", k, v) for k, v in dict.items(a[0])])
    return Counter(*a)


def _reduce(fn, it, *init):
    if isinstance(it, SList) and not init:
        A, B = SCount([("atom", "A")]), SCount([("atom", "B")])
        r = fn(A, B)
        if not (isinstance(r, SCount) and sorted(r.terms) == [("atom", "A"), ("atom", "B")]):
            raise Unsupported("another reduction")
        out = []
        for p in it.items:
            if not isinstance(p, Piece):
                out.extend(p.terms)
                continue
            if len(p.cases) != 1 or not seqs._total(p) or not isinstance(p.cases[0][1], SCount):
                raise Unsupported("reduction of a filtered list")
            out.extend(("sum", p.base.name) + t for t in p.cases[0][1].terms)
        return SCount(out)
    return _red0(fn, it, *init)
_red0 = VC.shims[id(functools.reduce)]


@obligation(P, "get_counts/any samples and support", [FM + "get_counts"])
def _():
    poly.reset()
    _B.clear()
    shim_for(Counter, _counter)
    shim_for(functools.reduce, _reduce)
    sb = Base("support", lambda j: SNum(z3.Function("qubit", z3.IntSort(), z3.IntSort())(j)))
    support = SList([raw_piece(sb)])
    base = Base("samples", lambda j: SCounter("samples", j))
    r = MU.get_counts(SList([raw_piece(base)]), support)
    s = base.elem(base.idx)
    ib = s.base()
    o, c = ib.elem(ib.idx)
    key = Joined("", SList([Piece(sb, [(z3.BoolVal(True), Char(o, sb.elem(sb.idx)))])]))
    want = SCount([("sum", ib.name, "one", key, c)])
    return [same("per sample: the sum over its outcomes of their counts at the selected bits", r, SList([Piece(base, [(z3.BoolVal(True), want)])]))]


SUM = sympy.Function("Sum")


def _npsum(x, *a, **k):
    if isinstance(x, Ones):
        return x.o.ones()
    if isinstance(x, SList):
        out = sympy.Integer(0)
        for p in x.items:
            if isinstance(p, Piece):
                if len(p.cases) != 1 or not seqs._total(p):
                    raise Unsupported("sum of a filtered list")
                out += SUM(sympy.Symbol(p.base.name), sympy.expand(p.cases[0][1]))
            else:
                out += p
        return out
    if isinstance(x, sympy.Basic):
        return x
    return np.sum(x, *a, **k)


def numbers():
    shim_for(np.sum, _npsum)
    shim_for(sum, lambda x, *a: _npsum(x) if isinstance(x, (SList, Ones)) else _sum0(x, *a))
    shim_for(int, lambda *a, **k: BitInt(a[0]) if a and isinstance(a[0], Bit) else _int0(*a, **k))
    shim_for(torch.tensor, lambda x, **k: x if isinstance(x, SList) else torch.tensor(x, **k))
_sum0 = VC.shims[id(sum)]


@obligation(P, "empirical_average/any samples and support", [FM + "empirical_average"])
def _():
    poly.reset()
    _B.clear()
    numbers()
    samples, support = Ref("samples"), Ref("support")
    base = Base("counters", lambda j: SCounter("counters", j))
    shim_for(MU.get_counts, lambda a, b: SList([raw_piece(base)]) if a is samples and b is support else (_ for _ in ()).throw(Unsupported("marginals of something else")))
    r = MU.empirical_average(samples, support)
    ib = base.elem(base.idx).base()
    o, c = ib.elem(ib.idx)
    b = sympy.Symbol(ib.name)
    want = SUM(b, c * (-1) ** o.ones()) / SUM(b, c)
    return [same("per sample: sum of signed counts over the total of that sample", r, SList([Piece(base, [(z3.BoolVal(True), want)])]))]


# ---------------------------------------------------------------- Pauli terms
KINDS = ("X", "Y", "Z", "I")


class Leaf(Ref):
    @property
    def kind(self):
        return z3.Function(f"kind[{self.nm}]", z3.IntSort(), z3.IntSort())(self.j)
    def __vc_isinstance__(self, T):
        ts = T if isinstance(T, tuple) else (T,)
        if not all(getattr(t, "__name__", "") in KINDS for t in ts):
            raise Unsupported("class of a Pauli factor")
        return decide(z3.Or([self.kind == KINDS.index(t.__name__) for t in ts]))
    @property
    def name(self):
        for i, k in enumerate(KINDS[:-1]):
            if decide(self.kind == i):
                return k
        return KINDS[-1]
    @property
    def qubit_support(self):
        return (SNum(z3.Function(f"qubit[{self.nm}]", z3.IntSort(), z3.IntSort())(self.j)),)


for op in (None, "X", "Y", "Z", "I"):
    @obligation(P, f"get_qubit_indices_for_op/{op}", [FM + "get_qubit_indices_for_op"])
    def _(op=op):
        poly.reset()
        base = Base("factors", lambda j: Leaf("factors", j))
        b = new_opaque("term")
        shim_for(BU.primitive_blocks, lambda x: SList([raw_piece(base)]) if x is b else None)
        r = MU.get_qubit_indices_for_op((b, sympy.Symbol("c")), None if op is None else getattr(O, op)(0))
        l = base.elem(base.idx)
        assume(z3.And(l.kind >= 0, l.kind < 4))
        cond = (l.kind != KINDS.index("I")) if op is None else (l.kind == KINDS.index(op))
        return [same("the qubits of exactly those factors, in order", r, SList([Piece(base, [(cond, l.qubit_support[0])])]))]


def rotation(word, qs):
    @obligation(P, f"rotate/{''.join(word)} on {qs}", [FM + "rotate", FM + "get_qubit_indices_for_op"])
    def _():
        poly.reset()
        body = new_opaque("circuit")
        c = QC.__new__(QC)
        c.register, c.block = Ref("register"), body
        fs = [getattr(O, w)(q) for w, q in zip(word, qs)]
        term = (fs[0] if len(fs) == 1 else BU.kron(*fs), sympy.Symbol("c"))
        made = []
        shim_for(MU.QuantumCircuit, lambda reg, blk: made.append((reg, blk)) or made[-1])
        reg, blk = MU.rotate(c, term)
        out = [holds("the circuit's own register", reg is c.register)]
        els = list(blk.blocks)
        ok = els and els[0] is body
        out.append(holds("the circuit is run first", True if ok else None))
        n = len(qs)
        pos = {q: i for i, q in enumerate(sorted(qs))}
        R = sympy.eye(2 ** n)
        for x in els[1:]:
            for g in (x.blocks if hasattr(x, "blocks") else [x]):
                R = embed(leaf.matrix(g), pos[g.qubit_support[0]], n) * R
        T = sympy.eye(2 ** n)
        Zs = sympy.eye(2 ** n)
        for f in fs:
            T = embed(leaf.matrix(f), pos[f.qubit_support[0]], n) * T
        for q in MU.get_qubit_indices_for_op(term):
            Zs = embed(leaf.Z, pos[q], n) * Zs
        d = (R.H * Zs * R - T).applyfunc(sympy.simplify)
        out.append(holds("after the rotation the term is a product of Z on its qubits", bool(d == sympy.zeros(2 ** n, 2 ** n))))
        return out


def embed(m, i, n):
    from sympy.physics.quantum import TensorProduct
    out = sympy.Matrix([[1]])
    for k in range(n):
        out = sympy.kronecker_product(out, m if k == i else sympy.eye(2))
    return out


for n, qs in ((1, (2,)), (2, (3, 1)), (3, (0, 4, 2))):
    for w in itertools.product(KINDS, repeat=n):
        if n == 3 and w.count("I") > 1:
            continue
        rotation(w, qs)


# ---------------------------------------------------------------- sums over terms
class Res:
    """a symbolic tensor result"""
    def __init__(self, e):
        self.e = e


def tensors():
    numbers()
    shim_for(torch.stack, lambda x, *a, **k: x if isinstance(x, SList) and not a and not k.get("dim") else torch.stack(x, *a, **k))
    def tsum(x, *a, **k):
        if isinstance(x, SList):
            if (a and a[0] != 0) or k.get("axis", 0) != 0 or k.get("dim", 0) != 0:
                raise Unsupported("another axis")
            return Res(_npsum(x))
        return torch.sum(x, *a, **k)
    shim_for(torch.sum, tsum)


def sums(label, r, want):
    """equality of formal sums; refuted by the values at a decomposition into a single term"""
    if not isinstance(r, Res):
        return holds(label, None, repr(r)[:200])
    if sympy.expand(r.e - want) == 0:
        return holds(label, True)
    free = (r.e.free_symbols | want.free_symbols)
    for sg in itertools.product((1, -1), repeat=min(3, len(free))):
        at = {v: sympy.Rational(3 + 2 * i, 7) * sg[i % len(sg)] for i, v in enumerate(sorted(free, key=str))}
        one = [sympy.simplify(e.replace(SUM, lambda b, x: x).subs(at)) for e in (r.e, want)]
        ok = None if not all(x.is_number for x in one) or one[0] == one[1] else False
        if ok is False:
            break
    return holds(label, ok, f"{r.e}; for one term with {at}: {one[0]} instead of {one[1]}")


def est(what, j):
    return sympy.Symbol(f"{what}[{j}]")


@obligation(P, "pauli_z_expectation/any decomposition", [FM + "pauli_z_expectation"])
def _():
    poly.reset()
    tensors()
    samples = Ref("samples")
    base = Base("terms", lambda j: (Ref("block", j), Ref("coefficient", j)))
    shim_for(MU.get_qubit_indices_for_op, lambda t, op=None: Ref("support", t[0].j) if op is None and t[0].nm == "block" and val_eq(t[0].j is t[1].j, True) else None)
    shim_for(MU.empirical_average, lambda samples_=None, support=None, **k: average(k.get("samples", samples_), support, samples))
    shim_for(MU.evaluate, lambda c, **k: est("c", c.j))
    r = MU.pauli_z_expectation(SList([raw_piece(base)]), samples)
    want = SUM(sympy.Symbol("terms"), est("avg", base.idx) * est("c", base.idx))
    return [sums("sum over the terms of coefficient times average", r, want)]


def average(s, support, samples):
    if s is not samples or not isinstance(support, Ref) or support.nm != "support":
        raise Unsupported("average of something else")
    return est("avg", support.j)


@obligation(P, "iterate_pauli_decomposition/any decomposition", [FM + "iterate_pauli_decomposition"])
def _():
    poly.reset()
    tensors()
    circ, pv, state, noise = Ref("circuit"), Ref("values"), Ref("state"), Ref("noise")
    used = []
    base = Base("terms", lambda j: (Term("block", j), Ref("coefficient", j)))
    class Be:
        def circuit(self, c):
            return Ref("converted " + c.nm, c.j)
        def sample(self, circuit=None, param_values=None, n_shots=None, state=None, noise=None, endianness=None, **k):
            if param_values is not pv or n_shots != 77 or k:
                raise Unsupported("another sampling call")
            used.append((state, noise, endianness))
            return Ref("samples of " + circuit.nm, circuit.j)
    def rot(circuit=None, pauli_term=None):
        if circuit is not circ:
            raise Unsupported("another circuit")
        return Ref("circuit rotated", pauli_term[0].j)
    def avg(samples=None, support=None):
        if not (samples.nm == "samples of converted circuit rotated" and support.nm == "support"):
            raise Unsupported("average of something else")
        if not z3.eq(samples.j, support.j):
            return sympy.Symbol("mismatch")
        return est("avg", support.j)
    shim_for(MU.rotate, rot)
    shim_for(MU.get_qubit_indices_for_op, lambda t, op=None: Ref("support", t[0].j))
    shim_for(MU.empirical_average, avg)
    shim_for(MU.evaluate, lambda c, **k: est("c", c.j))
    r = MU.iterate_pauli_decomposition(circ, pv, SList([raw_piece(base)]), 77, state=state, backend=Be(), noise=noise, endianness=LITTLE)
    want = SUM(sympy.Symbol("terms"), est("avg", base.idx) * est("c", base.idx))
    return [holds("sampled from the given state, noise and bit order", bool(used) and all(a is state and b is noise and e == LITTLE for a, b, e in used)),
            sums("sum over the terms: coefficient times the average over samples of the circuit rotated for that term, on that term's qubits", r, want)]


class Term(Ref):
    @property
    def is_identity(self):
        return decide(z3.Function("identity", z3.IntSort(), z3.BoolSort())(self.j))


class Matrix:
    """the stacked per-observable estimates: rows, transposed or not"""
    def __init__(self, rows, t=False):
        self.rows, self.t = rows, t


@obligation(P, "tomography.compute_expectation/any observables", ["qadence/measurements/tomography.py:compute_expectation"])
def _():
    poly.reset()
    import qadence.measurements.tomography as TO
    names = ("circuit", "param_values", "state", "backend", "noise")
    given = {k: Ref(k) for k in names}
    base = Base("observables", lambda j: Ref("observable", j))
    shim_for(TO.unroll_block_with_scaling, lambda o: Ref("decomposition of " + o.nm, o.j))
    def it(circuit, param_values, pauli_decomposition, n_shots, state=None, backend=None, noise=None, endianness=BIG):
        got = dict(circuit=circuit, param_values=param_values, state=state, backend=backend, noise=noise)
        bad = [k for k in names if got[k] is not given[k]]
        if bad or n_shots != 91 or endianness != LITTLE or pauli_decomposition.nm != "decomposition of observable":
            return sympy.Symbol(f"estimate with another {bad}")
        return est("estimate", pauli_decomposition.j)
    shim_for(TO.iterate_pauli_decomposition, it)
    shim_for(torch.vstack, lambda x: Matrix(x) if isinstance(x, SList) else torch.vstack(x))
    def tr(m, a, b):
        if isinstance(m, Matrix):
            if {a, b} != {0, 1}:
                raise Unsupported("another transposition")
            return Matrix(m.rows, not m.t)
        return torch.transpose(m, a, b)
    shim_for(torch.transpose, tr)
    r = TO.compute_expectation(observables=SList([raw_piece(base)]), options={"n_shots": 91}, endianness=LITTLE, **given)
    if not isinstance(r, Matrix):
        return [Claim("estimates", "unknown")]
    return [holds("batch first, then observables", r.t),
            same("one estimate per observable, in order, of that observable's decomposition", r.rows, SList([Piece(base, [(z3.BoolVal(True), est("estimate", base.idx))])]))]


@obligation(P, "tomography.compute_expectation/number of shots is required", ["qadence/measurements/tomography.py:compute_expectation"])
def _():
    poly.reset()
    import qadence.measurements.tomography as TO
    base = Base("observables", lambda j: Ref("observable", j))
    try:
        TO.compute_expectation(Ref("circuit"), SList([raw_piece(base)]), {}, {})
    except KeyError:
        return [holds("rejected", True)]
    return [holds("rejected", False)]


@obligation(P, "samples.compute_expectation/any observables", ["qadence/measurements/samples.py:compute_expectation"])
def _():
    poly.reset()
    import qadence.measurements.samples as SA
    samples = Ref("samples")
    diag = z3.Function("diagonal", z3.IntSort(), z3.BoolSort())
    ident = z3.Function("is identity", z3.IntSort(), z3.BoolSort())
    class Obs(Ref):
        @property
        def _is_diag_pauli(self):
            return decide(diag(self.j))
        @property
        def is_identity(self):
            return decide(ident(self.j))
    base = Base("observables", lambda j: Obs("observable", j))
    assume(z3.ForAll([z3.Int("q")], z3.And(diag(z3.Int("q")), z3.Not(ident(z3.Int("q"))))))
    shim_for(SA.unroll_block_with_scaling, lambda o: Ref("decomposition of " + o.nm, o.j))
    shim_for(SA.pauli_z_expectation, lambda d, s: est("estimate", d.j) if s is samples and d.nm == "decomposition of observable" else sympy.Symbol("another estimate"))
    r = SA.compute_expectation(SList([raw_piece(base)]), samples)
    return [same("one estimate per observable, in order, of that observable's decomposition", r, SList([Piece(base, [(z3.BoolVal(True), est("estimate", base.idx))])]))]

"""C05: supports are exactly the qubits acted on; krons and circuits are accepted iff they fit."""
from pyvc.kit import *
from pyvc.blocks import raw_supports
from pyvc.sets import fresh_set, int_seg, pred_of, SSet
import z3
from qadence import operations as O
from qadence.circuit import QuantumCircuit
from qadence.types import QubitSupportType
U = mod("qadence.blocks.utils")

P = "C05"
TRUSTED = ["z3 (quantified membership predicates)", "Python set/tuple/sorted semantics on integers", "pyvc/sets.py (sequences of unknown length as membership predicates)"]
ASSUMES = ["qubit indices are mathematical integers", "a symbolic support is a non-empty finite set of indices; the empty and the global support have their own obligations",
           "krons: number of factors 1..3 with arbitrary supports (the loop body is the same for every further factor)"]
FQ = ["qadence.qubit_support.QubitSupport.__new__", "qadence.qubit_support.QubitSupport.__add__", "qadence.qubit_support.QubitSupport.is_disjoint", "qadence.qubit_support._is_valid_support"]
FC = ["qadence.blocks.composite.CompositeBlock.qubit_support", "qadence.blocks.composite.CompositeBlock.n_qubits", "qadence.blocks.composite.CompositeBlock.n_supports",
      "qadence.blocks.composite.KronBlock.__init__", "qadence.blocks.primitive.PrimitiveBlock.n_qubits", "qadence.circuit.QuantumCircuit.__init__"] + FQ


def ob(name, funcs=FQ, expect=None):
    def d(fn):
        def g():
            poly.reset()
            with raw_supports():
                return fn()
        obligation(P, name, funcs, expect=expect)(g)
        return fn
    return d


def qs(*els):
    return tuple.__new__(QubitSupport, tuple(els))


I_ = z3.Int("i!claim")


def members(label, got, want):
    """got is a tuple with exactly the members described by the predicate"""
    if not isinstance(got, tuple):
        return holds(label, False, repr(got))
    return valid_here(label, pred_of(got)(I_) == want(I_))


def orp(*ps):
    return lambda z: z3.Or(*[p(z) for p in ps])


# ---------------------------------------------------------------- QubitSupport
@ob("union/any two supports")
def _():
    a, b = fresh_set("A"), fresh_set("B")
    A, B = qs(a), qs(b)
    r = A + B
    s = B + A
    return [members("A+B has exactly the members of A and B", r, orp(a.info["pred"], b.info["pred"])),
            members("commutative", s, orp(a.info["pred"], b.info["pred"])), holds("a QubitSupport", isinstance(r, QubitSupport))]


@ob("union/with a plain tuple on either side")
def _():
    a, b = fresh_set("A"), fresh_set("B")
    return [members("A+(b)", qs(a) + (b,), orp(a.info["pred"], b.info["pred"])), members("radd", qs(a).__radd__((b,)), orp(a.info["pred"], b.info["pred"]))]


@ob("union/idempotent and neutral")
def _():
    a = fresh_set("A")
    A = qs(a)
    e = QubitSupport()
    return [members("A+A", A + A, a.info["pred"]), members("A+()", A + e, a.info["pred"]), members("()+A", e + A, a.info["pred"]), holds("()+()", tuple(e + e) == ())]


@ob("union/associative")
def _():
    a, b, c = fresh_set("A"), fresh_set("B"), fresh_set("C")
    A, B, C = qs(a), qs(b), qs(c)
    w = orp(a.info["pred"], b.info["pred"], c.info["pred"])
    return [members("(A+B)+C", (A + B) + C, w), members("A+(B+C)", A + (B + C), w)]


@ob("union/global")
def _():
    a = fresh_set("A")
    A, G = qs(a), QubitSupport("global")
    p = a.info["pred"]
    k, m = z3.Int("k!c"), fresh_int("m")
    assume(p(m.z))
    out = []
    for nm, r in (("A+global", A + G), ("global+A", G + A)):
        # every qubit up to the largest index of A
        q = pred_of(r)
        out.append(valid_here(f"{nm}: members of A", z3.Implies(p(I_), q(I_))))
        out.append(valid_here(f"{nm}: everything below a member", z3.Implies(z3.And(k >= 0, k <= m.z), q(k))))
        out.append(valid_here(f"{nm}: nothing above the largest", z3.Implies(q(I_), z3.And(I_ >= 0, z3.Exists([k], z3.And(p(k), k >= I_))))))
    out.append(holds("global+global", (G + G).is_global))
    out.append(holds("global+()", (G + QubitSupport()).is_global and (QubitSupport() + G).is_global))
    return out


def tuples(na, nb):
    def f():
        a = [fresh_int("a", 0) for _ in range(na)]
        b = [fresh_int("b", 0) for _ in range(nb)]
        for xs in (a, b):
            for i in range(len(xs)):
                for j in range(i):
                    assume(xs[i].z != xs[j].z)
        r, s = QubitSupport(*a) + QubitSupport(*b), QubitSupport(*b) + QubitSupport(*a)
        els = list(r)
        out = [members("exactly the members", r, lambda z: z3.Or(*[z == x.z for x in a + b]) if a or b else z3.BoolVal(False))]
        for i in range(len(els)):
            for j in range(i):
                out.append(valid_here("no duplicates", zlift(els[i]) != zlift(els[j])))
        out.append(holds("same size either way", len(r) == len(s)))
        return out
    ob(f"union/no duplicates {na}+{nb}")(f)


for na, nb in ((0, 1), (1, 1), (1, 2), (2, 2)):
    tuples(na, nb)


@ob("union/the result does not depend on the order of the operands (concrete large indices)")
def _():
    import itertools
    vals = (0, 1, 5, 8, 9, 16, 17, 33, 1025)
    bad = [(x, y, z) for x, y, z in itertools.product(vals, repeat=3)
           if tuple(QubitSupport(x) + QubitSupport(y) + QubitSupport(z)) != tuple(QubitSupport(z) + (QubitSupport(y) + QubitSupport(x)))]
    return [holds("order independent", not bad, bad[:3])]


@ob("is_disjoint/decided exactly")
def _():
    a, b = fresh_set("A"), fresh_set("B")
    pa, pb = a.info["pred"], b.info["pred"]
    r = qs(a).is_disjoint(qs(b))
    if r:
        return [valid_here("True: no common member", z3.Not(z3.And(pa(I_), pb(I_))))]
    return [valid_here("False: a common member exists", z3.Exists([I_], z3.And(pa(I_), pb(I_))))]


@ob("is_disjoint/plain tuple, empty, global")
def _():
    a, b = fresh_set("A"), fresh_set("B")
    pa, pb = a.info["pred"], b.info["pred"]
    G, E = QubitSupport("global"), QubitSupport()
    out = [holds("empty is disjoint from everything", qs(a).is_disjoint(E) and E.is_disjoint(qs(a)) and E.is_disjoint(())),
           holds("global overlaps everything", not G.is_disjoint(qs(a)) and not qs(a).is_disjoint(G) and not G.is_disjoint(G))]
    r = qs(a).is_disjoint((b,))
    out.append(valid_here("tuple operand", z3.Not(z3.And(pa(I_), pb(I_)))) if r else valid_here("tuple operand", z3.Exists([I_], z3.And(pa(I_), pb(I_)))))
    return out


def ctor(n, as_tuple):
    def f():
        xs = [fresh_int("x") for _ in range(n)]
        neg = z3.Or(*[x.z < 0 for x in xs]) if xs else z3.BoolVal(False)
        try:
            r = QubitSupport(tuple(xs)) if as_tuple else QubitSupport(*xs)
        except ValueError:
            return [valid_here("rejected only negative indices", neg)]
        return [valid_here("accepted only non-negative indices", z3.Not(neg)), holds("same length", len(r) == n),
                *[valid_here("same index", zlift(g) == x.z) for g, x in zip(r, xs)], holds("not global", not r.is_global)]
    ob(f"QubitSupport({n} indices{' in a tuple' if as_tuple else ''})")(f)


for n in range(4):
    ctor(n, False)
    ctor(n, True)


@ob("QubitSupport(any collection of valid indices)")
def _():
    a = fresh_set("A")
    return [members("kept", QubitSupport((a,)), a.info["pred"]), members("kept", QubitSupport(a), a.info["pred"]), members("kept", QubitSupport(qs(a)), a.info["pred"])]


# ---------------------------------------------------------------- blocks
class Stub(PrimitiveBlock):
    """a digital gate on an arbitrary set of qubits"""
    name = "Stub"
    tag = None
    def __ascii__(self, c):
        return ""
    eigenvalues_generator = None


Stub.__abstractmethods__ = frozenset()


def stub(seg):
    return Stub((seg,))


def nq(label, n, p):
    return [valid_here(f"{label}: one more than an index", p(zlift(n) - 1)), valid_here(f"{label}: above every index", z3.Implies(p(I_), I_ < zlift(n)))]


def comp(K, n):
    def f():
        segs = [fresh_set("A") for _ in range(n)]
        b = mk(K, *[stub(s) for s in segs])
        w = orp(*[s.info["pred"] for s in segs])
        return [members("support is the union", b.qubit_support, w), *nq("n_qubits", b.n_qubits, w)]
    ob(f"{K.__name__}/support of {n} children", FC)(f)


for K in (ChainBlock, KronBlock, AddBlock):
    for n in (1, 2, 3):
        comp(K, n)


def nested(three):
    def f():
        a, b = (fresh_set("A") for _ in range(2))
        c = fresh_set("A") if three else b
        w = orp(a.info["pred"], b.info["pred"], c.info["pred"])
        x = mk(ChainBlock, mk(AddBlock, stub(a), ScaleBlock(stub(b), 2)), ScaleBlock(mk(ChainBlock, stub(c), stub(a)), 3))
        return [members("union of all leaves", x.qubit_support, w), *nq("n_qubits", x.n_qubits, w)]
    ob(f"composite/nested support ({3 if three else 2} leaf supports)", FC)(f)


import pyvc.prove as _pv
nested(False)
if _pv.TIER == "thorough":
    nested(True)


@ob("composite/explicit indices: number of supports", FC)
def _():
    q = [fresh_int("q", 0) for _ in range(3)]
    b = mk(ChainBlock, O.X(q[0]), O.RX(q[1], 0.1), ScaleBlock(O.H(q[2]), 2))
    s = list(b.qubit_support)
    n = b.n_supports
    out = [members("union", tuple(s), lambda z: z3.Or(*[z == x.z for x in q])), holds("number of supports is its size", n == len(s))]
    for i in range(len(s)):
        for j in range(i):
            out.append(valid_here("no duplicates", zlift(s[i]) != zlift(s[j])))
    return out + nq("n_qubits", b.n_qubits, lambda z: z3.Or(*[z == x.z for x in q]))


@ob("composite/empty", FC)
def _():
    out = []
    for K in (ChainBlock, AddBlock):
        b = K(())
        out += [holds("no qubits", tuple(b.qubit_support) == () and b.n_qubits == 0 and b.n_supports == 0)]
    return out


# any number of children, against the contract of the union proved above
def comp_all(K):
    def f():
        poly.reset()
        s, d = new_seg(kron=K is KronBlock)
        A = new_opaque("A")
        b = mk(K, A, s)
        return [set_eq("support is the union over all children", support_atoms(b.qubit_support), frozenset(A.sup) | {("S", d)})]
    obligation(P, f"{K.__name__}/support of any number of children", FC)(f)


for K in (ChainBlock, KronBlock, AddBlock):
    comp_all(K)

GATES = {"X": lambda q: O.X(q[0]), "T": lambda q: O.T(q[0]), "TDagger": lambda q: O.TDagger(q[0]), "H": lambda q: O.H(q[0]), "S": lambda q: O.S(q[0]), "I": lambda q: O.I(q[0]), "N": lambda q: O.N(q[0]),
         "RX": lambda q: O.RX(q[0], 0.1), "PHASE": lambda q: O.PHASE(q[0], 0.1), "U": lambda q: O.U(q[0], 0.1, 0.2, 0.3)}


def gate(nm):
    def f():
        q = [fresh_int("q", 0)]
        b = GATES[nm](q)
        p = lambda z: z == q[0].z
        return [members("support", tuple(b.qubit_support), p), *nq("n_qubits", b.n_qubits, p), holds("n_supports", b.n_supports == 1),
                *nq("scaled", ScaleBlock(b, 2).n_qubits, p), members("scaled support", tuple(ScaleBlock(b, 2).qubit_support), p)]
    ob(f"gate/{nm}", FC)(f)


for nm in GATES:
    gate(nm)
MULTI = {"CNOT": (2, lambda q: O.CNOT(q[0], q[1])), "CZ": (2, lambda q: O.CZ(q[0], q[1])), "MCZ": (3, lambda q: O.MCZ((q[0], q[1]), q[2])),
         "CRX": (2, lambda q: O.CRX(q[0], q[1], 0.1)), "MCRY": (3, lambda q: O.MCRY((q[0], q[1]), q[2], 0.1)), "CPHASE": (2, lambda q: O.CPHASE(q[0], q[1], 0.1)),
         "MCPHASE": (3, lambda q: O.MCPHASE((q[0], q[1]), q[2], 0.3)), "SWAP": (2, lambda q: O.SWAP(q[0], q[1])), "CSWAP": (3, lambda q: O.CSWAP(q[0], q[1], q[2])),
         "Toffoli": (3, lambda q: O.Toffoli((q[0], q[1]), q[2])), "CRZ": (2, lambda q: O.CRZ(q[0], q[1], 0.1)), "MCRX": (3, lambda q: O.MCRX((q[0], q[1]), q[2], 0.1)),
         "MCRZ": (3, lambda q: O.MCRZ((q[0], q[1]), q[2], 0.1)), "CRY": (2, lambda q: O.CRY(q[0], q[1], 0.1))}


def mgate(nm):
    n, f0 = MULTI[nm]
    def f():
        q = [fresh_int("q", 0) for _ in range(n)]
        for i in range(n):
            for j in range(i):
                assume(q[i].z != q[j].z)
        b = f0(q)
        p = lambda z: z3.Or(*[z == x.z for x in q])
        return [members("support", tuple(b.qubit_support), p), *nq("n_qubits", b.n_qubits, p), holds("n_supports", b.n_supports == n), holds("no duplicates", len(tuple(b.qubit_support)) == n)]
    ob(f"gate/{nm}", FC)(f)


for nm in MULTI:
    mgate(nm)


# ---------------------------------------------------------------- krons
def kron_n(n, via):
    def f():
        segs = [fresh_set("A") for _ in range(n)]
        ps = [s.info["pred"] for s in segs]
        bl = [stub(s) for s in segs]
        overlap = z3.Exists([I_], z3.Or(*[z3.And(ps[i](I_), ps[j](I_)) for i in range(n) for j in range(i)])) if n > 1 else z3.BoolVal(False)
        try:
            b = KronBlock(tuple(bl)) if via == "class" else U.kron(*bl)
        except (AssertionError, ValueError):
            return [valid_here("rejected only overlapping factors", overlap)]
        k = z3.Int("k!c")
        none = z3.And(*[z3.Not(z3.And(ps[i](k), ps[j](k))) for i in range(n) for j in range(i)]) if n > 1 else z3.BoolVal(True)
        return [valid_here("accepted only disjoint factors", none), members("support", b.qubit_support, orp(*ps)), holds("all factors kept in order", [x is y for x, y in zip(b.blocks, bl)] == [True] * n and len(b.blocks) == n)]
    ob(f"kron/{n} factors ({via})", FC)(f)


for n in (1, 2, 3):
    kron_n(n, "class")
    kron_n(n, "kron()")


@ob("kron/global factors are rejected", FC)
def _():
    a = fresh_set("A")
    g = Stub(QubitSupport("global"))
    out = []
    for bl in ((g,), (stub(a), g), (g, stub(a))):
        try:
            KronBlock(bl)
            out.append(holds("global factor accepted", False))
        except (AssertionError, ValueError):
            out.append(holds("rejected", True))
    try:
        KronBlock(())
        out.append(holds("empty accepted", False))
    except NotImplementedError:
        out.append(holds("empty rejected", True))
    return out


# ---------------------------------------------------------------- circuits
class Reg:
    def __init__(self, n):
        self.n_qubits = n


def circ(nm, mkb, n):
    def f():
        segs = [fresh_set("A") for _ in range(n)]
        bl = mkb([stub(s) for s in segs])
        p = orp(*[s.info["pred"] for s in segs])
        r = fresh_int("r", 0)
        try:
            c = QuantumCircuit(Reg(r), *bl)
        except ValueError:
            return [valid_here("rejected only a block that needs more qubits", z3.Exists([I_], z3.And(p(I_), I_ >= r.z)))]
        return [valid_here("accepted only a block that fits", z3.Implies(p(I_), I_ < r.z)), members("support unchanged", tuple(c.block.qubit_support), p), valid_here("width", zlift(c.n_qubits) == r.z)]
    ob(f"circuit/{nm}", FC)(f)


circ("one gate", lambda b: b, 1)
circ("chain", lambda b: [mk(ChainBlock, *b)], 2)
circ("several blocks", lambda b: b, 2)
circ("sum, scaled", lambda b: [ScaleBlock(mk(AddBlock, *b), 2)], 2)
circ("nested", lambda b: [mk(ChainBlock, mk(AddBlock, b[0], b[1]), b[2])], 3)

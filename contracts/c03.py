"""C03: relabelling is the algebra homomorphism induced by the qubit map; bit-order inversion is its own inverse."""
from pyvc.kit import *
from pyvc.blocks import relabel, relabel_sup
import z3, itertools
from collections import Counter
from qadence import operations as O
from qadence.blocks import chain, kron, add
from qadence.circuit import QuantumCircuit
INV = mod("qadence.transpile.invert")

P = "C03"
TRUSTED = ["operator normaliser (pyvc/poly.py)", "z3", "copy.deepcopy copies object graphs", "int(s, 2) and format(k, '0nb') convert bit strings"]
ASSUMES = ["qubit maps are injective on the block's support (an operator on merged qubits is not defined)", "trees are finite and acyclic",
           "induction hypothesis: relabelling a proper sub-block relabels its operator and support", "digital blocks (analog supports are not relabelled)"]
F = ["qadence.transpile.invert.reassign"]


class FuncMap(dict):
    """an arbitrary qubit map: an uninterpreted function"""
    def __init__(self, f):
        self.f = f
    def __getitem__(self, i):
        return SNum(self.f(zlift(i)))
    def get(self, i, d=None):
        return self[i]
    def __contains__(self, i):
        return True
    def __deepcopy__(self, m):
        return self


def ih(fn, a, k):
    """induction hypothesis"""
    if a and isinstance(a[0], Opaque):
        return Opaque(relabel(a[0].den), relabel_sup(a[0].sup), a[0].kinds, "relabelled")
    return NotImplemented


def build(K, shape):
    if shape == "seg":
        s, d = new_seg(kron=K is KronBlock)
        return mk(K, s)
    A, B = new_opaque("A"), new_opaque("B")
    s, d = new_seg(kron=K is KronBlock)
    if K is KronBlock:
        FACTS.add(*[list(x)[0] for x in (A.sup, B.sup)])
        for x in (A, B):
            FACTS.add(list(x.sup)[0], ("S", d)); FACTS.add(list(x.sup)[0], ("es", d))
    return mk(K, A, s, B)


for K in (ChainBlock, KronBlock, AddBlock):
    for shape in ("seg", "ends"):
        def f(K=K, shape=shape):
            poly.reset()
            b = build(K, shape)
            b.tag = "t"
            before = snap(b)
            r = INV.reassign(b, FuncMap(z3.Function("m", z3.IntSort(), z3.IntSort())))
            return [op_eq("operator relabelled", den(r), relabel(den(b))), set_eq("support relabelled", sup(r), relabel_sup(sup(b))), unchanged("input unchanged", before, b)]
        obligation(P, f"reassign/{K.__name__}/{shape}", F, induct=ih)(f)


@obligation(P, "reassign/ScaleBlock", F, induct=ih)
def _():
    poly.reset()
    A = new_opaque("A")
    q = Parameter("q", value=0.5)
    out = []
    for e in (q, 2.5, 1j, q * q + 1):
        b = ScaleBlock(A, e)
        before = snap(b)
        r = INV.reassign(b, FuncMap(z3.Function("m", z3.IntSort(), z3.IntSort())))
        out += [op_eq(f"operator relabelled, factor {e}", den(r), relabel(den(b))), set_eq("support", sup(r), relabel_sup(sup(b))), unchanged("input unchanged", before, b)]
    return out


m = z3.Function("m", z3.IntSort(), z3.IntSort())


def same_args(r, b):
    """parameters, projector labels and noise are those of the original"""
    ps = lambda x: [sympy.srepr(e) for e in x.parameters.expressions()] if hasattr(x, "parameters") else []
    return ps(r) == ps(b) and getattr(r, "ket", None) == getattr(b, "ket", None) and getattr(r, "bra", None) == getattr(b, "bra", None) and type(r) is type(b)


def mapped_tuple(label, got, old):
    return valid_here(label, z3.And(len(got) == len(old), *[zlift(g) == m(zlift(o)) for g, o in zip(got, old)]))


def leaf_ob(nm, mkb):
    def f():
        poly.reset()
        qs = [fresh_int("q", 0) for _ in range(4)]
        b = mkb(qs)
        before = snap(b)
        r = INV.reassign(b, FuncMap(m))
        out = [holds("same gate and parameters", same_args(r, b)), mapped_tuple("support mapped", r.qubit_support, b.qubit_support), unchanged("input unchanged", before, b)]
        if hasattr(b, "blocks"):
            out += [holds("same target gate", same_args(r.blocks[0], b.blocks[0])), mapped_tuple("target support mapped", r.blocks[0].qubit_support, b.blocks[0].qubit_support)]
            if hasattr(b, "control"):
                out.append(mapped_tuple("controls mapped", r.control, b.control))
        return out
    obligation(P, f"reassign/{nm}", F)(f)


th = lambda: Parameter("th", value=0.3)
for nm in ("X", "Y", "Z", "I", "H", "S", "SDagger", "T", "TDagger", "N"):
    leaf_ob(nm, lambda q, nm=nm: getattr(O, nm)(q[0]))
for nm in ("RX", "RY", "RZ", "PHASE"):
    leaf_ob(nm, lambda q, nm=nm: getattr(O, nm)(q[0], 2 * th()))
leaf_ob("U", lambda q: O.U(q[0], th(), 2 * th(), 3 * th()))


# gates built on concrete qubits (their constructors compare indices), images arbitrary
def gate_ob(nm, mkb):
    def f():
        poly.reset()
        out = []
        for qs in ((0, 1, 2, 3), (5, 2, 7, 1)):
            b = mkb(qs)
            before = snap(b)
            r = INV.reassign(b, FuncMap(m))
            out += [holds("same gate and parameters", same_args(r, b)), mapped_tuple("support mapped", r.qubit_support, b.qubit_support), unchanged("input unchanged", before, b)]
            if hasattr(b, "blocks"):
                out += [holds("same target gate", same_args(r.blocks[0], b.blocks[0])), mapped_tuple("target support mapped", r.blocks[0].qubit_support, b.blocks[0].qubit_support)]
        return out
    obligation(P, f"reassign/{nm}", F)(f)


gate_ob("SWAP", lambda q: O.SWAP(q[0], q[1]))
gate_ob("CNOT", lambda q: O.CNOT(q[0], q[1]))
gate_ob("CZ", lambda q: O.CZ(q[0], q[1]))
gate_ob("MCZ", lambda q: O.MCZ((q[0], q[2]), q[1]))
gate_ob("CSWAP", lambda q: O.CSWAP(q[0], q[1], q[2]))
gate_ob("Toffoli", lambda q: O.Toffoli((q[0], q[2]), q[1]))
for nm in ("CRX", "CRY", "CRZ", "CPHASE"):
    gate_ob(nm, lambda q, nm=nm: getattr(O, nm)(q[0], q[1], 2 * th()))
for nm in ("MCRX", "MCRY", "MCRZ", "MCPHASE"):
    gate_ob(nm, lambda q, nm=nm: getattr(O, nm)((q[0], q[1], q[3]), q[2], th()))
gate_ob("Projector", lambda q: O.Projector("01", "10", (q[0], q[1])))


@obligation(P, "reassign/HamEvo", F, induct=ih)
def _():
    poly.reset()
    t = Parameter("t", value=0.4)
    b = O.HamEvo(O.X(1) + O.Z(3), 2 * t)
    A = new_opaque("G")
    class QS(tuple):
        pass
    b.generator = A          # an arbitrary generator
    r = INV.reassign(b, FuncMap(m))
    return [op_eq("generator relabelled", den(r.generator), relabel(A.den)), mapped_tuple("support mapped", r.qubit_support, b.qubit_support),
            holds("time kept", sympy.srepr(r.parameters.parameter) == sympy.srepr(b.parameters.parameter)), holds("original generator kept", b.generator is A)]


# ---------------------------------------------------------------- bit order
for n in range(1, 8):
    def f(n=n):
        poly.reset()
        qm = {}
        real = INV.reassign
        def spy(block, qubit_map=None):
            qm.update(qubit_map)
            return block
        VC.shim(real, spy)
        try:
            b = O.X(0)
            INV.invert_endianness(b, n)
        finally:
            VC.shims.pop(id(real), None)
        return [holds("qubit i goes to n-1-i", qm == {i: n - 1 - i for i in range(n)}),
                holds("the map is its own inverse", all(qm[qm[i]] == i for i in qm))]
    obligation(P, f"invert_endianness/block map n={n} [fixed n]", ["qadence.transpile.invert.invert_endianness"])(f)


for n in range(1, 7):
    def f(n=n):
        import torch
        wf = torch.arange(2**n, dtype=torch.double).reshape(1, -1)
        wf = torch.cat([wf, wf + 100])
        r = INV.invert_endianness(wf)
        rev = lambda k: int(format(k, f"0{n}b")[::-1], 2)
        ok = all(int(r[0, k]) == rev(k) and int(r[1, k]) == 100 + rev(k) for k in range(2**n))
        return [holds("amplitude of k is that of the reversed index", ok), holds("involution", bool((INV.invert_endianness(r) == wf).all())),
                holds("input unchanged", [int(x) for x in wf[0]] == list(range(2**n)))]
    obligation(P, f"invert_endianness/state n={n} [fixed n, all amplitudes]", ["qadence.transpile.invert.invert_endianness"])(f)

    def f(n=n):
        # counts are arbitrary (distinct symbols); every key of n bits
        keys = ["".join(x) for x in itertools.product("01", repeat=n)]
        c = Counter({k: 3 + 7 * i for i, k in enumerate(keys)})
        r = INV.invert_endianness(c)
        return [holds("every outcome keeps its own count", dict(r) == {k[::-1]: c[k] for k in keys}), holds("total preserved", sum(r.values()) == sum(c.values())),
                holds("involution", INV.invert_endianness(r) == c)]
    obligation(P, f"invert_endianness/counter n={n} [fixed n, all outcomes]", ["qadence.transpile.invert.invert_endianness"])(f)

"""C04: block arithmetic is operator algebra, for every pair of operand classes."""
from pyvc.kit import *
from pyvc.scalars import range_dom, sym_of
import z3, operator
import numpy as np
from qadence import operations as O
U = mod("qadence.blocks.utils")

P = "C04"
TRUSTED = ["operator normaliser (pyvc/poly.py)", "z3", "sympy arithmetic on scalar factors", "Python's dispatch of binary operators"]
ASSUMES = ["scalars are arbitrary symbols or the listed number types; floating-point rounding ignored",
           "the operator of a leaf gate is an arbitrary operator on its qubits (arithmetic never looks inside a gate)"]
F = ["qadence.blocks.abstract.AbstractBlock", "qadence.blocks.utils.chain", "qadence.blocks.utils.kron", "qadence.blocks.utils.add", "qadence.blocks.utils._construct",
     "qadence.blocks.primitive.ScaleBlock.__pow__", "qadence.operations.primitive.Zero", "qadence.operations.primitive.I"]
SPECIAL = [c for c in DIGITAL if c.__name__ in ("Zero", "I")]
OPS = ("mul", "imul", "add", "iadd", "sub", "isub", "matmul", "imatmul")
# classes by where their operators are defined, found in the current source
def definer(K, m):
    for c in K.__mro__:
        if m in vars(c):
            return c
    return None


GEN = frozenset(k for k in DIGITAL if k not in SPECIAL)


def atom_of(b):
    (w,) = list(b.den.t)
    return w[0][:2]


def now(p, *operands):
    """the operator with operands replaced by their components where the path looked inside them"""
    for b in operands:
        if isinstance(b, Opaque) and b._mat is not None:
            p = p.subst(atom_of(b), b._matden)
    return p


def operand(kind, lab, disjoint=None):
    if kind == "any":
        return new_opaque(lab, kinds=GEN)
    if kind == "leaf":
        return new_opaque(lab, kinds=frozenset(k for k in PRIMITIVE if k not in SPECIAL))
    if kind == "scale":
        s = sympy.Symbol(f"s_{lab}")
        return ScaleBlock(new_opaque(lab), s)
    if kind in ("chain", "kron", "add"):
        K = {"chain": ChainBlock, "kron": KronBlock, "add": AddBlock}[kind]
        s, d = new_seg(kron=kind == "kron")
        return mk(K, s)
    if kind == "mixed-add":
        s, d = new_seg()
        return mk(AddBlock, ScaleBlock(new_opaque("h"), sympy.Symbol("t_" + lab)), s)
    if kind == "mixed-chain":
        s, d = new_seg()
        return mk(ChainBlock, new_opaque("h"), s)
    if kind == "Zero":
        return O.Zero()
    if kind == "I":
        return O.I(3)
    raise AssertionError(kind)


def dd(b):
    n = type(b).__name__
    return Poly.zero() if n == "Zero" else Poly.one() if n == "I" else den(b)


SPEC = {"mul": lambda x, y: x.then(y), "add": lambda x, y: x + y, "sub": lambda x, y: x + y.scale(-1), "matmul": lambda x, y: x.then(y)}
FN = {o: getattr(operator, o) for o in OPS}


def no_identity(p):
    """identity and zero leaves by their meaning"""
    out = Poly.zero()
    for w, c in p.t.items():
        if any(a[0] == "op" and isinstance(a[1], tuple) and a[1][:2] == ("leaf", "Zero") for a in w):
            continue
        out = out + Poly({tuple(a for a in w if not (a[0] == "op" and isinstance(a[1], tuple) and a[1][:2] == ("leaf", "I"))): c})
    return out


def make_disjoint(A, B):
    for a in sup(A):
        for b in sup(B):
            FACTS.add(a, b)
            for x, y in ((a, b), (b, a)):
                if x[0] == "S":
                    FACTS.add(("es", x[1]), y)
                    if y[0] == "S":
                        FACTS.add(("es", x[1]), ("es", y[1]))


KINDS = ("any", "scale", "chain", "kron", "add", "mixed-add", "mixed-chain")


def binary(op, ka, kb):
    def f():
        poly.reset()
        A, B = operand(ka, "A"), operand(kb, "B")
        base = op[1:] if op.startswith("i") else op
        if base == "matmul":
            make_disjoint(A, B)
        ba, bb = snap(A), snap(B)
        want = SPEC[base](dd(A), dd(B))
        ws = sup(A) | sup(B)
        r = FN[op](A, B)
        out = [op_eq("operator", now(no_identity(den(r)), A, B), now(want, A, B)), unchanged("left operand unchanged", ba, A), unchanged("right operand unchanged", bb, B)]
        if not {ka, kb} & {"Zero", "I"} and not any(isinstance(x, Opaque) and x._mat is not None for x in (A, B)):
            out.append(set_eq("support is the union", sup(r), ws))
        return out
    obligation(P, f"{op}/{ka},{kb}", F, expect=None)(f)


for op in OPS:
    for ka in KINDS:
        for kb in KINDS:
            if "matmul" in op and (ka.startswith("mixed") or kb.startswith("mixed")):
                continue
            binary(op, ka, kb)
for op in ("mul", "imul", "add", "iadd", "sub", "isub"):
    for k in ("any", "scale", "add", "chain"):
        binary(op, "Zero", k)
    for k in ("leaf", "scale", "add", "chain"):
        binary(op, "I", k)
    binary(op, "any", "Zero")
    binary(op, "any", "I")


def scal(ka):
    def f():
        poly.reset()
        out = []
        x = sympy.Symbol("x")
        for s in (x, Parameter("p", value=0.3), Parameter("p") ** 2 + 1, 2, -1.5, 0, 2 - 1j, np.float64(0.5), np.int64(3)):
            A = operand(ka, "A")
            before = snap(A)
            want = dd(A).scale(sympy.sympify(s))
            for nm, r in (("A*s", A * s), ("s*A", A.__rmul__(s))):
                out.append(op_eq(f"{nm} for s={s}", now(no_identity(den(r)), A), now(want, A)))
            if not (isinstance(s, (int, float)) and s == 0):
                out.append(op_eq(f"A/s for s={s}", now(no_identity(den(A / s)), A), now(dd(A).scale(1 / sympy.sympify(s)), A)))
            out.append(unchanged("operand unchanged", before, A))
        A = operand(ka, "A")
        out.append(op_eq("-A", now(no_identity(den(-A)), A), now(dd(A).scale(-1), A)))
        out.append(op_eq("+A", now(no_identity(den(+A)), A), now(dd(A), A)))
        out.append(op_eq("0 + A (builtin sum)", now(no_identity(den(0 + A)), A), now(dd(A), A)))
        return out
    obligation(P, f"scalar/{ka}", F)(f)


for k in ("leaf", "scale", "chain", "kron", "add", "Zero", "I"):
    scal(k)


def power(ka):
    def f():
        poly.reset()
        n = fresh_int("n", 1 if ka == "Zero" else 0)
        A = operand(ka, "A")
        before = snap(A)
        r = A ** n
        if ka == "Zero":
            return [op_eq("0**n = 0", no_identity(den(r)), Poly.zero())]
        nz = decide(n.z > 0)
        got = no_identity(den(r))
        if not nz:
            got = Poly({w: sympy.sympify(c).subs(sym_of(n), 0) for w, c in got.t.items()})
            return [op_eq("A**0 = 1", got, Poly.one())]
        if ka == "scale":
            want = poly.fold_seg("mul", range_dom(n), 1, den(A.block)).scale(A.parameters.parameter ** sym_of(n))
        elif ka == "I":
            want = Poly.one()
            got = Poly({tuple(a for a in w if not (a[0] == "prod" and a[1] == range_dom(n) and "leaf" in repr(a) and "'I'" in repr(a))): c for w, c in got.t.items()})
        else:
            want = poly.fold_seg("mul", range_dom(n), 1, dd(A))
        return [op_eq("A**n is the n-fold product, every n > 0", got, want), unchanged("operand unchanged", before, A),
                *([set_eq("support", sup(r), sup(A))] if ka not in ("I",) else [])]
    obligation(P, f"pow/{ka}", F)(f)
    def g():
        poly.reset()
        out = []
        for n in range(0 if ka != "Zero" else 1, 5):
            A = operand(ka, "A")
            want = Poly.one()
            for _ in range(n):
                want = want.then(dd(A))
            out.append(op_eq(f"A**{n}", no_identity(den(A ** n)), want))
        return out
    obligation(P, f"pow-small/{ka}", F)(g)


for k in ("leaf", "scale", "chain", "kron", "add", "Zero", "I"):
    power(k)


@obligation(P, "negative powers are never silently wrong", F)
def _():
    poly.reset()
    n = fresh_int("n", None, -1)
    A = operand("leaf" if decide(fresh_int("c", 0, 1).z == 0) else "scale", "A")
    try:
        r = A ** n
    except (ValueError, TypeError, NotImplementedError):
        return [holds("rejected", True)]
    return [holds("negative power of an arbitrary operator returned a block", False)]


# constructors: argument forms
def construct(nm, fn, op, K):
    def f():
        poly.reset()
        A, B = new_opaque("A"), new_opaque("B")
        s, d = new_seg(kron=K is KronBlock)
        if K is KronBlock:
            make_disjoint(A, B)
            seg = mk(K, s)
            make_disjoint(A, seg); make_disjoint(B, seg)
        want = den(mk(K, A, s, B))
        out = []
        forms = {"args": lambda: fn(A, *mk(K, s).blocks, B)}
        for lab, t in forms.items():
            r = t()
            out += [op_eq(f"{nm} from {lab}", den(r), want), set_eq("support", sup(r), sup(A) | sup(B) | frozenset([("S", d)])), holds("class", isinstance(r, K))]
        r = fn(x for x in (A, B))
        out.append(op_eq(f"{nm} from a generator", den(r), den(mk(K, A, B))))
        return out
    obligation(P, f"construct/{nm}", F)(f)


construct("chain", U.chain, "mul", ChainBlock)
construct("kron", U.kron, "mul", KronBlock)
construct("add", U.add, "add", AddBlock)


@obligation(P, "every override of an operator is under an obligation", F)
def _():
    known = {"AbstractBlock", "ScaleBlock", "Zero", "I", "HamEvo"}
    bad = set()
    for K in DIGITAL | {PutBlock}:
        for m in ("__mul__", "__rmul__", "__imul__", "__truediv__", "__add__", "__radd__", "__iadd__", "__sub__", "__isub__", "__pow__", "__neg__", "__pos__", "__matmul__", "__imatmul__"):
            c = definer(K, m)
            if c is not None and c.__name__ not in known:
                bad.add(f"{c.__name__}.{m}")
    return [Claim("no unknown override", "proved" if not bad else "unknown", sorted(bad), "enumeration of the classes")]

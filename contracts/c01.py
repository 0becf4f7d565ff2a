"""C01: dagger() denotes the adjoint, on every class, by structural induction."""
from pyvc.kit import *
from qadence import operations as O
from qadence.circuit import QuantumCircuit

P = "C01"
TRUSTED = ["gate matrices in pyvc/leaf.py (textbook definitions)", "sympy matrix arithmetic", "z3", "copy.deepcopy copies object graphs"]
ASSUMES = ["trees are finite and acyclic (structural induction)", "parameter values are real numbers; floating-point rounding ignored",
           "the induction hypothesis on sub-blocks is the contract of dagger on Opaque blocks"]


def composite(K):
    def f():
        poly.reset()
        s, d = new_seg(kron=K is KronBlock)
        b = mk(K, s)
        b.tag = "t"
        before, want, ws = snap(b), den(b).adj(), sup(b)
        r = b.dagger()
        out = [op_eq("operator is the adjoint", den(r), want), set_eq("same support", sup(r), ws),
               unchanged("operand unchanged", before, b)]
        rr = r.dagger()
        out.append(op_eq("involution", den(rr), den(b)))
        return out
    return f


for K in (ChainBlock, KronBlock, AddBlock):
    obligation(P, f"{K.__name__}.dagger/all-lengths", ["qadence.blocks.composite.CompositeBlock.dagger"])(composite(K))


def mixed(K):
    """explicit first and last elements around an arbitrary run"""
    def f():
        poly.reset()
        A, B = new_opaque("A"), new_opaque("B")
        s, d = new_seg(kron=K is KronBlock)
        if K is KronBlock:
            FACTS.add(*[list(x)[0] for x in (A.sup, B.sup)])
            for x in (A, B):
                FACTS.add(list(x.sup)[0], ("S", d)); FACTS.add(list(x.sup)[0], ("es", d))
        b = mk(K, A, s, B)
        want = den(b).adj()
        r = b.dagger()
        return [op_eq("operator is the adjoint", den(r), want), set_eq("same support", sup(r), sup(b))]
    return f


for K in (ChainBlock, KronBlock, AddBlock):
    obligation(P, f"{K.__name__}.dagger/ends", ["qadence.blocks.composite.CompositeBlock.dagger"])(mixed(K))


@obligation(P, "ScaleBlock.dagger/real", ["qadence.blocks.primitive.ScaleBlock.dagger"])
def _():
    poly.reset()
    A = new_opaque("A")
    s = Parameter("s", value=0.5)
    b = ScaleBlock(A, s)
    before = snap(b)
    r = b.dagger()
    conv = lambda p: Poly({w: leaf.real(c) for w, c in p.t.items()})
    return [op_eq("operator is the adjoint", conv(den(r)), conv(den(b)).adj()), set_eq("same support", sup(r), sup(b)),
            unchanged("operand unchanged", before, b)]


@obligation(P, "ScaleBlock.dagger/complex-factor", ["qadence.blocks.primitive.ScaleBlock.dagger"])
def _():
    poly.reset()
    A = new_opaque("A")
    x, y = sympy.Symbol("x", real=True), sympy.Symbol("y", real=True)
    out = []
    for e in (x + sympy.I * y, sympy.I * x, sympy.cos(x) + sympy.I * sympy.sin(y), x * y):
        b = ScaleBlock(A, e)
        r = b.dagger()
        got, want = den(r), den(b).adj()
        got = Poly({w: sympy.sympify(c).replace(lambda t: type(t).__name__ == "Dagger", lambda t: sympy.conjugate(t.args[0])) for w, c in got.t.items()})
        out.append(op_eq(f"adjoint for factor {e}", got, want))
    return out


@obligation(P, "ScaleBlock.dagger/number", ["qadence.blocks.primitive.ScaleBlock.dagger"])
def _():
    poly.reset()
    A = new_opaque("A")
    out = []
    for e in (2, -1.5, 1j, 2 - 3j, 0):
        b = ScaleBlock(A, e)
        out.append(op_eq(f"adjoint for number {e}", den(b.dagger()), den(b).adj()))
    return out


@obligation(P, "PutBlock.dagger", ["qadence.blocks.composite.PutBlock.dagger"])
def _():
    poly.reset()
    A = new_opaque("A")
    i, j = fresh_int("q", 0), fresh_int("q", 0)
    b = PutBlock(A, (i, j))
    before = snap(b)
    r = b.dagger()
    return [op_eq("inner operator is the adjoint", den(r.blocks[0]), A.den.adj()), holds("a PutBlock", type(r) is PutBlock),
            holds("one inner block", len(r.blocks) == 1),
            valid_here("same placement", z3.And(zlift(r.qubit_support[0]) == i.z, zlift(r.qubit_support[1]) == j.z)),
            unchanged("operand unchanged", before, b)]


import z3  # noqa: E402
VALS = {"X": (), "Y": (), "Z": (), "I": (), "H": (), "S": (), "SDagger": (), "T": (), "TDagger": ()}


def plain(name):
    def f():
        q = fresh_int("q", 0)
        b = getattr(O, name)(q)
        before = snap(b)
        r = b.dagger()
        M = (leaf.matrix(r) - leaf.matrix(b).H)
        return [vanish("matrix is the conjugate transpose", list(M)), valid_here("same qubit", z3.And(len(r.qubit_support) == 1, zlift(r.qubit_support[0]) == q.z)),
                unchanged("operand unchanged", before, b), vanish("involution", list(leaf.matrix(r.dagger()) - leaf.matrix(b)))]
    return f


for nm in VALS:
    obligation(P, f"{nm}.dagger", [f"qadence.operations.primitive.{nm}.dagger"])(plain(nm))


def rotation(name, npar, mode):
    def f():
        q = fresh_int("q", 0)
        ps = [Parameter(f"p{i}", value=0.3) for i in range(npar)]
        if mode == "expr":
            ps = [2 * p + sympy.sin(p) for p in ps]
        b = getattr(O, name)(q, *ps)
        before = snap(b)
        r = b.dagger()
        M = leaf.matrix(r) - leaf.matrix(b).H
        M2 = leaf.matrix(r.dagger()) - leaf.matrix(b)
        return [vanish("matrix is the conjugate transpose", list(M)), valid_here("same qubit", zlift(r.qubit_support[0]) == q.z),
                unchanged("operand unchanged", before, b), vanish("involution", list(M2))]
    return f


for nm, k in (("RX", 1), ("RY", 1), ("RZ", 1), ("PHASE", 1), ("U", 3)):
    for mode in ("param", "expr"):
        obligation(P, f"{nm}.dagger/{mode}", [f"qadence.operations.parametric.{nm}.dagger"])(rotation(nm, k, mode))


@obligation(P, "SWAP.dagger", ["qadence.blocks.primitive.PrimitiveBlock.dagger"])
def _():
    b = O.SWAP(0, 1)
    r = b.dagger()
    return [vanish("matrix", list(leaf.matrix(r) - leaf.matrix(b).H)), holds("same qubits in the same roles", set(r.qubit_support) == {0, 1})]


@obligation(P, "Projector.dagger", ["qadence.operations.primitive.Projector.dagger"])
def _():
    out = []
    import itertools
    for n in (1, 2):
        for ket in itertools.product("01", repeat=n):
            for bra in itertools.product("01", repeat=n):
                b = O.Projector("".join(ket), "".join(bra), tuple(range(n)))
                r = b.dagger()
                out.append(vanish(f"matrix |{ket}><{bra}|", list(leaf.matrix(r) - leaf.matrix(b).H)))
                out.append(holds("support", tuple(r.qubit_support) == tuple(b.qubit_support)))
    b = O.N(0)
    out.append(vanish("N", list(leaf.matrix(b.dagger()) - leaf.matrix(b).H)))
    return out


@obligation(P, "ControlBlock.dagger", ["qadence.blocks.primitive.ControlBlock.dagger"])
def _():
    poly.reset()
    A = new_opaque("A")
    c1, c2 = fresh_int("c", 0), fresh_int("c", 0)
    b = ControlBlock.__new__(ControlBlock)
    b.control, b.blocks, b.target, b._qubit_support, b._noise = (c1, c2), (A,), A.qubit_support, (c1, c2), None
    before = snap(b)
    r = b.dagger()
    return [op_eq("controlled operator is the adjoint", den(r.blocks[0]), A.den.adj()),
            valid_here("same controls", z3.And(zlift(r.control[0]) == c1.z, zlift(r.control[1]) == c2.z)),
            holds("support kept", tuple(r._qubit_support) == b._qubit_support),
            set_eq("target support", sup(r.blocks[0]), A.sup), unchanged("operand unchanged", before, b)]


class _PC(ParametricControlBlock):
    def num_parameters(cls):
        return 1


class _PA(Opaque):
    """arbitrary parametric target block"""
    @property
    def parameters(self):
        return self.__dict__.setdefault("_pm", ParamMap(parameter=Parameter("x", value=1.0)))


_PA.__abstractmethods__ = frozenset()


@obligation(P, "ParametricControlBlock.dagger", ["qadence.blocks.primitive.ParametricControlBlock.dagger"])
def _():
    poly.reset()
    out = []
    for nm in ("RX", "RY", "RZ", "PHASE"):
        c1, c2, t = fresh_int("c", 0), fresh_int("c", 0), fresh_int("t", 0)
        b = _PC.__new__(_PC)
        inner = getattr(O, nm)(t, Parameter("x", value=1.0))
        ParametricControlBlock.__init__(b, (c1, c2), inner)
        before = snap(b)
        r = b.dagger()
        out += [vanish("controlled operator is the adjoint", list(leaf.matrix(r.blocks[0]) - leaf.matrix(inner).H)),
                vanish("own parameters are those of the target", [leaf.real(r.parameters.parameter) - leaf.real(r.blocks[0].parameters.parameter)]),
                holds("uuid of own parameters is the target's", list(r.parameters.uuids()) == list(r.blocks[0].parameters.uuids())),
                valid_here("same support", z3.And(*[zlift(a) == zlift(b_) for a, b_ in zip(r.qubit_support, b.qubit_support)])),
                holds("same arity", len(r.qubit_support) == 3), unchanged("operand unchanged", before, b)]
    return out


def control_gate(nm, nctl, par):
    def f():
        q = list(range(nctl + (2 if nm == "CSWAP" else 1)))
        G = getattr(O, nm)
        ps = [Parameter("x", value=0.7)] if par else []
        if nm in ("MCRX", "MCRY", "MCRZ", "MCPHASE", "MCZ", "Toffoli"):
            b = G(tuple(q[:nctl]), q[nctl], *ps)
        else:
            b = G(*q, *ps)
        r = b.dagger()
        M = leaf.matrix(r.blocks[0]) - leaf.matrix(b.blocks[0]).H
        return [vanish("target matrix", list(M)),
                holds("same support", tuple(r.qubit_support) == tuple(b.qubit_support))]
    return f


for nm, k, p in (("CNOT", 1, 0), ("CZ", 1, 0), ("MCZ", 2, 0), ("Toffoli", 2, 0), ("CSWAP", 1, 0), ("CRX", 1, 1), ("CRY", 1, 1), ("CRZ", 1, 1),
                 ("CPHASE", 1, 1), ("MCRX", 2, 1), ("MCRY", 2, 1), ("MCRZ", 2, 1), ("MCPHASE", 2, 1)):
    obligation(P, f"{nm}.dagger", [f"qadence.operations.control_ops.{nm}"])(control_gate(nm, k, p))


@obligation(P, "HamEvo.dagger/block-generator", ["qadence.operations.ham_evo.HamEvo.dagger"],
            assumes=["generators are Hermitian (documented)"])
def _():
    poly.reset()
    out = []
    t = Parameter("t", value=0.4)
    for gen in (O.X(1) + O.Z(1), 2.0 * O.X(0), O.X(0) @ O.Z(1) if False else O.X(0)):
        for par in (t, 2 * t, t + 1):
            b = O.HamEvo(gen, par)
            before = snap(b)
            r = b.dagger()
            out += [vanish("time is negated", [leaf.real(r.parameters.parameter) + leaf.real(b.parameters.parameter)]),
                    op_eq("generator kept", den(r.generator), den(b.generator)), holds("support kept", tuple(r.qubit_support) == tuple(b.qubit_support)),
                    unchanged("operand unchanged", before, b)]
    return out


@obligation(P, "QuantumCircuit.dagger", ["qadence.circuit.QuantumCircuit.dagger"])
def _():
    poly.reset()
    A = new_opaque("A")
    c = QuantumCircuit.__new__(QuantumCircuit)
    from qadence.register import Register
    class R(Register):
        def __init__(self): pass
        n_qubits = 7
    class B(Opaque):
        n_qubits = 3
        def __len__(self): return 1
        def dagger(self): return B(self.den.adj(), self.sup, self.kinds, "d")
    B.__abstractmethods__ = frozenset()
    blk = B(A.den, A.sup, DIGITAL, "blk")
    c.block, c.register = blk, R()
    r = c.dagger()
    return [op_eq("operator is the adjoint", den(r.block), A.den.adj()), holds("width kept", r.n_qubits == 7), holds("operand unchanged", c.block is blk)]

"""C08: matrices of blocks (block_to_tensor) and their translation to the simulator, by structural induction over blocks."""
from pyvc.kit import *
import pyvc.sets
from pyvc import tensors as TS
from pyvc.tensors import STensor, TMat, SVal, KPow, lift as tlift
from pyvc.runtime import Seg, Unsupported, GenList, _sh_chain
import itertools, torch, numpy as np
B2T = mod("qadence.blocks.block_to_tensor")
CO = mod("qadence.backends.pyqtorch.convert_ops")
PQC = mod("qadence.backends.pyqtorch.config")
PAR = mod("qadence.parameters")
import qadence.operations as O
import pyqtorch as pyq
from qadence.blocks import *            # noqa
from qadence.types import Endianness

P = "C08"
TRUSTED = ["torch: kron, matmul, matrix_exp, reshape, permute, cos, sin, exp, + and * compute the mathematical operation of that name (entries exact)",
           "pyqtorch: Sequence/Merge apply their operations first to last, Add sums, Scale multiplies, HamiltonianEvolution exponentiates -i t G, gate classes implement the gate of their name on (target) or (control, target) (exercised by the run-time part)"]
ASSUMES = ["C07: values passed to the matrix code hold, for each gate parameter, the value of its own expression",
           "float literals within 1e-7 of 1/sqrt(2) and multiples of pi/4 are read as those numbers"]


def rden(b):
    """operator of the block, its parameters read as real numbers"""
    if isinstance(b, TimeEvolutionBlock):
        return mapped(("exp", sympy.srepr(sympy.expand(leaf.real(b.parameters.parameter)))), den(b.generator))
    if isinstance(b, ScaleBlock):
        return den(b.block).scale(leaf.real(b.parameters.parameter))
    return den(b)


class Target:
    """the requested ordered set of qubits: contains the support of the block, otherwise arbitrary"""
    def __init__(self):
        self.n = fresh_int("n", 1)
    def __vc_len__(self):
        return self.n
    def __vc_isinstance__(self, T):
        return True


def vals_for(*blocks):
    """embedded values of the parameters of these blocks, keyed by name or by uuid"""
    uu = VC.ex.choose(2, "keys") == 1
    d = {}
    for b in blocks:
        for u, e in zip(b.parameters.uuids(), b.parameters.expressions()):
            d[u if uu else PAR.stringify(e)] = SVal(leaf.real(e))
    d = d or {"x": SVal(0)}
    return d


def arg(a, k, i, nm, dflt):
    return k[nm] if nm in k else a[i] if len(a) > i else dflt


class IH:
    """contract of the conversion on an arbitrary sub-block: its operator on the given qubits, for the given values"""
    def __init__(self, top=None):
        self.top = top
    def __call__(self, fn, a, k):
        if fn is B2T._block_to_tensor_embedded or fn is B2T.block_to_diagonal:
            b = arg(a, k, 0, "block", None)
            if not isinstance(b, Opaque):
                return NotImplemented
            vs = arg(a, k, 1, "values", {})
            on, full, end = arg(a, k, 2, "qubit_support", None), arg(a, k, 3, "use_full_support", False), arg(a, k, 4, "endianness", Endianness.BIG)
            if full:
                raise Unsupported("use_full_support in recursion")
            if on is None:
                on = b.qubit_support
            if self.top is not None and any(q not in vs or vs[q] is not v for q, v in self.top.items()):
                return TMat(b.den, "values dropped", end, fn is B2T.block_to_diagonal)
            return TMat(b.den, on, end, fn is B2T.block_to_diagonal)
        if fn is CO.convert_block:
            b = arg(a, k, 0, "block", None)
            if not isinstance(b, Opaque):
                return NotImplemented
            return [Opaque(b.den, b.sup, b.kinds, "native")]
        return NotImplemented


ih = IH()


class patched:
    """module constants become symbolic identities and zeros of one qubit"""
    def __enter__(self):
        self.old = {n: getattr(B2T, n) for n in ("IMAT", "ZEROMAT") if hasattr(B2T, n)}
        for n, c in (("IMAT", 1), ("ZEROMAT", 0)):
            if hasattr(B2T, n):
                setattr(B2T, n, KPow(c, 1))
    def __exit__(self, *a):
        for n, v in self.old.items():
            setattr(B2T, n, v)


def tm_claims(label, r, want, on, end):
    if not isinstance(r, TMat):
        raise Unsupported(f"result {type(r)}")
    return [op_eq(label, r.den, want), holds("on the requested qubits", TS.same_on(r.on, on)), holds("in the requested bit order", r.end == end)]


ENDS = [Endianness.BIG, Endianness.LITTLE]
NEG = B2T._block_to_tensor_embedded


def composite(K, make, kind):
    @obligation(P, f"_block_to_tensor_embedded/{kind}", ["qadence.blocks.block_to_tensor._block_to_tensor_embedded"], induct=ih)
    def _(make=make):
        poly.reset()
        b, ps = make()
        vs = vals_for(*ps)
        ih.top = vs
        end = ENDS[VC.ex.choose(2, "endianness")]
        on = Target() if VC.ex.choose(2, "support") == 0 else None
        with patched():
            r = NEG(b, vs, on, endianness=end)
        return tm_claims("operator of the block", r, rden(b), on if on is not None else b.qubit_support, end)


def m_seg(K, *extra):
    def f():
        s, d = new_seg(kron=K is KronBlock)
        return mk(K, s), ()
    return f
def m_mix(K):
    def f():
        s, d = new_seg()
        s2, d2 = new_seg()
        return mk(K, s, new_opaque("A"), s2), ()
    return f
def m_scale():
    b = ScaleBlock(new_opaque("A"), 2 * Parameter("p", value=0.3) + 1)
    return b, (b,)
def m_scale_const(v):
    def f():
        return ScaleBlock(new_opaque("A"), v), ()
    return f
def m_hamevo():
    b = O.HamEvo(O.X(0) + O.Z(0), Parameter("t", value=0.3) * 2)
    b.generator = A = new_opaque("G")
    b._qubit_support = A.qubit_support
    return b, (b,)


for K in (ChainBlock, KronBlock, AddBlock):
    composite(K, m_seg(K), f"{K.__name__}, any number of blocks")
for K in (ChainBlock, AddBlock):
    composite(K, m_mix(K), f"{K.__name__}, in the middle of any sequence")
composite(ScaleBlock, m_scale, "ScaleBlock")
composite(O.HamEvo, m_hamevo, "HamEvo of any generator")


# ---- the diagonal form
def diagonal(K, make, kind):
    @obligation(P, f"block_to_diagonal/{kind}", ["qadence.blocks.block_to_tensor.block_to_diagonal"], induct=ih,
                assumes=["evaluate(expr, values) is the value of the expression (C07)"])
    def _(make=make):
        poly.reset()
        b, ps = make()
        ih.top = None
        end = ENDS[VC.ex.choose(2, "endianness")]
        on = Target()
        ev = B2T.evaluate
        old = type(b).__dict__.get("_is_diag_pauli")
        type(b)._is_diag_pauli = True
        VC.shim(ev, lambda e, *a, **k: SVal(leaf.real(e)))
        try:
            with patched():
                r = B2T.block_to_diagonal(b, {"x": SVal(1)}, on, endianness=end)
        finally:
            VC.shims.pop(id(ev), None)
            if old is None:
                del type(b)._is_diag_pauli
            else:
                type(b)._is_diag_pauli = old
        return tm_claims("diagonal of the block", r, rden(b), on, end)


for K in (ChainBlock, KronBlock, AddBlock):
    diagonal(K, m_seg(K), f"{K.__name__}, any number of blocks")
diagonal(ScaleBlock, m_scale, "ScaleBlock")


# ---- identities on the untouched qubits, order of the factors: all matrices of the given sizes
def bit(i, k, n):
    return (i >> (n - 1 - k)) & 1


def embed_spec(M, qs, full, end):
    """entry (i, j) of the operator M (on the ordered qubits qs) on the ascending qubits `full`"""
    full = sorted(full)
    n = len(full)
    pos = {q: (k if end == Endianness.BIG else n - 1 - k) for k, q in enumerate(full)}
    D = 2 ** n
    out = np.empty((D, D), dtype=object)
    for i in range(D):
        for j in range(D):
            if any(bit(i, pos[q], n) != bit(j, pos[q], n) for q in full if q not in qs):
                out[i, j] = sympy.Integer(0)
            else:
                a = sum(bit(i, pos[q], n) << (len(qs) - 1 - k) for k, q in enumerate(qs))
                b = sum(bit(j, pos[q], n) << (len(qs) - 1 - k) for k, q in enumerate(qs))
                out[i, j] = M[a, b]
    return out


SHAPES = [(m, n) for n in (1, 2, 3) for m in range(1, n + 1)]
for m, n in SHAPES:
    @obligation(P, f"_fill_identities/{m} of {n} qubits", ["qadence.blocks.block_to_tensor._fill_identities"],
                assumes=[f"bounded: {n} qubits in total, all {m}-qubit matrices, all placements and orders"])
    def _(m=m, n=n):
        out = []
        full0 = {1: [2], 2: [0, 3], 3: [1, 2, 5]}[n]
        for qs in itertools.permutations(full0, m):
            for end in ENDS:
                for fo in {tuple(full0), tuple(full0[::-1])}:
                    M = STensor.symbols("m", 2, 2 ** m, 2 ** m)
                    r = B2T._fill_identities(M, qs, fo, endianness=end)
                    out.append(holds(f"operator on {qs} of {fo} {end}", all(tuple(r.a[k].shape) == (2 ** n,) * 2 and (r.a[k] == embed_spec(M.a[k], qs, full0, end)).all() for k in range(2))))
                    d = B2T._fill_identities(M[0:1], qs, fo, diag_only=True, endianness=end)
                    out.append(holds("diagonal form", bool((d.a == np.diagonal(embed_spec(M.a[0], qs, full0, end))).all())))
        return out


# ---- leaves: matrices of the gates for all angles
def mat_eq(label, got, want):
    return vanish(label, [sympy.expand(x - y) for x, y in zip(list(got.reshape(-1)), list(want))])


def leaf_ob(nm, mkgate, nb=2):
    @obligation(P, f"_block_to_tensor_embedded/gate {nm}, all angles", ["qadence.blocks.block_to_tensor._parametric_matrix", "qadence.blocks.block_to_tensor._rot_matrices"])
    def _():
        b = mkgate()
        uu = VC.ex.choose(2, "keys") == 1
        vs, syms_ = {}, []
        for u, e in zip(b.parameters.uuids(), b.parameters.expressions()):
            xs = [sympy.Symbol(f"{e}_{k}", real=True) for k in range(nb)]
            syms_.append(xs)
            vs[u if uu else PAR.stringify(e)] = STensor(np.array(xs, dtype=object))
        r = NEG(b, vs)
        out = []
        for k in range(nb):
            want = leaf.PARAM[nm](*[x[k] for x in syms_])
            out.append(mat_eq(f"matrix of {nm}, batch element {k}", r.a[k], want))
        return out


leaf_ob("RX", lambda: O.RX(0, Parameter("a", trainable=False)))
leaf_ob("RY", lambda: O.RY(0, Parameter("a", trainable=False)))
leaf_ob("RZ", lambda: O.RZ(0, Parameter("a", trainable=False)))
leaf_ob("PHASE", lambda: O.PHASE(0, Parameter("a", trainable=False)))
leaf_ob("U", lambda: O.U(0, Parameter("a", trainable=False), Parameter("b", trainable=False), Parameter("c", trainable=False)))

for nm in ("X", "Y", "Z", "I", "H", "S", "T", "SDagger", "TDagger", "Zero", "N"):
    @obligation(P, f"_block_to_tensor_embedded/gate {nm}", ["qadence.blocks.block_to_tensor._block_to_tensor_embedded"])
    def _(nm=nm):
        cls = getattr(O, nm, None)
        b = O.S(1).dagger() if nm == "SDagger" else O.T(1).dagger() if nm == "TDagger" else O.Zero() if nm == "Zero" else cls(1)
        want = leaf.FIXED[nm] if nm in leaf.FIXED else sympy.Matrix([[0, 0], [0, 1]])
        if nm == "Zero":
            b._qubit_support = (1,)
            r = B2T.OPERATIONS_DICT["Zero"]
        else:
            r = NEG(b, {"x": torch.zeros(1)})
        return [mat_eq(f"matrix of {nm}", tlift(r).a[0], want)]


# ---- rewriting of controlled and swap gates: same operator (any inner operator)
def tree(b, n):
    """matrix of a block tree by definition (leaf matrices, products, sums) on qubits 0..n-1"""
    D = 2 ** n
    if isinstance(b, (ChainBlock, KronBlock)):
        m = sympy.eye(D)
        for x in b.blocks:
            m = tree(x, n) * m
        return m
    if isinstance(b, AddBlock):
        m = sympy.zeros(D, D)
        for x in b.blocks:
            m = m + tree(x, n)
        return m
    if isinstance(b, ScaleBlock):
        return TS.exact(b.scale if not isinstance(b.scale, sympy.Basic) else complex(b.scale)) * tree(b.block, n)
    if isinstance(b, (ControlBlock, ParametricControlBlock)):
        qs = tuple(b.qubit_support)
        inner = b.blocks[0]
        k = len(qs) - len(tuple(inner.qubit_support))
        M = leaf.controlled(inner_matrix(inner), k)
    else:
        qs, M = tuple(b.qubit_support), inner_matrix(b)
    return sympy.Matrix(embed_spec(np.array(M.tolist(), dtype=object), qs, range(n), Endianness.BIG))


SYMU = sympy.Matrix([[sympy.Symbol("u00"), sympy.Symbol("u01")], [sympy.Symbol("u10"), sympy.Symbol("u11")]])


def inner_matrix(b):
    if getattr(b, "_sym", None) is not None:
        return b._sym
    return leaf.matrix(b)


for qs in [(0, 1), (1, 0), (0, 1, 2), (2, 0, 1), (0, 3, 2, 1), (3, 1, 2, 0)]:
    @obligation(P, f"_controlled_block_with_params/controls {qs[:-1]} target {qs[-1]}", ["qadence.blocks.block_to_tensor._controlled_block_with_params"],
                assumes=["bounded: at most 3 controls; any operator on the target"])
    def _(qs=qs):
        x = O.RX(qs[-1], Parameter("a", value=0.2))
        x._sym = SYMU
        cls = O.CRX if len(qs) == 2 else O.MCRX
        b = cls(qs[0] if len(qs) == 2 else qs[:-1], qs[-1], Parameter("a", value=0.2))
        b.blocks = (x,)
        r, newp = B2T._controlled_block_with_params(b)
        n = len(qs)
        want = embed_spec(np.array(leaf.controlled(SYMU, n - 1).tolist(), dtype=object), qs, range(n), Endianness.BIG)
        out = [mat_eq("acts only when all controls are one", np.array(tree(r, n).tolist(), dtype=object), list(want.reshape(-1)))]
        for e in uuid_exprs(r):
            if e.is_number:
                k = PAR.stringify(e)
                out.append(holds(f"value of the constant {e}", k in newp and abs(complex(newp[k].reshape(-1)[0].item()) - complex(e)) < 1e-7))
        return out


def uuid_exprs(b):
    return list(mod("qadence.blocks.utils").uuid_to_expression(b).values())


for qs in [(0, 1), (1, 0), (0, 2)]:
    @obligation(P, f"_swap_block/{qs}", ["qadence.blocks.block_to_tensor._swap_block"])
    def _(qs=qs):
        r = B2T._swap_block(O.SWAP(*qs))
        n = max(qs) + 1
        want = embed_spec(np.array(leaf.SWAP.tolist(), dtype=object), qs, range(n), Endianness.BIG)
        return [holds("exchanges the two qubits", list(tree(r, n)) == list(want.reshape(-1)))]
for qs in itertools.permutations(range(3)):
    @obligation(P, f"_cswap_block/{qs}", ["qadence.blocks.block_to_tensor._cswap_block"])
    def _(qs=qs):
        r = B2T._cswap_block(O.CSWAP(qs[0], qs[1], qs[2]))
        want = embed_spec(np.array(leaf.controlled(leaf.SWAP, 1).tolist(), dtype=object), qs, range(3), Endianness.BIG)
        return [holds("exchanges the targets when the control is one", list(tree(r, 3)) == list(want.reshape(-1)))]


# ---- translation to the simulator
class Native:
    """stand-ins for the pyqtorch containers: their contract is the operator of the corresponding block"""
    def __enter__(self):
        def seq(ops=(), *a, **k):
            return mk(ChainBlock, *list(VC.elements(ops)))
        def add(ops=(), *a, **k):
            return mk(AddBlock, *list(VC.elements(ops)))
        def scale(op, param, *a, **k):
            e = self.names.get(param) if isinstance(param, str) else param
            if isinstance(e, torch.Tensor):
                e = TS.exact(e.reshape(-1)[0].item())
            if e is None:
                raise Unsupported(f"scale parameter {param}")
            return ScaleBlock(op, e)
        def hev(qubit_support=None, generator=None, time=None, **k):
            e = self.names.get(time) if isinstance(time, str) else time
            g = den(generator) if isinstance(generator, AbstractBlock) else None
            if g is None or e is None:
                raise Unsupported("native evolution")
            return Opaque(mapped(("exp", sympy.srepr(sympy.expand(e))), g), support_atoms(qubit_support), DIGITAL, "native evolution")
        self.sh = [(pyq.Sequence, seq), (pyq.Merge, seq), (pyq.Add, add), (pyq.Scale, scale), (pyq.HamiltonianEvolution, hev), (CO.flatten, _sh_chain)]
        if hasattr(CO, "sympy_to_pyq"):
            self.sh.append((CO.sympy_to_pyq, lambda e: self.names.get(str(e), e)))
        for o, n in self.sh:
            VC.shim(o, n)
        # contract of the two predicates (C16): does the tree hold a symbol / a time symbol
        self.props = {n: AbstractBlock.__dict__[n] for n in ("is_parametric", "is_time_dependent") if n in AbstractBlock.__dict__}
        AbstractBlock.is_parametric = property(lambda b: any(getattr(e, "free_symbols", None) for e in b.parameters.expressions()))
        AbstractBlock.is_time_dependent = False
        return self
    def __exit__(self, *a):
        for n, v in self.props.items():
            setattr(AbstractBlock, n, v)
        for o, n in self.sh:
            VC.shims.pop(id(o), None)


def native(make, kind, gate_params):
    @obligation(P, f"convert_block/{kind}, gate parameters {gate_params}", ["qadence.backends.pyqtorch.convert_ops.convert_block"], induct=ih)
    def _(make=make):
        poly.reset()
        b, ps = make()
        ih.top = None
        cfg = PQC.Configuration()
        cfg._use_gate_params = gate_params
        cfg.use_single_qubit_composition = False
        want = den(b)
        with Native() as nat:
            nat.names = {}
            for p in ps:
                for u, e in zip(p.parameters.uuids(), p.parameters.expressions()):
                    nat.names[u], nat.names[PAR.stringify(e)] = e, e
            r = CO.convert_block(b, 5, cfg)
        return [op_eq("the native operations compute the block", fold_list("mul", list(r)), want)]


for gp in (True, False):
    for K in (ChainBlock, KronBlock, AddBlock):
        native(m_seg(K), f"{K.__name__}, any number of blocks", gp)
    native(m_mix(ChainBlock), "ChainBlock, in the middle of any sequence", gp)
    native(m_scale, "ScaleBlock", gp)
    for v in (0.5, -2, 1.5 + 0.25j):
        native(m_scale_const(v), f"ScaleBlock by {v}", gp)
    native(m_hamevo, "HamEvo of any generator", gp)


# leaf gates: native class, qubits and parameter are those of the gate
def natleaf(nm, mkb, want):
    @obligation(P, f"convert_block/gate {nm}", ["qadence.backends.pyqtorch.convert_ops.convert_block"])
    def _():
        b = mkb()
        out = []
        for gp in (True, False):
            cfg = PQC.Configuration()
            cfg._use_gate_params = gp
            (op,) = CO.convert_block(b, 6, cfg)
            out.append(holds("native class", type(op).__name__ == want["cls"], type(op).__name__))
            for f in ("target", "control"):
                if f in want:
                    out.append(holds(f, tuple(getattr(op, f)) == want[f], getattr(op, f, None)))
            if "qubits" in want:
                out.append(holds("qubits", tuple(op.qubit_support) == want["qubits"] or tuple(op.target) == want["qubits"], (op.qubit_support, op.target)))
            if "entry" in want:
                m = torch.zeros(op.operation.shape[:2], dtype=op.operation.dtype)
                m[want["entry"]] = 1
                out.append(holds("ket and bra", torch.equal(op.operation.reshape(m.shape), m)))
            if "param" in want:
                e = b.parameters.expressions()
                names = [u if gp else PAR.stringify(x) for u, x in zip(b.parameters.uuids(), e)]
                got = [op.param_name] if "params" not in want else [getattr(op, f) for f in ("phi", "theta", "omega")]
                out.append(holds("parameter", got == names, (got, names)))
        return out


a_ = lambda: Parameter("alpha", trainable=True, value=0.3)
for nm in ("X", "Y", "Z", "I", "H", "S", "T"):
    natleaf(nm, lambda nm=nm: getattr(O, nm)(4), {"cls": nm, "target": (4,)})
natleaf("SDagger", lambda: O.SDagger(2), {"cls": "SDagger", "target": (2,)})
natleaf("N", lambda: O.N(2), {"cls": "N", "target": (2,)})
for nm in ("RX", "RY", "RZ", "PHASE"):
    natleaf(nm, lambda nm=nm: getattr(O, nm)(3, 2 * a_()), {"cls": nm, "target": (3,), "param": 1})
natleaf("U", lambda: O.U(3, a_(), 2 * a_(), a_() + 1), {"cls": "U", "target": (3,), "param": 1, "params": 3})
for nm in ("CNOT", "CZ"):
    natleaf(nm, lambda nm=nm: getattr(O, nm)(4, 1), {"cls": nm, "control": (4,), "target": (1,)})
natleaf("SWAP", lambda: O.SWAP(4, 1), {"cls": "SWAP", "target": (4, 1)})
for nm in ("CRX", "CRY", "CRZ", "CPHASE"):
    natleaf(nm, lambda nm=nm: getattr(O, nm)(4, 1, 2 * a_()), {"cls": nm, "control": (4,), "target": (1,), "param": 1})
natleaf("Toffoli", lambda: O.Toffoli((4, 0), 1), {"cls": "Toffoli", "control": (4, 0), "target": (1,)})
natleaf("CSWAP", lambda: O.CSWAP(4, 0, 1), {"cls": "CSWAP", "qubits": (4, 0, 1)})
natleaf("MCZ", lambda: O.MCZ((4, 0, 2), 1), {"cls": "CZ", "control": (4, 0, 2), "target": (1,)})
for nm in ("MCRX", "MCRY", "MCRZ", "MCPHASE"):
    natleaf(nm, lambda nm=nm: getattr(O, nm)((4, 0, 2), 1, 2 * a_()), {"cls": nm[1:], "control": (4, 0, 2), "target": (1,), "param": 1})
natleaf("Projector", lambda: O.Projector("10", "01", (3, 1)), {"cls": "Projector", "qubits": (3, 1), "entry": (2, 1)})

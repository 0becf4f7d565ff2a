"""C02: every restructuring pass preserves operator and support (structural induction over the tree)."""
from pyvc.kit import *
import z3
from qadence.blocks import chain, kron, add
from qadence import operations as O
from qadence.circuit import QuantumCircuit
from qadence.register import Register
FL = mod("qadence.transpile.flatten")
TB = mod("qadence.transpile.block")
TT = mod("qadence.transpile.transpile")
AF = mod("qadence.transpile.apply_fn")
TC = mod("qadence.transpile.circuit")

P = "C02"
TRUSTED = ["operator normaliser (pyvc/poly.py)", "z3", "functools.singledispatch dispatches on the class"]
ASSUMES = ["trees are finite and acyclic (structural induction)", "induction hypothesis: the pass preserves operator and support of every proper sub-block",
           "floating-point rounding ignored"]
K3 = (ChainBlock, KronBlock, AddBlock)
OP = {ChainBlock: "mul", KronBlock: "mul", AddBlock: "add"}


def _d(b):
    return b._matden if getattr(b, "_mat", None) is not None else b.den


# ---------------------------------------------------------------- callee contracts used at recursive call sites
def c_flatten(x, *a, **k):
    if isinstance(x, Opaque):
        return Opaque(x.den, x.sup, DIGITAL, "flat")
    return FL.flatten(x, *a, **k)


def c_flat_blocks(b, T):
    """contract of _flat_blocks on a T-block: a sequence whose T-fold is the block's operator"""
    if isinstance(b, Opaque):
        op, d = OP[T], uid("fb")
        FOLD_RULE[(d, op)] = _d(b)
        if T is KronBlock:
            NONEMPTY.add(d)          # krons are never empty
        return [flat_segment(d, b.sup, DIGITAL, family=T is KronBlock, ops=(op,))]
    return FL._flat_blocks(b, T)


def c_scale(x, scale=None):
    if isinstance(x, Opaque):
        return Opaque(x.den if scale is None else x.den.scale(scale), x.sup, DIGITAL, "scaled")
    return TB.scale_primitive_blocks_only(x, scale)


def c_chain1(x):
    if isinstance(x, Opaque):
        return Opaque(x.den, x.sup, DIGITAL, "chained")
    return TB.chain_single_qubit_ops(x)


def c_apply(x, fn, *a, **k):
    if isinstance(x, Opaque):
        return Opaque(x.den, x.sup, DIGITAL, "applied")
    return AF.apply_fn_to_blocks(x, fn, *a, **k)


def c_is_krons(b):
    """case distinction: symbolic chains are proved for the branch where the predicate is false; the true branch has its own obligations"""
    bl = getattr(b, "blocks", ())
    if any(type(x) is Seg or isinstance(x, Opaque) for x in bl):
        return False
    return TB.is_chain_of_primitivekrons(b)


if hasattr(TB, "is_chain_of_primitivekrons"):
    VC.shim(TB.is_chain_of_primitivekrons, c_is_krons)
VC.shim(FL.flatten, c_flatten)
if hasattr(FL, "_flat_blocks"):
    VC.shim(FL._flat_blocks, c_flat_blocks)
VC.shim(TB.scale_primitive_blocks_only, c_scale)
VC.shim(TB.chain_single_qubit_ops, c_chain1)
VC.shim(AF.apply_fn_to_blocks, c_apply)
# `flatten` imported by name elsewhere is the same object


def build(K, shape):
    if shape == "seg":
        s, d = new_seg(kron=K is KronBlock)
        return mk(K, s)
    if shape == "two":
        A, B = new_opaque("A"), new_opaque("B")
        if K is KronBlock:
            FACTS.add(list(A.sup)[0], list(B.sup)[0])
        return mk(K, A, B)
    if shape == "ends":
        A, B = new_opaque("A"), new_opaque("B")
        s, d = new_seg(kron=K is KronBlock)
        if K is KronBlock:
            FACTS.add(*[list(x)[0] for x in (A.sup, B.sup)])
            for x in (A, B):
                FACTS.add(list(x.sup)[0], ("S", d)); FACTS.add(list(x.sup)[0], ("es", d))
        return mk(K, A, s, B)
    raise ValueError(shape)


def pass_ob(pname, funcs, fn, scale=None):
    for K in K3:
        for shape in ("seg", "two", "ends"):
            def f(K=K, shape=shape):
                poly.reset()
                b = build(K, shape)
                before, want, ws = snap(b), den(b), sup(b)
                r = fn(b)
                return [op_eq("operator preserved", den(r), want if scale is None else want.scale(scale)), set_eq("support preserved", sup(r), ws),
                        unchanged("input unchanged", before, b), op_eq("operator of the input", den(b), want)]
            obligation(P, f"{pname}/{K.__name__}/{shape}", funcs)(f)


TYPES = [[ChainBlock], [KronBlock], [AddBlock], [ChainBlock, KronBlock], [AddBlock, ChainBlock], [ChainBlock, KronBlock, AddBlock], [AddBlock, KronBlock, ChainBlock], []]
for T in TYPES:
    nm = "flatten[" + ",".join(t.__name__[0] for t in T) + "]"
    pass_ob(nm, ["qadence.transpile.flatten.flatten", "qadence.transpile.flatten._flat_blocks"], lambda b, T=T: FL.flatten(b, T))
pass_ob("flatten[default]", ["qadence.transpile.flatten.flatten"], lambda b: FL.flatten(b))

S = sympy.Symbol("sc", real=True)
pass_ob("scale_primitive_blocks_only[None]", ["qadence.transpile.block.scale_primitive_blocks_only", "qadence.transpile.block.scale_only_first_block"],
        lambda b: TB.scale_primitive_blocks_only(b))
pass_ob("scale_primitive_blocks_only[s]", ["qadence.transpile.block.scale_primitive_blocks_only", "qadence.transpile.block.scale_only_first_block"],
        lambda b: TB.scale_primitive_blocks_only(b, S), scale=S)
pass_ob("apply_fn_to_blocks[identity]", ["qadence.transpile.apply_fn.apply_fn_to_blocks"], lambda b: AF.apply_fn_to_blocks(b, lambda x: x))
pass_ob("chain_single_qubit_ops", ["qadence.transpile.block.chain_single_qubit_ops"], lambda b: TB.chain_single_qubit_ops(b))


# ---------------------------------------------------------------- the contract of _flat_blocks itself
if hasattr(FL, "_flat_blocks"):
    for T in K3:
        for shape in ("seg", "ends"):
            def f(T=T, shape=shape):
                poly.reset()
                b = build(T, shape)
                want = den(b)
                r = list(FL._flat_blocks(b, T))
                got = fold_list(OP[T], r)
                ws = frozenset().union(*[seg_sup(x) if type(x) is Seg else sup(x) for x in r])
                return [op_eq("fold of the flattened sequence is the operator", got, want), set_eq("supports", ws, sup(b))]
            obligation(P, f"_flat_blocks/{T.__name__}/{shape}", ["qadence.transpile.flatten._flat_blocks"])(f)


# ---------------------------------------------------------------- scaled blocks and leaves
for nm, fn in (("flatten", lambda b: FL.flatten(b)), ("scale_primitive_blocks_only", lambda b: TB.scale_primitive_blocks_only(b)),
               ("scale_primitive_blocks_only[s]", lambda b: TB.scale_primitive_blocks_only(b, S)),
               ("chain_single_qubit_ops", lambda b: TB.chain_single_qubit_ops(b)), ("apply_fn_to_blocks", lambda b: AF.apply_fn_to_blocks(b, lambda x: x))):
    def f(fn=fn, nm=nm):
        poly.reset()
        A = new_opaque("A")
        q = Parameter("q", value=0.5)
        out = []
        for e in (q, 2.5, q * q + 1):
            b = ScaleBlock(A, e)
            before = snap(b)
            want = den(b).scale(S) if nm.endswith("[s]") else den(b)
            r = fn(b)
            out += [op_eq(f"operator preserved, factor {e}", den(r), want), set_eq("support", sup(r), sup(b)), unchanged("input unchanged", before, b)]
        # a scaled scaled block
        b = ScaleBlock(ScaleBlock(A, q), 3)
        want = den(b).scale(S) if nm.endswith("[s]") else den(b)
        out.append(op_eq("nested factors", den(fn(b)), want))
        return out
    obligation(P, f"{nm}/ScaleBlock", ["qadence.transpile"])(f)

    def f(fn=fn, nm=nm):
        poly.reset()
        out = []
        th = Parameter("th", value=0.1)
        for b in (O.X(3), O.RX(2, th), O.CNOT(0, 2), O.CRX(1, 4, th), O.SWAP(0, 5), O.U(1, th, 2 * th, th), O.N(2), O.H(1), O.T(0), O.I(7)):
            before = snap(b)
            want = den(b).scale(S) if nm.endswith("[s]") else den(b)
            r = fn(b)
            out += [op_eq(f"operator of {type(b).__name__}", den(r), want), set_eq("support", sup(r), sup(b)), unchanged("input unchanged", before, b)]
        return out
    obligation(P, f"{nm}/leaf", ["qadence.transpile"])(f)


# ---------------------------------------------------------------- chain of krons -> kron of chains (given numbers of layers and wires)
def prim(label, q):
    o = Opaque(Poly.atom(("op", label, 0)), [("q", q)], PRIMITIVE, label)
    ATOM_SUPPORT[("op", label)] = frozenset([("q", q)])
    return o


for m in (1, 2, 3, 4):
    for n in (1, 2, 3):
        for perm in (False, True):
            def f(m=m, n=n, perm=perm):
                poly.reset()
                th = Parameter("th", value=0.1)
                gates = [O.X, O.H, O.Y, O.S, O.Z, O.T]
                layers = []
                for j in range(m):
                    qs = list(range(n))
                    if perm and j % 2:
                        qs.reverse()
                    layers.append(kron(*[gates[(j + q) % 6](q) if (j + q) % 3 else O.RX(q, (j + 1) * th) for q in qs]))
                b = chain(*layers)
                b2 = chain(*(layers + layers[:1]))
                out = []
                for x in (b, b2):
                    before, want = snap(x), den(x)
                    r = TB.chain_single_qubit_ops(x)
                    out += [op_eq("operator preserved", den(r), want), set_eq("support", sup(r), sup(x)), unchanged("input unchanged", before, x)]
                return out
            obligation(P, f"chain_single_qubit_ops/krons {m}x{n}{' permuted' if perm else ''} [fixed shape]", ["qadence.transpile.block.chain_single_qubit_ops", "qadence.transpile.block.is_chain_of_primitivekrons"])(f)


# ---------------------------------------------------------------- circuits and composition of passes
@obligation(P, "blockfn_to_circfn", ["qadence.transpile.transpile.blockfn_to_circfn"])
def _():
    poly.reset()
    out = []
    for reg in (Register.line(3), Register.all_to_all(5), Register(4)):
        inp, res = chain(O.X(0)), chain(O.Y(1))
        seen = []
        def fn(b):
            seen.append(b)
            return res
        c = QuantumCircuit(reg, inp)
        r = TT.blockfn_to_circfn(fn)(c)
        out += [holds("the pass sees the circuit's block once", len(seen) == 1 and seen[0] is inp), holds("register kept", r.register is reg or r.register == reg),
                holds("result of the pass", r.block is res), holds("input circuit unchanged", c.block is inp and c.register is reg)]
    return out


for k in range(0, 6):
    def f(k=k):
        log = []
        def mkf(j):
            def g(x):
                log.append(j)
                return ("applied", j, x)
            return g
        tok = object()
        t = TT.transpile(*[mkf(j) for j in range(k)])
        out = []
        for use in range(2):
            log.clear()
            r = t(tok)
            want = tok
            for j in reversed(range(k)):
                want = ("applied", j, want)
            out += [holds("each pass once, last listed first", log == list(reversed(range(k)))), holds("composition", r == want)]
        return out
    obligation(P, f"transpile/{k} passes [fixed number, arbitrary passes]", ["qadence.transpile.transpile.transpile"])(f)


@obligation(P, "flatten/circuit", ["qadence.transpile.flatten.flatten"])
def _():
    poly.reset()
    out = []
    for n in (1, 3, 6):
        c = QuantumCircuit(n, chain(chain(O.X(0), chain(O.Y(0))), O.H(n - 1)))
        want = den(c.block)
        r = FL.flatten(c)
        out += [op_eq("operator", den(r.block), want), holds("width", r.n_qubits == n), op_eq("input", den(c.block), want)]
    return out

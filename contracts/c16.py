"""C16: parameter and term extraction is complete and exact."""
from pyvc.kit import *
from pyvc import seqs, maps
from pyvc.maps import GMap, PDict, Gen, Key, gen_seg, gmap
from pyvc.seqs import SList, Base, Piece, Flat, raw_piece, same
import z3, sympy, torch
from qadence import operations as O
U = mod("qadence.blocks.utils")
TB = mod("qadence.transpile.block")

P = "C16"
FU = "qadence.blocks.utils."
ASSUMES = ["gate parameters carry pairwise different ids (uuid4)", "the induction hypothesis is the function's own contract on the parts of a block (structural induction over finite trees)",
           "PutBlock and the generic ControlBlock are outside the contract (they cannot be executed)"]
TRUSTED = ["operator normaliser (pyvc/poly.py)", "z3", "sympy free_symbols / is_number", "ParamMap (qadence.parameters) holds one id per named expression (checked on every gate class below)"]


# ---------------------------------------------------------------- uuid_to_block: structural induction, contents as formal sums
def ih_u2b(fn, a, k):
    if fn is U.uuid_to_block:
        def go(block, d=None):
            if not isinstance(block, Opaque):
                return NotImplemented
            if d is None:
                d = PDict()
            bag = {("params", block.label): 1}
            if isinstance(d, GMap):
                d.bulk(bag)
            elif isinstance(d, PDict):
                if d.sym is None:
                    maps.become(d, GMap(gmap(d).entries))
                d.sym.bulk(bag)
            else:
                raise Unsupported("dictionary of another kind")
            return d
        return go(*a, **k)
    return NotImplemented


def own(b):
    return {("one", u, id(b)): 1 for u, e in b.parameters._name_dict.values()}


def plus(*bs):
    out = {}
    for b in bs:
        for k, n in b.items():
            out[k] = out.get(k, 0) + n
    return out


def content(r):
    return gmap(r).bag()


def eq_bag(label, got, want):
    if got == want:
        return Claim(label, "proved", None, "normaliser")
    return Claim(label, "refuted", f"reported {got}, expected {want}", "formal sums")


def u2b(name, make, funcs=("uuid_to_block",)):
    def f(pre):
        poly.reset()
        b, want = make()
        before = snap(b)
        if pre:
            d = PDict()
            other = O.RX(7, "other")
            (u,) = other.parameters.uuids()
            d[u] = other
            r = U.uuid_to_block(b, d)
            want = plus(want, {("one", u, id(other)): 1})
            extra = [holds("the given dictionary is the one filled", True if r is d else None)]
        else:
            r, extra = U.uuid_to_block(b), []
        return [eq_bag("every gate parameter once, with its gate", content(r), want), unchanged("block unchanged", before, b)] + extra
    for pre in (False, True):
        obligation(P, f"uuid_to_block/{name}{'/into a given dictionary' if pre else ''}", [FU + "uuid_to_block", "qadence.parameters.ParamMap.uuids"], induct=ih_u2b)(lambda pre=pre: f(pre))


def b_scale(inner=None):
    o = new_opaque("c")
    b = ScaleBlock(o, sympy.Symbol("s"))
    return b, plus(own(b), {("params", o.label): 1})


def b_comp(K, n):
    def f():
        s, d = new_seg(kron=K is KronBlock)
        extra = [new_opaque("x") for _ in range(n)]
        b = mk(K, *([s] + extra))
        return b, plus({("params", f"all_{d}"): 1}, *[{("params", x.label): 1} for x in extra])
    return f


def b_mixed():
    s, d = new_seg()
    x, g = new_opaque("x"), O.RX(0, "th")
    b = mk(ChainBlock, g, ScaleBlock(mk(AddBlock, s, x), sympy.Symbol("q")), O.H(1))
    return b, plus(own(g), own(b.blocks[1]), {("params", f"all_{d}"): 1, ("params", x.label): 1})


def b_hamevo():
    o = new_opaque("g")
    h = O.HamEvo.__new__(O.HamEvo)
    ref = O.HamEvo(O.X(0) + O.Z(1), Parameter("t"))
    h.__dict__.update(ref.__dict__)
    h.generator = o
    return h, plus(own(h), {("params", o.label): 1})


u2b("scale", b_scale)
for K in (ChainBlock, KronBlock, AddBlock):
    for n in (0, 2):
        u2b(f"{K.__name__}/{n} more", b_comp(K, n))
u2b("mixed nesting", b_mixed)
u2b("time evolution of a block", b_hamevo)


def t(n):
    return Parameter(n)


def gates():
    """one instance of every gate class with parameters given by arbitrary expressions"""
    a, b, c = t("a"), t("b"), t("c")
    hm = torch.tensor([[1, 2], [2, 0]], dtype=torch.cdouble)
    G = {"RX": lambda e: O.RX(0, e), "RY": lambda e: O.RY(0, e), "RZ": lambda e: O.RZ(0, e), "PHASE": lambda e: O.PHASE(0, e), "U": lambda e: O.U(0, e, b, e),
         "CRX": lambda e: O.CRX(0, 1, e), "CRY": lambda e: O.CRY(0, 1, e), "CRZ": lambda e: O.CRZ(0, 1, e), "CPHASE": lambda e: O.CPHASE(0, 1, e),
         "MCRX": lambda e: O.MCRX((0, 1), 2, e), "MCRY": lambda e: O.MCRY((0, 1), 2, e), "MCRZ": lambda e: O.MCRZ((0, 1), 2, e), "MCPHASE": lambda e: O.MCPHASE((0, 1), 2, e),
         "HamEvo of a matrix": lambda e: O.HamEvo(hm, e, (0,)), "HamEvo of a parameter": lambda e: O.HamEvo(t("gen"), e, (0,)),
         "AnalogRX": lambda e: O.AnalogRX(e), "AnalogRot": lambda e: O.AnalogRot(duration=e, omega=a, delta=b, phase=c), "AnalogInteraction": lambda e: O.AnalogInteraction(e),
         "entangle": lambda e: O.entangle(e)}
    return G


for nm, mkg in gates().items():
    for el, e in (("symbol", t("x")), ("expression", t("x") * 2 + t("y")), ("number", 0.7)):
        def go(mkg=mkg, e=e):
            b = mkg(e)
            return b, own(b)
        u2b(f"gate {nm}/{el}", go)
for nm in ("X", "Y", "Z", "I", "H", "S", "T", "N", "CNOT", "CZ", "SWAP", "Toffoli", "CSWAP", "MCZ"):
    def go(nm=nm):
        G = getattr(O, nm)
        b = G(0) if nm in "XYZIHSTN" else G((0, 1), 2) if nm in ("Toffoli", "MCZ") else G(0, 1, 2) if nm == "CSWAP" else G(0, 1)
        return b, {}
    u2b(f"gate {nm}", go)


def analog(K):
    def go():
        a, b = O.AnalogRX(t("x")), O.AnalogInteraction(t("y"))
        r = U.chain(a, b) if K == "chain" else U.kron(O.AnalogRX(t("x"), qubit_support=(0, 1)), O.AnalogRY(t("x"), qubit_support=(2, 3)))
        return r, plus(*[own(x) for x in r.blocks])
    return go
u2b("analog chain", analog("chain"))
u2b("analog kron", analog("kron"))


# ---------------------------------------------------------------- uuid_to_expression: callee's contract is any map of ids to gates
class GateOf(Gen):
    """the gate of a generic id"""
    def __init__(self, k):
        super().__init__(("gate", k.vdom))
        self.k = k
        self.parameters = self
        self._uuid_dict = self
    def __getitem__(self, k):
        if k is self.k or (isinstance(k, Gen) and maps.same_key(k, self.k)):
            return self.k.expr
        raise Unsupported("expression of another id")


class Id(Gen):
    def __init__(self):
        super().__init__(("id", "any block"))
        self.expr = Gen(("expr", "any block"))


def any_u2b():
    k = Id()
    g = GateOf(k)
    s = gen_seg("ids", lambda: k)
    return GMap([("fam", s, k, k, [(k, g)], [k], False)]), k, g


def shim_for(fn, new):
    """assume a callee's contract during one obligation"""
    old = VC.shims.get(id(fn))
    VC.shim(fn, new)
    def undo():
        if old is None:
            VC.shims.pop(id(fn), None)
        else:
            VC.shims[id(fn)] = old
    VC.ex.undo.append(undo)


@obligation(P, "uuid_to_expression/any block", [FU + "uuid_to_expression"])
def _():
    poly.reset()
    m, k, g = any_u2b()
    b = new_opaque("b")
    shim_for(U.uuid_to_block, lambda x, *a: m if x is b else None)
    r = gmap(U.uuid_to_expression(b))
    ok = len(r.entries) == 1 and r.entries[0][0] == "fam" and r.entries[0][3] is k and all(v is k.expr for _, v in r.entries[0][4]) and not r.entries[0][6]
    return [holds("one entry per id: the expression stored at that id in its gate", True if ok else None, repr(r.entries))]


@obligation(P, "get_block_by_uuid/any block", [FU + "get_block_by_uuid"])
def _():
    poly.reset()
    m, k, g = any_u2b()
    b = new_opaque("b")
    shim_for(U.uuid_to_block, lambda x, *a: m if x is b else None)
    r = U.get_block_by_uuid(b, k)
    return [holds("the gate stored at the id", True if r is g else None)]


# ---------------------------------------------------------------- parameters / unique parameters over arbitrary expressions
class SSym:
    """the j-th parameter of an expression / of a list of parameters"""
    def __init__(self, nm, j):
        self.__dict__.update(nm=nm, j=j)
    def _p(self, what):
        return z3.Function(f"{what}[{self.nm}]", z3.IntSort(), z3.BoolSort())(self.j)
    def __vc_isinstance__(self, T):
        ts = T if isinstance(T, tuple) else (T,)
        if object in ts:
            return True
        if any(x in (sympy.Array, U.Array) for x in ts):
            return decide(self._p("is_array"))
        raise Unsupported("class of an arbitrary parameter")
    @property
    def is_number(self):
        return decide(z3.And(self._p("is_number"), z3.Not(self._p("is_array"))))
    @property
    def trainable(self):
        return decide(self._p("trainable"))
    @property
    def name(self):
        if decide(self._p("is_array")):
            raise AttributeError("name")
        return SName(self)
    def __setattr__(self, k, v):
        WRITES.append((self, k, v, list(VC.ex.pc)))
    def __vc_same__(self, o):
        return isinstance(o, SSym) and o.nm == self.nm and z3.eq(z3.simplify(self.j), z3.simplify(o.j))
    def __eq__(self, o):
        if self.__vc_same__(o):
            return True
        raise Unsupported("comparison of parameters")
    __hash__ = None


class SName:
    def __init__(self, p):
        self.p = p


WRITES = []


class Names:
    """an arbitrary list of names; which parameters are named in it is unknown"""
    def __vc_isinstance__(self, T):
        return True
    def __contains__(self, x):
        if not isinstance(x, SName):
            raise Unsupported("membership of another value")
        return decide(x.p._p("named"))
    def __bool__(self):
        return decide(z3.Bool("some names are given"))
    def __vc_len__(self):
        r = fresh_int("len[names]", 0)
        assume((r.z > 0) == z3.Bool("some names are given"))
        return r


class Syms:
    """free symbols of an arbitrary expression: a finite set"""
    def __init__(self, e):
        self.e = e
    def lst(self):
        return SList([raw_piece(inner_base(self.e))])
    def __vc_elems__(self):
        return self.lst().__vc_elems__()
    def __vc_len__(self):
        return self.lst().__vc_len__()
    def __bool__(self):
        return bool(self.lst())


_IB = {}
def inner_base(e):
    key = (e.nm, str(e.j))
    b = _IB.get(key)
    if b is None:
        nm = f"symbols of {e.nm}[{e.j}]"
        b = _IB[key] = Base(nm, lambda j: SSym(nm, j))
    assume(b.n >= 0)
    return b


class SExpr(SSym):
    @property
    def free_symbols(self):
        return Syms(self)


_list0 = VC.shims[id(list)]
VC.shim(list, lambda *a: a[0].lst() if a and isinstance(a[0], Syms) else _list0(*a))
_tuple0 = VC.shims[id(tuple)]
VC.shim(tuple, lambda *a: a[0].lst() if a and isinstance(a[0], Syms) else _tuple0(*a))
_it0 = seqs.items_of
seqs.items_of = lambda o: o.lst().items if isinstance(o, Syms) else _it0(o)


class ExprMap:
    """any map of ids to expressions"""
    def __init__(self, base):
        self.l = SList([raw_piece(base)])
    def values(self):
        return self.l
    def items(self):
        return SList([Piece(p.base, [(c, (object(), v)) for c, v in p.cases]) for p in self.l.items])
    def __iter__(self):
        raise Unsupported("keys of a map of expressions")


@obligation(P, "parameters/any block", [FU + "parameters"])
def _():
    poly.reset()
    _IB.clear()
    base = Base("expressions", lambda j: SExpr("expressions", j))
    b = new_opaque("b")
    m = ExprMap(base)
    shim_for(U.uuid_to_expression, lambda x: m if x is b else None)
    r = U.parameters(b)
    e = base.elem(base.idx)
    inner = inner_base(e)
    want = SList([Piece(base, [(inner.n == 0, e), (inner.n > 0, Flat([raw_piece(inner)]))])])
    return [same("every parameter of every expression, constants as themselves", r, want)]


def plist(nm="parameters"):
    base = Base(nm, lambda j: SSym(nm, j))
    return base, SList([raw_piece(base)])


@obligation(P, "unique_parameters/any block", [FU + "unique_parameters"])
def _():
    poly.reset()
    base, l = plist()
    b = new_opaque("b")
    shim_for(U.parameters, lambda x: l if x is b else None)
    r = U.unique_parameters(b)
    e = base.elem(base.idx)
    nms = [nm for nm in ("symbols", "params", "unique", "result", "out", "uniq")]
    want_c = z3.And(z3.Not(e._p("is_array")), z3.Not(e._p("is_number")))
    out = []
    if isinstance(r, SList) and len(r.items) == 1 and isinstance(r.items[0], Piece) and r.items[0].base is base:
        cs = r.items[0].cases
        got = z3.Or([c for c, _ in cs] or [z3.BoolVal(False)])
        vs = {d for d in z3util_vars(got) if str(d).startswith("already in ")}
        if len(vs) == 1 and all(seqs.val_eq(v, e) for _, v in cs):
            (sv,) = vs
            return [z3_valid("exactly the non-constant parameters not listed before", got == z3.And(want_c, z3.Not(sv)), assumptions=base.dom())]
    return [Claim("exactly the non-constant parameters not listed before", "unknown", repr(r)[:400])]


def z3util_vars(f):
    out, todo = set(), [f]
    while todo:
        x = todo.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x)
        todo.extend(x.children())
    return out


# ---------------------------------------------------------------- primitive blocks
def ih_prims(fn, a, k):
    if fn is U.primitive_blocks and isinstance(a[0], Opaque):
        d = uid("prims")
        FOLD_RULE[(d, "mul")] = a[0].den
        return [flat_segment(d, a[0].sup, frozenset(PRIMITIVE), ops=("mul",))]
    return NotImplemented


def prims(name, make):
    def f():
        poly.reset()
        b, want = make()
        before = snap(b)
        r = U.primitive_blocks(b)
        return [op_eq("the leaves of the block in order", fold_list("mul", list(VC.elements(r))), want), unchanged("block unchanged", before, b)]
    obligation(P, f"primitive_blocks/{name}", [FU + "primitive_blocks"], induct=ih_prims)(f)


from pyvc.blocks import fold_list
for K in (ChainBlock, KronBlock, AddBlock):
    def go(K=K):
        s, d = new_seg(kron=K is KronBlock)
        x = new_opaque("x")
        if K is KronBlock:
            for y in sup(x):
                FACTS.add(y, ("S", d)); FACTS.add(y, ("es", d))
        return mk(K, s, x), fold_list("mul", [s, x])
    prims(K.__name__, go)
def go():
    x = new_opaque("x")
    return ScaleBlock(x, sympy.Symbol("s")), x.den
prims("scale", go)
for nm in ("X", "H", "CNOT", "SWAP", "N"):
    def go(nm=nm):
        b = getattr(O, nm)(0) if nm in "XHN" else getattr(O, nm)(0, 1)
        return b, den(b)
    prims(f"leaf {nm}", go)
prims("leaf RX", lambda: (lambda b: (b, den(b)))(O.RX(0, "th")))


class SLeaf(SSym):
    """an arbitrary leaf block"""
    def __vc_isinstance__(self, T):
        ts = T if isinstance(T, tuple) else (T,)
        from typing import get_args
        pauli = set(get_args(O.primitive.TPauliBlock)) if hasattr(O, "primitive") else set()
        if pauli and set(ts) == pauli:
            return decide(self._p("is_pauli"))
        raise Unsupported("class of an arbitrary leaf")
    @property
    def name(self):
        return "leaf"


for raises in (False, True):
    @obligation(P, f"get_pauli_blocks/any block/raises={raises}", [FU + "get_pauli_blocks"], expect=(mod("qadence.exceptions").NotPauliBlockError,))
    def _(raises=raises):
        poly.reset()
        base = Base("leaves", lambda j: SLeaf("leaves", j))
        l = SList([raw_piece(base)])
        b = new_opaque("b")
        shim_for(U.primitive_blocks, lambda x: l if x is b else None)
        p = base.elem(base.idx)._p("is_pauli")
        try:
            r = U.get_pauli_blocks(b, raises=raises)
        except mod("qadence.exceptions").NotPauliBlockError:
            ws = getattr(base, "witnesses", [])
            return [holds("raises only when asked", raises is True), z3_valid("some leaf is not a Pauli", z3.Or([z3.Not(base.at(p, j)) for j in ws] or [z3.BoolVal(False)]), assumptions=list(VC.ex.pc))]
        if raises:
            return [z3_valid("every leaf is a Pauli", p, assumptions=list(VC.ex.pc) + base.dom()), same("all leaves", r, l)]
        return [same("exactly the Pauli leaves in order", r, SList([Piece(base, [(p, base.elem(base.idx))])]))]


# ---------------------------------------------------------------- unrolling
def ih_unroll(fn, a, k):
    if fn is U.unroll_block_with_scaling:
        b = a[0]
        if not isinstance(b, Opaque):
            return NotImplemented
        l = k.get("block_list", a[1] if len(a) > 1 else None)
        l = [] if l is None else l
        d = uid("terms")
        FOLD_RULE[(d, "add")] = b.den
        l.append(flat_segment(d, None, ops=("add",)))
        return l
    return NotImplemented


UNROLL = frozenset((AddBlock, ScaleBlock, KronBlock, ChainBlock)) | frozenset(k for k in PRIMITIVE if k is not mod("qadence.blocks").PutBlock)


def unroll(name, make):
    def f(pre):
        poly.reset()
        b = make()
        before = snap(b)
        want = den(b)
        if pre == "none":
            r = U.unroll_block_with_scaling(b)
        else:
            y = new_opaque("y")
            lst = [(y, sympy.Symbol("w"))]
            if pre == "many":
                s, d = new_seg()
                lst.append(s)
            want = want + fold_list("add", lst)
            r = U.unroll_block_with_scaling(b, block_list=lst)
        out = [op_eq("weighted sum of the terms is the block (plus the terms given)", fold_list("add", list(r)), now(want, b)), unchanged("block unchanged", before, b)]
        return out
    for pre in ("none", "one", "many"):
        obligation(P, f"unroll_block_with_scaling/{name}/{pre} given", [FU + "unroll_block_with_scaling"], induct=ih_unroll)(lambda pre=pre: f(pre))


def now(p, *bs):
    for b in bs:
        todo = [b]
        while todo:
            x = todo.pop()
            if isinstance(x, Opaque):
                if x._mat is not None:
                    (w,) = list(x.den.t)
                    p = p.subst(w[0][:2], x._matden)
                    todo.append(x._mat)
            elif hasattr(x, "block") and isinstance(x, ScaleBlock):
                todo.append(x.block)
            elif hasattr(x, "blocks"):
                todo.extend(y for y in x.blocks if type(y) is not Seg)
    return p


unroll("sum", lambda: mk(AddBlock, new_seg(kinds=UNROLL)[0]))
unroll("sum and one more", lambda: mk(AddBlock, new_opaque("h", kinds=UNROLL), new_seg(kinds=UNROLL)[0]))
unroll("scaled sum", lambda: ScaleBlock(mk(AddBlock, new_seg(kinds=UNROLL)[0]), sympy.Symbol("s")))
unroll("scaled sum by zero", lambda: ScaleBlock(mk(AddBlock, new_seg(kinds=UNROLL)[0]), sympy.Integer(0)))
unroll("scaled sum by one", lambda: ScaleBlock(mk(AddBlock, new_seg(kinds=UNROLL)[0]), sympy.Integer(1)))
unroll("scaled block", lambda: ScaleBlock(new_opaque("x", kinds=UNROLL - {AddBlock}), sympy.Symbol("s")))
unroll("twice scaled sum", lambda: ScaleBlock(ScaleBlock(mk(AddBlock, new_seg(kinds=UNROLL)[0]), sympy.Symbol("r")), sympy.Symbol("s")))
unroll("chain", lambda: mk(ChainBlock, new_seg()[0]))
unroll("kron", lambda: mk(KronBlock, new_seg(kron=True)[0]))
unroll("leaf", lambda: O.X(2))
unroll("parametric leaf", lambda: O.RX(2, "th"))


# ---------------------------------------------------------------- trainability
def train(how, nblocks, names):
    def f():
        poly.reset()
        WRITES.clear()
        bs = [new_opaque(f"b{i}") for i in range(nblocks)]
        ls = [plist(f"parameters of block {i}") for i in range(nblocks)]
        for fn in (TB.parameters,):
            shim_for(fn, lambda x: next(l for (b, l) in zip(bs, [y[1] for y in ls]) if x is b))
        arg = bs[0] if nblocks == 1 else list(bs)
        N = Names() if names else None
        kw = {"restricted_names": N} if names else {}
        if how == "set_trainable":
            v = object()
            r = TB.set_trainable(arg, value=v, **kw)
        elif how == "set_as_variational":
            v = True
            r = TB.set_as_variational(arg, **kw)
        else:
            v = False
            r = TB.set_as_fixed(arg, **kw)
        out = [holds("the blocks themselves are returned", (r is bs[0]) if nblocks == 1 else (isinstance(r, list) and len(r) == nblocks and all(x is y for x, y in zip(r, bs))))]
        out.append(holds("only the trainable flag is written, with the given value", all(k == "trainable" and (x is v or x == v) for _, k, x, _ in WRITES)))
        n0 = len(VC.ex.pc)
        for base, _ in ls:
            e = base.elem(base.idx)
            want = z3.And(z3.Not(e._p("is_array")), z3.Not(e._p("is_number")))
            if names:
                want = z3.And(want, z3.Or(z3.Not(z3.Bool("some names are given")), e._p("named")))
            got = z3.Or([z3.And(pc) for s, k, x, pc in WRITES if s.nm == base.name] or [z3.BoolVal(False)])
            got0 = z3.substitute(got, *[]) if False else got
            out.append(z3_valid("exactly the requested parameters are set", got0 == want, assumptions=list(VC.ex.pc) + base.dom()))
        return out
    obligation(P, f"{how}/{nblocks} block{'s' if nblocks > 1 else ''}/{'restricted' if names else 'all'}", ["qadence.transpile.block.set_trainable", "qadence.transpile.block." + how])(f)


for how in ("set_trainable", "set_as_variational", "set_as_fixed"):
    for nb in (1, 2):
        for names in (False, True):
            train(how, nb, names)

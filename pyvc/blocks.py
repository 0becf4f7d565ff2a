"""Symbolic blocks: opaque blocks with an operator denotation and a symbolic qubit support."""
from __future__ import annotations
import collections
import itertools
import sympy
from . import poly
from .poly import Poly, FACTS, ATOM_SUPPORT, fold_seg, mapped
from .runtime import VC, Seg, Unsupported, PathDead, GenList, Explorer
from .maps import GMap, AccMap, PDict, Gen, become, gmap, family, same_key, bag_fold

import qadence  # noqa  (instrumented import; pyvc.instrument.install() ran before)
from qadence import operations as ops
from qadence import blocks as qb
from qadence.blocks.abstract import AbstractBlock
from qadence.blocks import (AddBlock, ChainBlock, CompositeBlock, ControlBlock, KronBlock, ParametricBlock,
                            ParametricControlBlock, PrimitiveBlock, PutBlock, ScaleBlock, TimeEvolutionBlock)
from qadence.blocks.matrix import MatrixBlock
from qadence.blocks.analog import AnalogBlock, AnalogComposite
from qadence.qubit_support import QubitSupport
from qadence.parameters import Parameter, ParamMap

_ids = itertools.count()
LEAF_CLASSES = [c for c in (getattr(ops, n) for n in dir(ops))
                if isinstance(c, type) and issubclass(c, PrimitiveBlock) and not issubclass(c, AnalogBlock)]
LEAF_CLASSES = sorted(set(LEAF_CLASSES), key=lambda c: c.__name__) + [MatrixBlock]
COMPOSITES = [ChainBlock, KronBlock, AddBlock]
DIGITAL = frozenset(LEAF_CLASSES + COMPOSITES + [ScaleBlock])
PRIMITIVE = frozenset(LEAF_CLASSES)
FOLD_RULE = {}          # (dom, op) -> Poly
LOCAL = set()           # names of element-local symbols


def uid(p="o"):
    return f"{p}{next(_ids)}"


def reset():
    poly.reset()
    FOLD_RULE.clear()
    LOCAL.clear()
    NONEMPTY.clear()


NONEMPTY = set()


def _mark(s, x):
    if x not in s:
        s.add(x)
        if VC.ex is not None:
            VC.ex.undo.append(lambda: s.discard(x))


class SymSupport:
    """a symbolic set of qubit indices (never 'global'): union of support atoms"""
    def __init__(self, atoms):
        self.atoms = frozenset(atoms)
    def __vc_isinstance__(self, T):
        ts = T if isinstance(T, tuple) else (T,)
        return any(t in (tuple, QubitSupport, object) for t in ts)
    def __iter__(self):
        yield Seg(uid("sup"), self._el, info={"supatoms": self.atoms}, tag="support")
    def _el(self):
        raise Unsupported("element of a symbolic support")
    def __eq__(self, o):
        if isinstance(o, SymSupport) and o.atoms == self.atoms:
            return True
        if isinstance(o, tuple) and o and o[0] == "global":
            return False
        raise Unsupported("comparison of symbolic supports")
    def __ne__(self, o):
        return not self.__eq__(o)
    def __hash__(self):
        return hash(self.atoms)
    is_global = False
    def __add__(self, o):
        return SymSupport(self.atoms | support_atoms(o))
    __radd__ = __add__
    def __deepcopy__(self, memo):
        return self
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"SymSupport.{n}")
    def _no(self, *a, **k):
        raise Unsupported("operation on a symbolic support")
    __len__ = __getitem__ = __contains__ = __lt__ = __gt__ = _no
    @property
    def n(self):
        import z3
        from .scalars import SNum, assume
        z = z3.Int("len!" + repr(sorted(self.atoms, key=repr)))
        assume(z >= 1)
        return SNum(z)
    def __vc_len__(self):
        return self.n
    def __bool__(self):
        return True
    def __repr__(self):
        return f"SymSupport({sorted(self.atoms)})"


def support_atoms(s):
    if isinstance(s, SymSupport):
        return s.atoms
    out = set()
    for q in s:
        if type(q) is Seg:
            if "supatoms" not in q.info:
                raise Unsupported("support segment")
            out |= q.info["supatoms"]
        else:
            out.add(("q", int(q)))
    return frozenset(out)


# contracts of QubitSupport used while operands are symbolic (their bodies are verified in C05)
_qs_add, _qs_disj = QubitSupport.__add__, QubitSupport.is_disjoint
def _c_add(self, other):
    if isinstance(other, SymSupport) or any(type(x) is Seg for x in tuple.__iter__(self)) or (isinstance(other, tuple) and any(type(x) is Seg for x in other)):
        return SymSupport(support_atoms(self) | support_atoms(other))
    return _qs_add(self, other)
def _c_disj(self, other):
    if isinstance(other, SymSupport) or any(type(x) is Seg for x in tuple.__iter__(self)):
        if FACTS.disjoint(support_atoms(self), support_atoms(other)):
            return True
        raise Unsupported("disjointness of symbolic supports not known")
    return _qs_disj(self, other)
QubitSupport.__add__ = _c_add
QubitSupport.is_disjoint = _c_disj
SymSupport.is_disjoint = lambda self, o: True if FACTS.disjoint(self.atoms, support_atoms(o)) else (_ for _ in ()).throw(Unsupported("disjointness"))
def _sh_QubitSupport(*a):
    if any(isinstance(x, SymSupport) or type(x) is Seg for x in a):
        s = frozenset()
        for x in a:
            s |= support_atoms(x) if not type(x) is Seg else x.info["supatoms"]
        return SymSupport(s)
    return QubitSupport(*a)
VC.shim(QubitSupport, _sh_QubitSupport)


class raw_supports:
    """verify the bodies of QubitSupport themselves (C05) instead of using their contracts"""
    def __enter__(self):
        QubitSupport.__add__, QubitSupport.is_disjoint = _qs_add, _qs_disj
        self.old = VC.shims.pop(id(QubitSupport), None)
    def __exit__(self, *a):
        QubitSupport.__add__, QubitSupport.is_disjoint = _c_add, _c_disj
        VC.shims[id(QubitSupport)] = self.old
        return False


class SData:
    """the (unknown) serialized data of an arbitrary block"""
    def __init__(self, block):
        self.block = block


class Opaque(AbstractBlock):
    """an arbitrary block: denotation `den`, support atoms `sup`, possible classes `kinds`"""
    name = "Opaque"
    def __init__(self, den, sup, kinds=DIGITAL, label=None):
        self.den, self.sup, self.kinds, self.label = den, frozenset(sup), frozenset(kinds), label
        self.tag = None
        self._mat = None
        self._noise = None
    # --- classes
    def __vc_isinstance__(self, T):
        if self._mat is not None:
            return isinstance(self._mat, T)
        ts = T if isinstance(T, tuple) else (T,)
        ts = tuple(t for t in ts if isinstance(t, type))
        yes = frozenset(k for k in self.kinds if issubclass(k, ts))
        no = self.kinds - yes
        if not no:
            return True
        if not yes:
            return False
        c = VC.ex.choose(2, "class")
        self._restrict(yes if c == 0 else no)
        return c == 0
    def _restrict(self, kinds):
        old = self.kinds
        self.kinds = kinds
        VC.ex.undo.append(lambda: setattr(self, "kinds", old))
    def __vc_type__(self):
        return self._one()
    def _one(self):
        comp = sorted((k for k in self.kinds if not issubclass(k, tuple(PRIMITIVE))), key=lambda k: k.__name__)
        prim = sorted((k for k in self.kinds if issubclass(k, tuple(PRIMITIVE))), key=lambda k: k.__name__)
        if prim:
            raise Unsupported("class of an opaque leaf")
        k = comp[VC.ex.choose(len(comp), "kind")]
        self._restrict(frozenset([k]))
        return k
    def _materialise(self):
        if self._mat is not None:
            return self._mat
        k = self._one()
        if k in (ChainBlock, KronBlock, AddBlock):
            seg, dom = new_seg(kron=(k is KronBlock), prefix="sub")
            b = k.__new__(k)
            b.blocks = (seg,)
        elif k is ScaleBlock:
            s = sympy.Symbol(uid("loc_s"), real=True)
            LOCAL.add(s.name)
            inner = new_opaque("sub")
            b = ScaleBlock(inner, s)
        else:
            raise Unsupported(f"materialise {k}")
        self._mat = b
        VC.ex.undo.append(lambda: setattr(self, "_mat", None))
        # the opaque operator *is* this composition
        self._matden = den(b)
        # what is disjoint from the block is disjoint from its parts
        parts = set(sup(b))
        parts |= {("es", a[1]) for a in parts if a[0] == "S"}
        for y in {y for (x, y) in list(FACTS.pairs) if x in self.sup}:
            if FACTS.disjoint(self.sup, [y]):
                for x in parts:
                    FACTS.add(x, y)
        return b
    # --- block interface
    @property
    def qubit_support(self):
        return SymSupport(self.sup)
    @property
    def blocks(self):
        return self._materialise().blocks
    @property
    def block(self):
        return self._materialise().block
    @property
    def parameters(self):
        return self._materialise().parameters
    @property
    def scale(self):
        return self._materialise().scale
    @property
    def noise(self):
        return self._noise
    def n_qubits(self):
        raise Unsupported("n_qubits of opaque")
    n_qubits = property(n_qubits)
    n_supports = depth = eigenvalues_generator = n_qubits
    def __ascii__(self, console):
        raise Unsupported("ascii")
    # contract of serialization (induction hypothesis of C06): the data determine the block
    def _to_dict(self):
        return {"type": "Opaque", "tag": self.tag, "data": SData(self)}
    @classmethod
    def _from_dict(cls, d):
        b = d["data"].block
        return Opaque(b.den, b.sup, b.kinds, b.label)
    def __eq__(self, o):
        raise Unsupported("equality of opaque blocks")
    def __hash__(self):
        return id(self)
    def __repr__(self):
        return f"<Opaque {self.label} {self.den}>"
    def __deepcopy__(self, memo):
        o = Opaque(self.den, self.sup, self.kinds, self.label)
        o.tag, o._mat, o._noise = self.tag, self._mat, self._noise
        if self._mat is not None:
            o._matden = self._matden
        memo[id(self)] = o
        return o
    def __copy__(self):
        return self.__deepcopy__({})
    # contract of dagger (proved for every class in C01): operator adjoint, same support
    def dagger(self):
        return Opaque(self.den.adj(), self.sup, DIGITAL if self.kinds & frozenset(COMPOSITES) else PRIMITIVE, f"{self.label}^+")


Opaque.__abstractmethods__ = frozenset()


def new_opaque(label="A", kinds=DIGITAL, sup=None):
    i = uid(label)
    s = frozenset([("s", i)]) if sup is None else frozenset(sup)
    ATOM_SUPPORT[("op", i)] = s
    return Opaque(Poly.atom(("op", i, 0)), s, kinds, i)


def new_seg(kron=False, prefix="seg", kinds=DIGITAL, nonempty=False):
    """a symbolic sequence of arbitrary blocks; kron=True: pairwise disjoint supports"""
    d = uid(prefix)
    es = frozenset([("es", d)])
    ATOM_SUPPORT[("e", d)] = es
    ATOM_SUPPORT[("prod", d)] = ATOM_SUPPORT[("sum", d)] = frozenset([("S", d)])
    if kron:
        FACTS.families.add(d)
        NONEMPTY.add(d)
    if nonempty:
        NONEMPTY.add(d)
    def make():
        return Opaque(Poly.atom(("e", d, 0)), es, kinds, f"e_{d}")
    return Seg(d, make, info={"T": {"mul": Poly.atom(("e", d, 0)), "add": Poly.atom(("e", d, 0))}, "esup": es, "one": True}), d


def seg_fold(op, seg):
    T = seg.info.get("T", {}).get(op)
    if T is None:
        raise Unsupported(f"{op}-fold of segment")
    dom = seg.dom
    if (dom, op) in FOLD_RULE and list(T.t) == [(("e", dom, 0),)] and T.t[(("e", dom, 0),)] == 1 and seg.dir in (1, 0):
        return FOLD_RULE[(dom, op)]
    return fold_seg(op, dom, seg.dir, T, ATOM_SUPPORT.get(("prod", dom)))


# ---------------------------------------------------------------- specification: operator of a block
def den(b):
    """the operator a block denotes (the specification; independent of the code under proof)"""
    if isinstance(b, Opaque):
        return b.den
    if isinstance(b, (list, tuple)):
        raise Unsupported("den of list")
    if isinstance(b, PutBlock):
        return mapped(("put", tuple(sorted(support_atoms(b.qubit_support), key=repr))), den(b.blocks[0]))
    if isinstance(b, (ChainBlock, KronBlock)):
        return fold_list("mul", b.blocks)
    if isinstance(b, AddBlock):
        return fold_list("add", b.blocks)
    if isinstance(b, ScaleBlock):
        (s,) = b.parameters.expressions()
        return den(b.block).scale(s)
    if isinstance(b, (ControlBlock, ParametricControlBlock)):
        ctl = tuple(b.qubit_support)[: len(b.qubit_support) - len(tuple(b.blocks[0].qubit_support))] if not isinstance(b.blocks[0], Opaque) else tuple(b.control)
        return mapped(("control", tuple(sorted(support_atoms(ctl), key=repr))), den(b.blocks[0]))
    if isinstance(b, TimeEvolutionBlock):
        t = b.parameters.parameter
        g = den(b.generator)
        return mapped(("exp", sympy.srepr(sympy.expand(t))), g)
    if isinstance(b, PrimitiveBlock):
        ps = ()
        if isinstance(b, ParametricBlock):
            ps = tuple(sympy.srepr(sympy.expand(e)) for e in b.parameters.expressions())
        extra = (getattr(b, "ket", None), getattr(b, "bra", None))
        a = ("op", ("leaf", type(b).__name__, ps, extra, tuple(b.qubit_support)), 0)
        ATOM_SUPPORT[a[:2]] = support_atoms(b.qubit_support)
        return Poly.atom(a)
    raise Unsupported(f"den of {type(b)}")


def fold_list(op, items):
    acc = Poly.one() if op == "mul" else Poly.zero()
    for x in items:
        p = seg_fold(op, x) if type(x) is Seg else den_item(op, x)
        acc = acc.then(p) if op == "mul" else acc + p
    return acc


def den_item(op, x):
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], AbstractBlock):
        return den(x[0]).scale(x[1])
    return den(x)


def sup(b):
    """specification of the support of a block as a set of support atoms"""
    if isinstance(b, Opaque):
        return b.sup
    if isinstance(b, PutBlock):
        return support_atoms(b.qubit_support)
    if isinstance(b, CompositeBlock):
        out = frozenset()
        for x in b.blocks:
            out |= (seg_sup(x) if type(x) is Seg else sup(x))
        return out
    if isinstance(b, ScaleBlock):
        return sup(b.block)
    return support_atoms(b.qubit_support)


def seg_sup(seg):
    if "usup" in seg.info:
        return norm_sup(seg.info["usup"])
    s = seg.info.get("esup")
    if s is None:
        raise Unsupported("support of segment")
    # the union over the segment of an element support equal to the base element's support
    return norm_sup(lift(seg.dom, s))


def lift(dom, atoms):
    """leave the scope of the generic element of `dom`: its support becomes the segment's union"""
    return frozenset(("S", a[1]) if a == ("es", dom) else ("R", *lift(dom, [a[1]])) if a[0] == "R" else a for a in atoms)


def norm_sup(atoms):
    out = set()
    for a in atoms:
        if a[0] == "R":
            out |= {("R", x) for x in norm_sup([a[1]])}
            continue
        if a[0] == "S" and a[1] in poly.EMPTY:
            continue
        if a[0] == "S" and a[1] in poly.SPLIT:
            hp, tail = poly.SPLIT[a[1]]
            (w,) = list(hp.t)
            out |= ATOM_SUPPORT[("op", w[0][1])] | norm_sup([("S", tail)])
        else:
            out.add(a)
    return frozenset(out)


# ---------------------------------------------------------------- relabelling by an injective qubit map
def relabel(p):
    """specification: the operator with every qubit index replaced through the map (an algebra homomorphism)"""
    out = Poly.zero()
    for w, c in p.t.items():
        acc = Poly({(): c})
        for a in w:
            if a[0] == "prod":
                q = poly.fold_seg("mul", a[1], a[2], relabel(poly.INTERN[a[3]]))
            elif a[0] == "sum":
                q = poly.fold_seg("add", a[1], 1, relabel(poly.INTERN[a[2]]))
            else:
                q = Poly.atom(a)
                base = q if a[0] == "map" or a[2] == 0 else Poly.atom((*a[:2], 0))
                m = mapped(("R",), base)
                (mw,) = list(m.t)
                s0 = poly.atom_support(a)
                if s0 is not None:
                    ATOM_SUPPORT[mw[0]] = frozenset(("R", x) for x in s0)
                q = m if base is q else m.adj()
            acc = acc.then(q)
        out = out + acc
    return out


def relabel_sup(s):
    return frozenset(("R", a) for a in s)


poly.HOM[("R",)] = relabel
poly.MAP_ADJ["R"] = lambda a: ("map", a[1], poly.INTERN[a[2]].adj().key())
poly.MAP_ADJ["put"] = lambda a: ("map", a[1], poly.INTERN[a[2]].adj().key())
poly.MAP_ADJ["control"] = lambda a: ("map", a[1], poly.INTERN[a[2]].adj().key())


# ---------------------------------------------------------------- KronBlock constructor contract
def is_family(x):
    """the elements of this segment have pairwise disjoint supports"""
    if x.info.get("family"):
        return True
    es = x.info.get("esup")
    return es is not None and x.dom in FACTS.families and es <= frozenset([("es", x.dom), ("R", ("es", x.dom))])


def _sh_Kron(blocks, *a, **k):
    els = list(blocks)
    if not any(type(x) is Seg or isinstance(x, Opaque) for x in els):
        return KronBlock(blocks, *a, **k)
    # precondition: non-empty, pairwise disjoint
    if not els:
        raise NotImplementedError("Empty KronBlocks not supported")
    if all(type(x) is Seg for x in els) and not any(x.dom in NONEMPTY or x.info.get("base") in NONEMPTY for x in els):
        raise Unsupported("possibly empty kron")
    sups = []
    for x in els:
        if type(x) is Seg:
            if not is_family(x):
                raise Unsupported("kron of a segment not known to be pairwise disjoint")
            sups.append(seg_sup(x))
        else:
            sups.append(sup(x))
    for i in range(len(sups)):
        for j in range(i):
            if not FACTS.disjoint(sups[i], sups[j]):
                raise Unsupported("kron of blocks not known to be disjoint")
    b = KronBlock.__new__(KronBlock)
    b.blocks = blocks
    return b
VC.shim(KronBlock, _sh_Kron)


# ---------------------------------------------------------------- merging generic-element results
class Poison:
    def __getattr__(self, n):
        raise Unsupported("use of a loop variable after a symbolic iteration")
    def _no(self, *a, **k):
        raise Unsupported("use of a loop variable after a symbolic iteration")
    __bool__ = __iter__ = __add__ = __radd__ = __mul__ = __call__ = __len__ = __eq__ = __hash__ = __getitem__ = _no


class AccList(list):
    def _no(self, *a, **k):
        raise Unsupported("reading an accumulator inside a symbolic loop")
    __iter__ = __getitem__ = __len__ = __contains__ = __reversed__ = pop = insert = index = sort = reverse = __add__ = __radd__ = __eq__ = __ne__ = copy = count = __mul__ = __bool__ = remove = clear = __setitem__ = __delitem__ = _no
    __hash__ = None
    def raw(self):
        return [list.__getitem__(self, i) for i in range(list.__len__(self))]


class _Acc:
    def __init__(self, nm, v):
        self.nm, self.v = nm, v
        if type(v) is list or type(v) is GenList or type(v) is AccList:
            self.kind = "list"
        elif isinstance(v, (GMap, dict)) and not isinstance(v, collections.Counter):
            self.kind = "map"
        elif isinstance(v, (SymSupport, QubitSupport)):
            self.kind = "support"
        elif isinstance(v, AbstractBlock):
            self.kind = "block"
        else:
            self.kind = "poison"
    def start(self):
        if self.kind == "list":
            return AccList()
        if self.kind == "map":
            m = AccMap(gmap(self.v))
            m.loopdom = True
            return m
        if self.kind == "support":
            self.atom = ("acc", self.nm)
            return SymSupport(support_atoms(self.v) | {self.atom})
        if self.kind == "block":
            self.aid = f"acc_{self.nm}"
            return Opaque(Poly.atom(("op", self.aid, 0)), [("s", self.aid)], DIGITAL, self.aid)
        return Poison()


USUP = {}     # flattened segment -> the union of its elements' supports


def path_norm(p):
    """normal form under what the current path knows about segments"""
    for _ in range(6):
        q = poly.renorm(p)
        for (d, op), rule in list(FOLD_RULE.items()):
            if d in poly.EMPTY or d in poly.SPLIT:
                ws = list(rule.t.items())
                if len(ws) == 1 and len(ws[0][0]) == 1 and ws[0][1] == 1 and ws[0][0][0][0] in ("op", "e"):
                    a = ws[0][0][0]
                    rhs = poly.fold_seg(op, d, 1, Poly.atom(("e", d, 0)))
                    q = q.subst(a[:2], rhs if a[2] == 0 else rhs.adj())
        if q.t.keys() == p.t.keys():
            return q
        p = q
    return p


def sup_norm(atoms):
    out = set(norm_sup(atoms))
    for _ in range(3):
        for d, U in USUP.items():
            ex = norm_sup([("S", d)]) if d not in poly.EMPTY else frozenset()
            if d not in poly.EMPTY and ex <= out:
                out -= ex
                out |= norm_sup(U)
            if d in poly.EMPTY:
                out -= norm_sup(U)      # no element, hence no qubit
    return frozenset(out)


def poly_equal(p, q):
    from .solve import coeff_equal
    p, q = path_norm(p), path_norm(q)
    d = (p + q.scale(-1))
    for w, c in d.t.items():
        if not coeff_equal(c):
            return False
    return True


def _uncons(els):
    """make the first element of a sequence explicit (case split on emptiness of leading segments)"""
    els = list(els)
    while els:
        if type(els[0]) is not Seg:
            return els
        s = els[0]
        if s.dom in poly.EMPTY:
            els = els[1:]
            continue
        if s.dir != 1 or not s.info.get("one"):
            raise Unsupported("head of a reversed or derived segment")
        if s.dom not in poly.SPLIT:
            if s.dom not in NONEMPTY and VC.ex.choose(2, "empty?") == 1:
                _mark(poly.EMPTY, s.dom)
                els = els[1:]
                continue
            split(s.dom, kron=s.dom in FACTS.families)
        hp, tail = poly.SPLIT[s.dom]
        (w,) = list(hp.t)
        hid = w[0][1]
        head = s.elem()
        hs = ATOM_SUPPORT[("op", hid)]
        def conv_sup(ss, to):
            return frozenset().union(*[to if a == ("es", s.dom) else relabel_sup(conv_sup([a[1]], to)) if a[0] == "R" else frozenset([a]) for a in ss])
        kinds = head.kinds
        head = Opaque(head.den.subst(("e", s.dom), hp), conv_sup(head.sup, hs), kinds, f"head {s.dom}")
        T = {op: (t.subst(("e", s.dom), Poly.atom(("e", tail, 0))) if t is not None else None) for op, t in s.info["T"].items()}
        ts = frozenset([("es", tail)])
        info = dict(s.info, T=T)
        if "esup" in info:
            info["esup"] = conv_sup(info["esup"], ts)
        info.pop("usup", None)
        mk = s.make
        def make(mk=mk, dom=s.dom, tail=tail, ts=ts):
            e = mk()
            return Opaque(e.den.subst(("e", dom), Poly.atom(("e", tail, 0))), conv_sup(e.sup, ts), e.kinds, f"e_{tail}")
        return [head, Seg(tail, make, 1, info)] + els[1:]
    return None


def split(dom, kron=False):
    hid, tail = uid("head"), uid("tail")
    ATOM_SUPPORT[("op", hid)] = frozenset([("s", hid)])
    ATOM_SUPPORT[("e", tail)] = frozenset([("es", tail)])
    ATOM_SUPPORT[("prod", tail)] = ATOM_SUPPORT[("sum", tail)] = frozenset([("S", tail)])
    if kron:
        FACTS.families.add(tail)
        FACTS.add(("s", hid), ("S", tail))
        FACTS.add(("s", hid), ("es", tail))
    # facts known about the whole segment carry over to its parts
    for (a, b) in list(FACTS.pairs):
        if a == ("S", dom) or a in USUP.get(dom, ()):
            FACTS.add(("s", hid), b); FACTS.add(("S", tail), b); FACTS.add(("es", tail), b)
    poly.SPLIT[dom] = (Poly.atom(("op", hid, 0)), tail)
    if VC.ex is not None:
        VC.ex.undo.append(lambda: poly.SPLIT.pop(dom, None))


class Ix:
    """position of an entry in a list with symbolic segments"""
    def __init__(self, pos):
        self.pos = pos
    def __index__(self):
        return self.pos


class NumSym(sympy.Symbol):
    """an arbitrary number"""
    is_number = True


class IxAcc:
    """a list inside a loop over the indices of one of its segments: only the entry at the index may be used"""
    def __init__(self, ix, seg):
        self.ix, self.seg, self.new = ix, seg, None
        i = uid("term")
        k = VC.ex.choose(2, "is_number")
        self.mu = sympy.Symbol(uid("mu")) if k == 0 else NumSym(uid("mu"))
        ATOM_SUPPORT[("op", i)] = frozenset([("s", i)])
        self.b = Opaque(Poly.atom(("op", i, 0)), [("s", i)], DIGITAL, i)
    def __getitem__(self, k):
        if k is not self.ix or self.new is not None:
            raise Unsupported("access to another entry inside an index loop")
        return (self.b, self.mu)
    def __setitem__(self, k, v):
        if k is not self.ix:
            raise Unsupported("write to another entry inside an index loop")
        self.new = v
    def _no(self, *a, **k):
        raise Unsupported("use of a list inside a loop over its indices")
    __len__ = __iter__ = append = extend = __contains__ = _no
    def factor(self):
        """the factor by which the loop multiplies every term"""
        if self.new is None:
            return sympy.Integer(1)
        if not (isinstance(self.new, tuple) and len(self.new) == 2):
            raise Unsupported("entry of another shape")
        b, c = self.new
        if b is not self.b:
            raise Unsupported("the loop replaces the block of a term")
        f = sympy.simplify(sympy.sympify(c) / self.mu)
        if self.mu in f.free_symbols:
            raise Unsupported("the loop does not rescale the term")
        return f


def index_loop(seg, body, get, set_):
    """for i in range(k, len(l)): l[i] = f(l[i]) where l has symbolic segments: every term of the segment"""
    L, pos, s = seg.info["list"], seg.info["pos"], seg.info["seg"]
    before = get()
    names = [nm for nm, v in before.items() if v is L]
    ex = Explorer(parent=VC.ex)
    def thunk():
        ix = Ix(pos)
        acc = IxAcc(ix, s)
        set_({nm: (acc if nm in names else Poison()) for nm in before})
        body(ix)
        after = get()
        if any(after[nm] is not acc for nm in names):
            raise Unsupported("the list is rebound")
        return acc.factor()
    fs = []
    for st, v, pc in ex.run(thunk):
        if st == "exc":
            raise v
        fs.append(v)
    if any(sympy.simplify(f - fs[0]) != 0 for f in fs):
        raise Unsupported("different factors on different paths")
    T = seg_fold("add", s).scale(fs[0])
    d = uid("scaled")
    FOLD_RULE[(d, "add")] = T
    L[pos] = flat_segment(d, None, base=s.info.get("base"), ops=("add",))
    set_({nm: (L if nm in names else Poison()) for nm in before})


def range_list(a):
    """range(k, len(l)) over the entries of a list with symbolic segments"""
    start, n = a
    L = n.of
    k = len(start.els) if isinstance(start, SymLen) else start
    if not isinstance(k, int) or not isinstance(L, list) or len(L) != len(n.els):
        raise Unsupported("range with symbolic bounds")
    if not isinstance(start, SymLen) and any(type(e) is Seg for e in L[:k]):
        raise Unsupported("range from a position inside a segment")
    return [Seg(e.dom, _nogen, 1, {"list": L, "pos": j, "seg": e}, "index") if type(e) is Seg else Ix(j) for j, e in enumerate(L) if j >= k]


class SymLen:
    """length of a sequence with symbolic segments"""
    def __init__(self, els):
        self.els = list(els)
        self.of = els
    def _min(self):
        segs = [e for e in self.els if type(e) is Seg and e.dom not in poly.EMPTY]
        k = len([e for e in self.els if type(e) is not Seg])
        return k + sum(1 for s in segs if s.dom in NONEMPTY or s.info.get("base") in NONEMPTY or s.dom in poly.SPLIT), segs
    def _is0(self):
        m, segs = self._min()
        if m > 0:
            return False
        if not segs:
            return True
        if VC.ex.choose(2, "len==0") == 0:
            # non-empty: at least one segment has an element (recorded when there is only one)
            if len(segs) == 1:
                _mark(NONEMPTY, segs[0].dom)
            else:
                _group(segs)
            return False
        for s in segs:
            _mark(poly.EMPTY, s.dom)
        if any(g <= poly.EMPTY for g in NONEMPTY_GROUPS):
            raise PathDead("a sequence known to be non-empty")
        return True
    def __bool__(self):
        return not self._is0()
    def __eq__(self, o):
        if not isinstance(o, int):
            raise Unsupported("length comparison")
        if o == 0:
            return self._is0()
        m, segs = self._min()
        if o < m:
            return False
        if not segs:
            return m == o
        if VC.ex.choose(2, "len==") == 0:
            if m == 0 and len(segs) == 1:
                _mark(NONEMPTY, segs[0].dom)
            elif m == 0:
                _group(segs)
            return True
        return False
    def __ne__(self, o):
        return not self.__eq__(o)
    def __gt__(self, o):
        if o == 0:
            return not self._is0()
        m, segs = self._min()
        if m > o:
            return True
        if not segs:
            return m > o
        if VC.ex.choose(2, "len>") == 0:
            if m == 0 and len(segs) == 1:
                _mark(NONEMPTY, segs[0].dom)
            elif m == 0:
                _group(segs)
            return True
        return False
    def __ge__(self, o):
        return self.__gt__(o - 1)
    def __lt__(self, o):
        return not self.__ge__(o)
    def __le__(self, o):
        return not self.__gt__(o)
    def _no(self, *a):
        raise Unsupported("arithmetic on a symbolic length")
    __hash__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __index__ = __int__ = _no


NONEMPTY_GROUPS = []    # sets of segments not all empty on this path


def _group(segs):
    g = frozenset(s.dom for s in segs)
    NONEMPTY_GROUPS.append(g)
    if VC.ex is not None:
        VC.ex.undo.append(lambda: NONEMPTY_GROUPS.remove(g))


class BlockMerge:
    def is_empty(self, seg):
        return SymLen([seg])._is0()

    def index_loop(self, *a):
        return index_loop(*a)

    def length(self, x):
        return SymLen(x)

    def subscript(self, x, i):
        els = list(x)
        if isinstance(i, Ix):
            return els[i.pos]
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported("slice step")
            if i.start is None and i.stop is None:
                return type(x)(els) if type(x) in (tuple, list) else els
            if i.stop is None and isinstance(i.start, int) and i.start >= 0:
                for _ in range(i.start):
                    els = _uncons(els)
                    if els is None:
                        return type(x)([])
                    els = els[1:]
                return tuple(els) if isinstance(x, tuple) else els
            raise Unsupported("slice of a symbolic sequence")
        if isinstance(i, int) and i >= 0:
            for k in range(i + 1):
                doms = frozenset(s.dom for s in els if type(s) is Seg)
                els = _uncons(els)
                if els is None:
                    if k == 0 and any(g <= doms for g in NONEMPTY_GROUPS):
                        raise PathDead()
                    raise IndexError("index out of range")
                h, els = els[0], els[1:]
            return h
        if i == -1 and type(els[-1]) is not Seg:
            return els[-1]
        raise Unsupported("index into a symbolic sequence")

    def sum(self, els, start):
        if isinstance(start, (QubitSupport, SymSupport)):
            acc = support_atoms(start)
            symbolic = isinstance(start, SymSupport)
            for e in els:
                if type(e) is Seg:
                    if "supT" not in e.info:
                        raise Unsupported("sum of a symbolic segment")
                    acc |= e.info["supT"]
                    symbolic = True
                elif isinstance(e, SymSupport):
                    acc |= e.atoms
                    symbolic = True
            if not symbolic:
                return NotImplemented
            for e in els:
                if not (type(e) is Seg or isinstance(e, SymSupport)):
                    acc |= support_atoms(e)
            return SymSupport(acc)
        if any(type(e) is Seg for e in els):
            raise Unsupported("sum over a symbolic segment")
        return NotImplemented

    # -- results of mapping over a generic element
    def describe(self, seg, e, vs):
        """summary of the list `vs` produced for element e on this path"""
        d = {"n": len(vs)}
        if all(type(v) is bool for v in vs) and vs:
            return {"kind": "bool", "vals": set(vs)}
        if len(vs) == 1 and isinstance(vs[0], (SymSupport,)):
            return {"kind": "sup", "atoms": vs[0].atoms}
        if len(vs) == 1 and isinstance(vs[0], list):
            inner = self.describe(seg, e, vs[0])
            return {"kind": "list", "inner": inner}
        ok = all(isinstance(v, AbstractBlock) or type(v) is Seg or (isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], AbstractBlock)) for v in vs)
        if not ok:
            raise Unsupported(f"result of a symbolic iteration: {[type(v) for v in vs]}")
        d["kind"] = "blocks"
        P = getattr(e, "_matden", None) if getattr(e, "_mat", None) is not None else None
        T = {}
        for op in ("mul", "add"):
            try:
                T[op] = fold_list(op, vs)
            except Unsupported:
                T[op] = None
        d["T"], d["P"] = T, P
        try:
            s = frozenset()
            for v in vs:
                s |= seg_sup(v) if type(v) is Seg else sup(v[0] if isinstance(v, tuple) else v)
            msup = sup(e._mat) if P is not None else None
            d["sup"] = s
            if not isinstance(e, Opaque):
                # the run is over indices: only results that do not depend on the index are summarised
                if s and not any("idx!" in repr(a) for a in s):
                    d["const_sup"] = s
                raise Unsupported("support of an index element")
            d["same_sup"] = (s == e.sup) or (msup is not None and s == msup)
            if not d["same_sup"] and (s == relabel_sup(e.sup) or (msup is not None and s == relabel_sup(msup))):
                d["rel_sup"] = True
            # pairwise disjoint within this element?
            ss = [seg_sup(v) if type(v) is Seg else sup(v[0] if isinstance(v, tuple) else v) for v in vs]
            d["fam"] = all(type(v) is not Seg or is_family(v) for v in vs) and all(FACTS.disjoint(ss[i], ss[j]) for i in range(len(ss)) for j in range(i))
        except Unsupported:
            d["same_sup"] = False
        d["kinds"] = frozenset().union(*[v.kinds if isinstance(v, Opaque) else frozenset([type(v)]) if isinstance(v, AbstractBlock) else DIGITAL for v in vs]) if vs else frozenset()
        d["el"] = ("e", e.den) if isinstance(e, Opaque) else None
        d["eden"] = e.den if isinstance(e, Opaque) else None
        d["esup"] = e.sup if isinstance(e, Opaque) else None
        d["tup"] = any(isinstance(v, tuple) for v in vs)
        return d

    def combine(self, seg, outs):
        kinds = {o["kind"] for o in outs}
        if kinds == {"bool"}:
            vals = set().union(*[o["vals"] for o in outs])
            return Seg(seg.dom, _nogen, seg.dir, {"bools": vals}, "bool")
        if kinds == {"sup"}:
            # union over the segment of the element's support
            at = set()
            for o in outs:
                at |= lift(seg.dom, o["atoms"])
            return Seg(seg.dom, _nogen, seg.dir, {"supT": frozenset(at)}, "sup")
        if kinds == {"list"}:
            inner = self.combine(seg, [o["inner"] for o in outs])
            return Seg(seg.dom, _nogen, seg.dir, {"flat": inner}, "list")
        if kinds != {"blocks"}:
            raise Unsupported("mixed results of a symbolic iteration")
        if all(o["n"] == 0 for o in outs):
            return Seg(seg.dom, _nogen, seg.dir, {"empty": True}, "empty")
        Ts = {}
        for op in ("mul", "add"):
            Ts[op] = self._uniform(outs, op)
        if Ts["mul"] is None and Ts["add"] is None:
            raise Unsupported("element results are not a uniform function of the element's operator")
        for T in Ts.values():
            if T is not None:
                for c in T.t.values():
                    if any(s.name in LOCAL for s in c.free_symbols):
                        raise Unsupported("element-local symbol escapes")
        one = all(o["n"] == 1 for o in outs)
        same_sup = all(o["same_sup"] for o in outs)
        ks = frozenset().union(*[o["kinds"] for o in outs])
        ks = frozenset(k for k in ks if isinstance(k, type)) or DIGITAL
        esup = outs[0]["esup"] if same_sup else None
        if not same_sup and all(o.get("rel_sup") for o in outs):
            esup = relabel_sup(outs[0]["esup"])
        if len(outs) == 1 and outs[0].get("const_sup"):
            esup = outs[0]["const_sup"]
        if one:
            T1 = Ts["mul"] if Ts["mul"] is not None else Ts["add"]
            tup = any(o["tup"] for o in outs)
            def make():
                if tup:
                    raise Unsupported("tuple elements")
                return Opaque(T1, esup or [("s", uid("x"))], ks, f"mapped e_{seg.dom}")
            info = {"T": Ts, "one": True, "base": seg.info.get("base", seg.dom)}
            if esup is not None:
                info["esup"] = esup
                if "usup" in seg.info:
                    info["usup"] = seg.info["usup"] if same_sup else relabel_sup(seg.info["usup"])
                if "family" in seg.info:
                    info["family"] = seg.info["family"]
            return Seg(seg.dom, make, seg.dir, info)
        # several (or no) results per element: a new segment whose folds are known
        d = uid("flat")
        for op in ("mul", "add"):
            if Ts[op] is not None:
                if (seg.dom, op) in FOLD_RULE and list(Ts[op].t) == [(("e", seg.dom, 0),)] and Ts[op].t[(("e", seg.dom, 0),)] == 1:
                    FOLD_RULE[(d, op)] = FOLD_RULE[(seg.dom, op)]
                else:
                    FOLD_RULE[(d, op)] = fold_seg(op, seg.dom, seg.dir, Ts[op], ATOM_SUPPORT.get(("prod", seg.dom)))
        fam = same_sup and is_family(seg) and all(o.get("fam") for o in outs)
        return flat_segment(d, lift(seg.dom, esup) if esup is not None else None, ks, base=seg.info.get("base", seg.dom), family=fam)

    def _uniform(self, outs, op):
        cands = []
        for o in outs:
            if o["T"][op] is None:
                return None
            if o["P"] is None:
                cands.append(o["T"][op])
        e0 = outs[0]["eden"]
        if e0 is not None:
            cands += [e0, e0.adj()]
        seen = []
        for T in cands:
            if any(T.t == s.t for s in seen):
                continue
            seen.append(T)
            ok = True
            for o in outs:
                if o["P"] is None:
                    want = T
                else:
                    (w,) = list(o["eden"].t)
                    if len(w) != 1:
                        ok = False
                        break
                    want = T.subst(w[0][:2], o["P"])
                if not poly_equal(want, o["T"][op]):
                    ok = False
                    break
            if ok:
                return T
        return None

    # -- for loops
    def accumulator(self, nm, v):
        h = getattr(type(v), "__vc_acc__", None)
        return h(v, nm) if h is not None else _Acc(nm, v)

    def describe_loop(self, seg, e, handlers, after):
        out = {}
        for nm, h in handlers.items():
            if h.kind == "list":
                v = after[nm]
                if not isinstance(v, AccList):
                    raise Unsupported(f"accumulator {nm} rebound")
                out[nm] = self.describe(seg, e, v.raw())
            elif h.kind == "map":
                v = after[nm]
                if not isinstance(v, AccMap):
                    raise Unsupported(f"accumulator {nm} rebound")
                out[nm] = (e, v.check_reads(), v)
            elif h.kind == "support":
                v = after[nm]
                if not isinstance(v, SymSupport) or h.atom not in v.atoms:
                    raise Unsupported("support accumulator")
                out[nm] = v.atoms - {h.atom}
            elif h.kind == "block":
                v = after[nm]
                p = den(v)
                out[nm] = (p, e.den if isinstance(e, Opaque) else None)
            elif h.kind == "custom":
                out[nm] = h.describe(seg, e, after[nm])
        return out

    def combine_loop(self, seg, before, handlers, outs):
        final = {}
        for nm, h in handlers.items():
            if h.kind == "list":
                s = self.combine(seg, [o[nm] for o in outs])
                res = h.v
                if not s.info.get("empty"):
                    list.append(res, s)
                final[nm] = res
            elif h.kind == "map":
                wr = [w for o in outs for w in o[nm][1]]
                if any(w[0] == "bulk" for w in wr):
                    b = bag_fold(seg, [o[nm][1] for o in outs])
                    new = GMap(gmap(h.v).entries + [("bulk", b)])
                    if isinstance(h.v, PDict):
                        become(h.v, new)
                    elif isinstance(h.v, GMap):
                        h.v.entries = new.entries
                    else:
                        raise Unsupported("a dictionary from outside filled by a symbolic loop")
                    final[nm] = h.v
                    continue
                for o in outs:
                    for k in o[nm][2].reads:
                        for w in wr:
                            if not (isinstance(k, Gen) and isinstance(w[1], Gen) and same_key(k, w[1])):
                                raise Unsupported("reading a map that the loop is filling")
                fam = family(seg, [o[nm][:2] for o in outs])
                new = GMap(gmap(h.v).entries + fam)
                if not fam:
                    final[nm] = h.v
                elif isinstance(h.v, PDict):
                    become(h.v, new)
                    final[nm] = h.v
                elif isinstance(h.v, GMap):
                    h.v.entries = new.entries
                    final[nm] = h.v
                else:
                    raise Unsupported("a dictionary from outside filled by a symbolic loop")
            elif h.kind == "support":
                at = set(support_atoms(h.v))
                for o in outs:
                    at |= lift(seg.dom, o[nm])
                final[nm] = SymSupport(at)
            elif h.kind == "block":
                ps = [o[nm][0] for o in outs]
                if all(list(p.t) == [(("op", h.aid, 0),)] and p.t[(("op", h.aid, 0),)] == 1 for p in ps):
                    final[nm] = h.v              # the body leaves it alone
                elif all(h.aid not in repr(p) for p in ps):
                    final[nm] = Poison()         # a local of the body
                else:
                    raise Unsupported("block accumulator in a symbolic loop")
            elif h.kind == "custom":
                final[nm] = h.combine(seg, [o[nm] for o in outs])
            else:
                final[nm] = Poison()
        return final


def _nogen():
    raise Unsupported("element of a derived segment")


def flat_segment(d, usup, ks=DIGITAL, base=None, family=False, ops=("mul", "add")):
    """a segment of unknown elements whose union of supports is `usup` and whose folds are FOLD_RULE[(d, op)]"""
    s2 = frozenset([("es", d)])
    ATOM_SUPPORT[("e", d)] = s2
    if usup is not None:
        ATOM_SUPPORT[("prod", d)] = ATOM_SUPPORT[("sum", d)] = frozenset(usup)
    if family:
        FACTS.families.add(d)
    if base in NONEMPTY:
        NONEMPTY.add(d)
    def make():
        return Opaque(Poly.atom(("e", d, 0)), s2, ks, f"e_{d}")
    atom = Poly.atom(("e", d, 0))
    info = {"T": {op: atom for op in ops}, "base": base, "family": family, "esup": s2, "one": True}
    if usup is not None:
        info["usup"] = frozenset(usup)
        USUP[d] = frozenset(usup)
    return Seg(d, make, 1, info)


VC.merge = BlockMerge()



def _iter_hook(x):
    if isinstance(x, Opaque):
        m = x._materialise()
        return list(m.blocks) if isinstance(m, CompositeBlock) else [x]
    if isinstance(x, CompositeBlock):
        return list(x.blocks)     # CompositeBlock.__iter__ iterates self.blocks
    return None
VC.iter_hook = _iter_hook

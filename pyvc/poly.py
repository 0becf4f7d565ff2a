"""Operator algebra used by the block contracts: formal sums of words of operator atoms.

A `Poly` maps words (tuples of atoms, in *order of application*) to sympy coefficients.  Atoms are
hashable tuples:
   ("op", id, dag)              an arbitrary operator (opaque block), dag in {0,1}
   ("e", dom, dag)              the generic element of segment `dom`
   ("prod", dom, dir, key)      prod_i T(e_i) in application order i=0.. (dir=1), reversed (-1) or
                                order irrelevant (0: pairwise disjoint supports)
   ("sum", dom, key)            sum_i T(e_i) for a single word T
   ("map", tagkey, key)         any unary construction F_tag applied to a Poly (put, control, exp..)
Equality of two Polys is decided by normalisation; coefficients are compared by the solver.
"""
from __future__ import annotations
import sympy
from .runtime import Unsupported

EMPTY = set()    # segments assumed empty on this path
SPLIT = {}       # segment -> (Poly of its first element, tail segment)
INTERN = {}      # key -> Poly (for nested polys)


class Facts:
    """disjointness facts between support atoms (symmetric), and disjoint families"""
    def __init__(self):
        self.pairs = set()
        self.families = set()     # doms whose generic elements are pairwise disjoint
    def add(self, a, b):
        self.pairs.add((a, b)); self.pairs.add((b, a))
    def disjoint(self, A, B):
        return all(self._d(a, b) for a in A for b in B)
    def _d(self, a, b):
        if a == b:
            return False
        if a[0] == "R" and b[0] == "R":
            return self._d(a[1], b[1])       # relabelling is injective
        if a[0] == "q" and b[0] == "q":
            return a[1] != b[1]
        return (a, b) in self.pairs


FACTS = Facts()
ATOM_SUPPORT = {}    # atom identity (without dag) -> frozenset of support atoms


def reset():
    global FACTS
    EMPTY.clear(); SPLIT.clear()
    FACTS.pairs.clear(); FACTS.families.clear(); ATOM_SUPPORT.clear(); INTERN.clear()


def atom_support(a):
    if a[0] in ("op", "e"):
        return ATOM_SUPPORT.get(a[:2])
    if a[0] in ("prod", "sum"):
        base = ATOM_SUPPORT.get((a[0], a[1]))
        if "('R',)" in repr(a):
            T = INTERN.get(a[3] if a[0] == "prod" else a[2])
            if base is not None and T is not None and all(x[0] == "map" and x[1] == ("R",) for w in T.t for x in w):
                return frozenset(("R", x) for x in base)
            return None
        return base
    if a[0] == "map":
        return ATOM_SUPPORT.get(a[:2]) if a[1] != ("R",) else ATOM_SUPPORT.get(a)
    return None


def commute(a, b):
    A, B = atom_support(a), atom_support(b)
    return A is not None and B is not None and FACTS.disjoint(A, B)


def normword(w):
    w = list(w)
    out = []
    while w:
        best = None
        for i, a in enumerate(w):
            if all(commute(a, w[j]) for j in range(i)):
                if best is None or repr(a) < repr(w[best]):
                    best = i
        out.append(w.pop(best))
    return tuple(out)


class Poly:
    __slots__ = ("t",)
    def __init__(self, t=None):
        self.t = t or {}
    @staticmethod
    def one():
        return Poly({(): sympy.Integer(1)})
    @staticmethod
    def zero():
        return Poly({})
    @staticmethod
    def atom(a):
        return Poly({(a,): sympy.Integer(1)})
    def __add__(self, o):
        t = dict(self.t)
        for w, c in o.t.items():
            t[w] = t[w] + c if w in t else c
        return Poly(t)
    def scale(self, c):
        return Poly({w: sympy.sympify(c) * k for w, k in self.t.items()})
    def then(self, o):
        """self applied first, then o"""
        t = {}
        for w, c in self.t.items():
            for v, d in o.t.items():
                x = normword(w + v)
                t[x] = t[x] + c * d if x in t else c * d
        return Poly(t)
    def adj(self):
        t = {}
        for w, c in self.t.items():
            x = normword(tuple(adj_atom(a) for a in reversed(w)))
            c = sympy.conjugate(c)
            t[x] = t[x] + c if x in t else c
        return Poly(t)
    def clean(self):
        return Poly({w: c for w, c in ((w, sympy.expand(c)) for w, c in self.t.items()) if c != 0})
    def key(self):
        p = self.clean()
        k = tuple(sorted(((w, sympy.srepr(c)) for w, c in p.t.items()), key=repr))
        INTERN.setdefault(k, p)
        return k
    def subst(self, atomid, p):
        """replace the atom (kind,id,0) by p and (kind,id,1) by p.adj()"""
        out = Poly.zero()
        for w, c in self.t.items():
            acc = Poly({(): c})
            for a in w:
                if a[:2] == atomid:
                    acc = acc.then(p if a[2] == 0 else p.adj())
                elif a[0] == "map" and repr(atomid)[1:-1] in repr(a[2]):
                    inner = INTERN[a[2]].subst(atomid, p)
                    acc = acc.then(HOM[a[1]](inner) if a[1] in HOM else mapped(a[1], inner))
                else:
                    acc = acc.then(Poly.atom(a))
            out = out + acc
        return out
    def __repr__(self):
        return " + ".join(f"{c}*{'.'.join(map(str, w)) or '1'}" for w, c in self.t.items()) or "0"


def adj_atom(a):
    if a[0] in ("op", "e"):
        return (a[0], a[1], 1 - a[2])
    if a[0] == "prod":
        return ("prod", a[1], -a[2], INTERN[a[3]].adj().key())
    if a[0] == "sum":
        return ("sum", a[1], INTERN[a[2]].adj().key())
    if a[0] == "map":
        rule = MAP_ADJ.get(a[1][0])
        if rule is None:
            raise Unsupported(f"adjoint of construction {a[1]}")
        return rule(a)
    raise Unsupported(f"adjoint of {a}")


MAP_ADJ = {}
HOM = {}     # constructions that are algebra homomorphisms


def mapped(tagkey, p, support=None):
    """F_tag(p) as an atom"""
    a = ("map", tagkey, p.key())
    if support is not None:
        ATOM_SUPPORT[a[:2]] = frozenset(support)
    return Poly.atom(a)


def fold_seg(op, dom, dir, T, support=None):
    """fold of T(e_i) over segment dom: op in {"mul","add"}"""
    T = T.clean()
    if dom in EMPTY:
        return Poly.one() if op == "mul" else Poly.zero()
    if dom in SPLIT:
        head, tail = SPLIT[dom]
        h = T.subst(("e", dom), head)
        t = fold_seg(op, tail, dir, T.subst(("e", dom), Poly.atom(("e", tail, 0))))
        if op == "add":
            return h + t
        return h.then(t) if dir >= 0 else t.then(h)
    if op == "mul":
        if set(T.t) <= {()}:
            c = T.t.get((), sympy.Integer(0))
            if c == 1:
                return Poly.one()
        if dom in FACTS.families:
            dir = 0
        a = ("prod", dom, dir, T.key())
        if support is not None:
            ATOM_SUPPORT[a[:2]] = frozenset(support)
        return Poly.atom(a)
    out = Poly.zero()
    for w, c in T.t.items():
        a = ("sum", dom, Poly({w: sympy.Integer(1)}).key())
        if support is not None:
            ATOM_SUPPORT[a[:2]] = frozenset(support)
        out = out + Poly.atom(a).scale(c)
    return out


def renorm(p):
    """rewrite folds over segments that the current path has split or found empty"""
    out = Poly.zero()
    for w, c in p.t.items():
        acc = Poly({(): c})
        for a in w:
            if a[0] == "prod" and (a[1] in EMPTY or a[1] in SPLIT):
                acc = acc.then(fold_seg("mul", a[1], a[2], INTERN[a[3]]))
            elif a[0] == "sum" and (a[1] in EMPTY or a[1] in SPLIT):
                acc = acc.then(fold_seg("add", a[1], 1, INTERN[a[2]]))
            else:
                acc = acc.then(Poly.atom(a))
        out = out + acc
    return out

"""Sequences of qubit indices of unknown length: a tuple holding one `Seg` tagged "int" whose members are
described by a predicate; sets built from them are predicates, and questions about them fork the path."""
from __future__ import annotations
import itertools
import z3
from .runtime import GenList, VC, Seg, Unsupported, PathDead
from .scalars import SNum, SBool, fresh_int, assume, decide, lift, feasible, range_dom

_k = itertools.count()


_I0 = z3.Int("member")
_SEGS = {}
_EQS = {}


def canon(pred):
    """the predicate as a simplified formula over one fixed variable: equal formulas, same collection"""
    return z3.simplify(pred(_I0))


def int_seg(pred, label="set"):
    """the members of a non-empty finite collection of integers, given by its membership predicate"""
    body = canon(pred)
    s = _SEGS.get(body.get_id())
    if s is not None:
        return s
    p = lambda z: z3.substitute(body, (_I0, z))
    def make():
        i = fresh_int("el")
        assume(p(i.z))
        return i
    s = _SEGS[body.get_id()] = Seg(f"{label}!{next(_k)}", make, 1, {"pred": p, "const": {}, "body": body}, "int")
    return s


def fresh_set(label="A", lo=0):
    """an arbitrary non-empty finite set of integers >= lo (lo=None: any)"""
    w, top = fresh_int("w"), fresh_int("top")
    f = z3.Function(f"{label}|{w.z}", z3.IntSort(), z3.BoolSort())
    i = z3.Int("i")
    assume(f(w.z))
    if lo is not None:
        assume(z3.ForAll([i], z3.Implies(f(i), z3.And(i >= lo, i <= top.z)), patterns=[f(i)]))
    return int_seg(lambda z: f(z), label)


def pred_of(x):
    """membership predicate of a tuple/list/set of (symbolic) integers"""
    if isinstance(x, SSet):
        return x.pred
    ps = []
    for e in (tuple.__iter__(x) if isinstance(x, tuple) else x):
        if type(e) is Seg:
            if "index" in e.info:
                n = e.info["index"]
                ps.append(lambda z, n=n: z3.And(z >= 0, z < n.z))
            elif "pred" in e.info:
                ps.append(e.info["pred"])
            else:
                raise Unsupported("not a collection of integers")
        else:
            ps.append(lambda z, e=e: z == lift(e))
    return lambda z: z3.Or(*[p(z) for p in ps]) if ps else z3.BoolVal(False)


def symbolic(els):
    return any((type(e) is Seg and (e.tag == "int" or "index" in e.info)) for e in els)


def is_empty(pred):
    i = z3.Int("i")
    return z3.ForAll([i], z3.Not(pred(i)))


class SSet:
    """set of integers given by its membership predicate"""
    def __init__(self, pred):
        self.pred = pred
    def __vc_isinstance__(self, T):
        ts = T if isinstance(T, tuple) else (T,)
        return any(t in (set, frozenset, object) for t in ts)
    def _o(self, o):
        return pred_of(o)
    def union(self, *os):
        ps = [self.pred] + [self._o(o) for o in os]
        return SSet(lambda z: z3.Or(*[p(z) for p in ps]))
    def __or__(self, o):
        return self.union(o)
    __ror__ = __or__
    def intersection(self, *os):
        ps = [self.pred] + [self._o(o) for o in os]
        return SSet(lambda z: z3.And(*[p(z) for p in ps]))
    def __and__(self, o):
        return self.intersection(o)
    __rand__ = __and__
    def difference(self, o):
        q = self._o(o)
        return SSet(lambda z: z3.And(self.pred(z), z3.Not(q(z))))
    __sub__ = difference
    def _forall(self, f):
        """fork on a universally quantified statement"""
        i = z3.Int("i")
        w = fresh_int("wit")
        yes, no = z3.ForAll([i], f(i)), z3.Not(f(w.z))
        t, n = feasible(yes), feasible(no)
        if not t and not n:
            raise PathDead("infeasible")
        v = (VC.ex.choose(2, "forall") == 0) if t and n else t
        VC.ex.pc.append(yes if v else no)
        return v
    def isdisjoint(self, o):
        q = self._o(o)
        return self._forall(lambda z: z3.Not(z3.And(self.pred(z), q(z))))
    def issubset(self, o):
        q = self._o(o)
        return self._forall(lambda z: z3.Implies(self.pred(z), q(z)))
    __le__ = issubset
    def issuperset(self, o):
        return SSet(self._o(o)).issubset(self)
    __ge__ = issuperset
    def __eq__(self, o):
        q = self._o(o)
        return self._forall(lambda z: self.pred(z) == q(z))
    def __ne__(self, o):
        return not self == o
    __hash__ = None
    def __contains__(self, x):
        return decide(self.pred(lift(x)))
    def __bool__(self):
        return not self._forall(lambda z: z3.Not(self.pred(z)))
    def __iter__(self):
        if not bool(self):
            return iter(())
        return iter([int_seg(self.pred, "members")])


class PSet(set):
    """an ordinary set that also understands symbolic ones"""
    def _w(name):
        plain = getattr(set, name)
        def f(self, *o):
            if any(isinstance(x, SSet) or (isinstance(x, (tuple, list)) and symbolic(x)) for x in o):
                return getattr(SSet(pred_of(list(set.__iter__(self)))), name)(*o)
            r = plain(self, *o)
            return PSet(r) if isinstance(r, set) else r
        return f
    for _n in ("isdisjoint", "union", "intersection", "difference", "issubset", "issuperset", "__or__", "__and__", "__sub__", "__le__", "__ge__"):
        locals()[_n] = _w(_n)


def mkset(els):
    els = list(els)
    if VC.active and symbolic(els):
        return SSet(pred_of(els))
    return PSet(els) if VC.active else set(els)


_old_set, _old_fro, _old_sorted, _old_max, _old_min = (VC.shims[id(x)] for x in (set, frozenset, sorted, max, min))


def _sh_set(*a):
    if a:
        if isinstance(a[0], SSet):
            return a[0]
        els = VC.elements(a[0])
        if els and all(type(e) is Seg and e.tag == "gen" for e in els) and len({e.dom for e in els}) == len(els):
            return GenList(els)      # the elements of each set are pairwise different, and so are the sets
        if symbolic(els):
            return SSet(pred_of(els))
        return PSet(els)
    return PSet()


def _sh_sorted(x, **k):
    if isinstance(x, SSet) or (isinstance(x, (tuple, list)) and symbolic(list(tuple.__iter__(x)) if isinstance(x, tuple) else x)):
        if k.get("key") is not None:
            raise Unsupported("sorted with a key")
        return list(x) if isinstance(x, SSet) else [int_seg(pred_of(x), "sorted")]
    return _old_sorted(x, **k)


def _ext(sign, old):
    def g(*a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            els = None
            if isinstance(x, SSet):
                p, els = x.pred, True
            elif isinstance(x, (tuple, list)):
                els = list(tuple.__iter__(x)) if isinstance(x, tuple) else x
                p = pred_of(els) if symbolic(els) else None
            if els and p is not None:
                m = fresh_int("max" if sign > 0 else "min")
                i = z3.Int("i")
                assume(p(m.z))
                assume(z3.ForAll([i], z3.Implies(p(i), i <= m.z if sign > 0 else i >= m.z)))
                return m
        return old(*a, **k)
    return g


VC.shim(set, _sh_set)
VC.shim(frozenset, _sh_set)
VC.shim(sorted, _sh_sorted)
VC.shim(max, _ext(1, _old_max))
VC.shim(min, _ext(-1, _old_min))
VC.mkset = mkset


class ILen:
    """length of a non-empty collection of integers of unknown size"""
    def __init__(self, els):
        self.els = els
        self.k = len([e for e in els if type(e) is not Seg])
        self.segs = [e for e in els if type(e) is Seg]
        self.min = self.k + len(self.segs)
    def _single(self, n):
        """is the length exactly n?  n < min: no; n == min == 1: the collection is a singleton"""
        if n < self.min:
            return False
        if n == 1 and self.min == 1:
            s = self.segs[0]
            c = s.info.setdefault("const", {})
            if "one" in c:
                return c["one"] is not None
            p = s.info["pred"] if "pred" in s.info else pred_of([s])
            i = z3.Int("i")
            x = fresh_int("only")
            f = z3.ForAll([i], p(i) == (i == x.z))
            if feasible(f) and VC.ex.choose(2, "singleton") == 0:
                VC.ex.pc.append(f)
                c["one"] = x
            else:
                c["one"] = None
            VC.ex.undo.append(lambda: c.pop("one", None))
            return c["one"] is not None
        return VC.ex.choose(2, "length") == 0
    def __eq__(self, n):
        return self._single(n) if isinstance(n, int) else NotImplemented
    def __ne__(self, n):
        return not self == n
    def __gt__(self, n):
        if n < self.min:
            return True
        if n == 1:
            return not self._single(1)
        raise Unsupported("length of an integer collection")
    def __ge__(self, n):
        return self > n - 1
    def __lt__(self, n):
        return not self >= n
    def __le__(self, n):
        return not self > n
    def __bool__(self):
        return True
    __hash__ = None


def seg_eq(a, b):
    """comparison of whole tuples of which these are the only elements"""
    if type(a) is Seg and type(b) is Seg and a.tag == b.tag == "int":
        pa, pb = a.info["pred"], b.info["pred"]
        i = z3.Int("i")
        k = (a.info["body"].get_id(), b.info["body"].get_id())
        if k[0] == k[1]:
            return True
        if k not in _EQS:
            same = z3.ForAll([i], pa(i) == pb(i))
            v = feasible(same) and VC.ex.choose(2, "same tuple") == 0
            if v:
                VC.ex.pc.append(same)
            _EQS[k] = v
            VC.ex.undo.append(lambda: _EQS.pop(k, None))
        return _EQS[k]     # False: different order or members
    if isinstance(b, str):
        return False
    if isinstance(b, (int, SNum)) and a.tag == "int":
        one = ILen([a])._single(1)
        return bool(decide(a.info["const"]["one"].z == lift(b))) if one else False
    raise Unsupported("comparison of a symbolic segment")


class IntMerge:
    def __init__(self, base):
        self.base = base
    def __getattr__(self, n):
        return getattr(self.base, n)
    def length(self, x):
        els = list(tuple.__iter__(x)) if isinstance(x, tuple) else list(x)
        if symbolic(els):
            return ILen(els)
        return self.base.length(x)
    def subscript(self, x, i):
        els = list(tuple.__iter__(x)) if isinstance(x, tuple) else list(x)
        if symbolic(els):
            if isinstance(i, int) and i in (0, -1) and len(els) == 1 and type(els[0]) is Seg:
                one = els[0].info.get("const", {}).get("one")
                if one is not None:
                    return one
                e = els[0].elem()
                return e
            raise Unsupported("index into a symbolic index tuple")
        return self.base.subscript(x, i)
    def describe(self, seg, e, vs):
        if seg.tag == "int" or ("index" in seg.info and len(vs) == 1 and isinstance(vs[0], SBool)):
            if len(vs) == 1 and isinstance(vs[0], (SBool, bool)):
                return {"kind": "bool", "vals": {bool(vs[0])}}
            if len(vs) == 1 and isinstance(vs[0], (SNum, int)):
                return {"kind": "int", "e": e.z, "v": lift(vs[0]), "same": isinstance(vs[0], SNum) and vs[0].z.eq(e.z)}
            if not vs or all(isinstance(v, (SNum, int)) for v in vs):
                raise Unsupported("filtered integer sequence")
        return self.base.describe(seg, e, vs)
    def combine(self, seg, outs):
        if all(o["kind"] == "int" for o in outs) and seg.tag == "int":
            if all(o["same"] for o in outs):
                return seg
            if len(outs) == 1:
                e, v, p = outs[0]["e"], outs[0]["v"], seg.info["pred"]
                j = z3.Int("j")
                return int_seg(lambda z: z3.Exists([j], z3.And(p(j), z3.substitute(v, (e, j)) == z)), "image")
            raise Unsupported("image of an index tuple under a branching function")
        return self.base.combine(seg, outs)


VC.merge = IntMerge(VC.merge)


_old_dict = VC.shims[id(dict)]
def _sh_dict(*a, **k):
    if not a and not k:
        return VC.mkdict()
    return _old_dict(*a, **k)
VC.shim(dict, _sh_dict)

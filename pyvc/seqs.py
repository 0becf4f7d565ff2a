"""Lists of unknown length whose elements are arbitrary records.  A list is a sequence of items; an item is a
concrete value or a Piece: the run over the generic index i of a base, giving the value of the first case whose
condition on i holds (no case: the element is dropped).  Loops and comprehensions run once on the generic element,
on all paths; a raise for some element forks into "some element raises" (witness) and "no element raises" (fact)."""
from __future__ import annotations
import itertools
import z3
from .runtime import VC, Seg, Unsupported, PathDead, Explorer
from . import runtime as R
from .scalars import SNum, SBool, decide, assume, feasible, lift, _n, valid_here
from . import solve


from . import maps
from .maps import PDict


class Base:
    """an arbitrary list: length n >= 0, generic index i, element maker elem(index)"""
    def __init__(self, name, elem, idx=None, classes=(), rng=None):
        self.name, self.elem = name, elem
        self.n = z3.Int(f"len[{name}]")
        self.idx = idx if idx is not None else z3.Int(f"i[{name}]")
        self.facts = []                 # z3 formulas over idx that hold for all elements
        self.classes = list(classes)    # [(label, condition on idx)]: a partition of the elements, counted separately
        self.counts = {l: z3.Int(f"count[{name},{l}]") for l, _ in self.classes}
        self.busy = False
        self.flat_of = None
        assume(self.n >= 0)
        for c in self.counts.values():
            assume(c >= 0)
        if self.counts:
            assume(z3.Sum(list(self.counts.values())) == self.n)
            # an element of a class exists iff its count is positive; here for the first and last element
            for j in (z3.IntVal(0), self.n - 1):
                self.link(j)
    def link(self, j):
        for l, c in self.classes:
            assume(z3.Implies(z3.And(self.n > 0, self.at(c, j)), self.counts[l] > 0))
    def at(self, f, j):
        return z3.substitute(f, (self.idx, j))
    def add_fact(self, f):
        self.facts.append(f)
        VC.ex.undo.append(lambda: self.facts.remove(f))
        # the last element and emptiness of the classes
        assume(z3.Implies(self.n > 0, self.at(f, self.n - 1)))
        for l, c in self.classes:
            if not _sat(self.dom() + [c, f]):
                assume(self.counts[l] == 0)
    def dom(self):
        return [self.idx >= 0, self.idx < self.n] + self.facts
    def __repr__(self):
        return self.name


def _sat(fs):
    s = z3.Solver(); s.set("timeout", 5000)
    for f in list(VC.ex.pc) + list(fs):
        s.add(f)
    solve.STATS["queries"] += 1
    r = s.check()
    solve.STATS[str(r)] += 1
    return r != z3.unsat


class Piece:
    def __init__(self, base, cases, owner=None, raw=None):
        self.base, self.cases = base, cases
        self.raw = raw               # element maker when the piece is the base list itself
    def __repr__(self):
        return f"<run over {self.base}: {[(str(c), v) for c, v in self.cases]}>"


def raw_piece(base):
    return Piece(base, [(z3.BoolVal(True), base.elem(base.idx))], raw=base.elem)


class Flat:
    """several consecutive results of one element (a flattened inner list)"""
    def __init__(self, items):
        self.items = list(items)
    def __vc_same__(self, o):
        return isinstance(o, Flat) and list_eq(SList(self.items), SList(o.items)) is True
    def __repr__(self):
        return f"Flat{self.items}"


class SList:
    __vc_generic__ = False
    acc = None           # inside a loop: (name, base, the value of the generic element); contents are then unknown
    seen = False
    def _known(self):
        if self.acc is not None:
            raise Unsupported("reading a list that the loop is filling")
    def __init__(self, items=()):
        self.items = list(items)
    def __vc_isinstance__(self, T):
        ts = T if isinstance(T, tuple) else (T,)
        return any(t in (list, object) or t in getattr(self, "kinds", ()) or t in R._GENTYPES[2:3] for t in ts)
    def __vc_type__(self):
        return list
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{n} of a symbolic list")
    def __repr__(self):
        return f"SList{self.items}"
    # construction / mutation
    def __getitem__(self, k):
        self._known()
        if isinstance(k, slice):
            if k == slice(None, None, None):
                return SList(self.items)
            raise Unsupported("slice of a symbolic list")
        if k == -1:
            its = list(self.items)
            while its:
                it = its.pop()
                if not isinstance(it, Piece):
                    return it
                if it.raw is None:
                    j = self._some(it)
                    if j is None:
                        continue
                    return j
                if decide(it.base.n > 0):
                    return it.raw(it.base.n - 1)
            raise IndexError("list index out of range")
        if k == 0:
            for it in self.items:
                if not isinstance(it, Piece):
                    return it
                if it.raw is None:
                    j = self._some(it)
                    if j is None:
                        continue
                    return j
                if decide(it.base.n > 0):
                    return it.raw(z3.IntVal(0))
            raise IndexError("list index out of range")
        if isinstance(k, SNum):
            if len(self.items) == 1 and isinstance(self.items[0], Piece) and self.items[0].raw and z3.eq(k.z, self.items[0].base.idx):
                return self.items[0].raw(k.z)
        raise Unsupported("index into a symbolic list")
    def _some(self, piece):
        """the first / last element of a filtered run: some element that passes the filter; None if there is none"""
        b = piece.base
        if len(piece.cases) != 1 or not val_eq(piece.cases[0][1], b.elem(b.idx)):
            raise Unsupported("end of a mapped list")
        if not decide(self._cnt(piece, lambda v: True) > 0):
            return None
        j = z3.Int(f"end!{next(_n)}")
        assume(z3.And(j >= 0, j < b.n, b.at(piece.cases[0][0], j), *[b.at(f, j) for f in b.facts]))
        b.link(j)
        return b.elem(j)
    def copy(self):
        self._known()
        return SList(self.items)
    __copy__ = copy
    def __deepcopy__(self, memo):
        self._known()
        return SList(self.items)
    def __vc_str_join__(self, sep, a, k):
        self._known()
        return Joined(sep, self)
    def append(self, x):
        self.items.append(x)
    def extend(self, o):
        self.items.extend(items_of(o))
    def __iadd__(self, o):
        self.items.extend(items_of(o))
        return self
    def __add__(self, o):
        r = SList(self.items + items_of(o))
        r.acc, r.seen = self.acc, self.seen
        return r
    def __radd__(self, o):
        self._known()
        return SList(items_of(o) + self.items)
    # reading
    def __vc_len__(self):
        self._known()
        tot = z3.IntVal(0)
        only = None
        for it in self.items:
            if isinstance(it, Piece):
                if any(isinstance(v, Flat) for _, v in it.cases):
                    raise Unsupported("length of a flattened list")
                tot = tot + (it.base.n if it.raw is not None or _total(it) else self._cnt(it, lambda v: True))
                only = it.base
            else:
                tot = tot + 1
        r = SLen(z3.simplify(tot))
        r.of = [it for it in self.items]
        return r
    def __len__(self):
        raise Unsupported("length of a symbolic list")
    def __bool__(self):
        return decide(self.__vc_len__().z > 0)
    def _cnt(self, piece, pred):
        """number of elements of the run whose value satisfies pred (uniform on every class of elements)"""
        b = piece.base
        if any(isinstance(v, Flat) for _, v in piece.cases):
            raise Unsupported("counting in a flattened list")
        if not b.classes:
            raise Unsupported("counting in an unclassified list")
        tot = z3.IntVal(0)
        hit = z3.Or([c for c, v in piece.cases if pred(v)] or [z3.BoolVal(False)])
        for l, c in b.classes:
            if not _sat(b.dom() + [c, hit]):
                continue
            if _sat(b.dom() + [c, z3.Not(hit)]):
                raise Unsupported("a count that depends on more than the class of the elements")
            tot = tot + b.counts[l]
        return tot
    def number_of(self, pred):
        self._known()
        tot = z3.IntVal(0)
        for it in self.items:
            if isinstance(it, Piece):
                tot = tot + self._cnt(it, pred)
            elif pred(it):
                tot = tot + 1
        return z3.simplify(tot)
    def count(self, x):
        return SNum(self.number_of(lambda v: _same(v, x)))
    def __contains__(self, x):
        if self.acc is not None:
            # membership of the element itself in the list being built: one unknown per element ("already there")
            nm, base, v = self.acc
            if self.items or not val_eq(x, v):
                raise Unsupported("membership in a list that the loop is filling")
            self.seen = True
            return decide(seen_var(base, nm))
        return decide(self.number_of(lambda v: _same(v, x)) > 0)
    def __vc_any__(self):
        return decide(self.number_of(lambda v: _truth(v)) > 0)
    def __vc_all__(self):
        return decide(self.number_of(lambda v: not _truth(v)) == 0)
    def __vc_sum__(self):
        return SNum(self.number_of(lambda v: _truth(v)))
    def __vc_set__(self):
        return SSet(self)
    def __eq__(self, o):
        self._known()
        if isinstance(o, (list, SList)):
            r = list_eq(self, o)
            if r is None:
                raise Unsupported("comparison of symbolic lists")
            return r
        return False
    __hash__ = None
    def __vc_elems__(self):
        self._known()
        return [Seg(it.base, _noelem, 1, {"piece": it}, "slist") if isinstance(it, Piece) else it for it in self.items]
    def __vc_star__(self):
        return self.__vc_elems__()
    def __iter__(self):
        raise Unsupported("iterating a symbolic list outside the instrumented code")
    def __vc_concat__(self):
        """concatenation of a list of lists, each with one element"""
        out = []
        for it in self.items:
            if not isinstance(it, Piece):
                out += list(items_of(it))
                continue
            cases = []
            for c, v in it.cases:
                vs = items_of(v)
                if len(vs) != 1 or isinstance(vs[0], Piece):
                    raise Unsupported("flattening lists of several elements")
                cases.append((c, vs[0]))
            out.append(Piece(it.base, cases))
        return SList(out)
    def __vc_reversed__(self):
        self._known()
        out = []
        for it in reversed(self.items):
            if not isinstance(it, Piece):
                out.append(it)
                continue
            if it.raw is None:
                raise Unsupported("reversing a filtered list")
            b, r = it.base, it.raw
            nb = Base(f"reversed {b.name}", lambda j, b=b, r=r: r(z3.simplify(b.n - 1 - j)))
            assume(nb.n == b.n)
            for f in b.facts:
                nb.add_fact(z3.substitute(f, (b.idx, b.n - 1 - nb.idx)))
            out.append(raw_piece(nb))
        return SList(out)
    def __vc_comp__(self, kind, lam):
        self._known()
        out = []
        entries = (lambda r: list(dict.items(r))) if kind == "dict" else list
        for it in self.items:
            if not isinstance(it, Piece):
                out.extend(entries(lam((it,))))
                continue
            cases = []
            for st, v, cond in generic(it, lambda x: entries(lam((x,)))):
                if st == "exc":
                    raise_some(it.base, [(cond, v)], [c for s2, _, c in []])
                if len(v) > 1:
                    raise Unsupported("several results per element")
                if v:
                    cases.append((cond, v[0]))
            out.append(Piece(it.base, cases))
        r = SList(out)
        if kind == "dict":
            return SMap(r)
        return r if kind in ("list", "gen") else SSet(r)


def inst(v, i, j):
    """the value v, stated for index i, at index j"""
    h = getattr(v, "__vc_inst__", None)
    if h is not None:
        return h(i, j)
    if isinstance(v, SNum):
        return type(v)(z3.substitute(v.z, (i, j)))
    if type(v) is tuple:
        return tuple(inst(x, i, j) for x in v)
    if isinstance(v, (int, float, str, bool, type(None))):
        return v
    raise Unsupported(f"instance of a {type(v).__name__}")


class SMap:
    """a dictionary filled by a loop or comprehension over an arbitrary list: its (key, value) pairs in order.
    Keys of one run are different for different indices (checked: the key is the element's own key)."""
    def __init__(self, pairs):
        self.pairs = pairs
        if len(pairs.items) > 1:
            raise Unsupported("a dictionary filled from several lists")
        for p in pairs.items:
            if isinstance(p, Piece):
                for _, kv in p.cases:
                    if not distinct_keys(kv[0], p.base):
                        raise Unsupported("keys that may coincide")
    def items(self):
        return self.pairs.copy()
    def _proj(self, i):
        return SList([Piece(p.base, [(c, kv[i]) for c, kv in p.cases]) if isinstance(p, Piece) else p[i] for p in self.pairs.items])
    def keys(self):
        return self._proj(0)
    def values(self):
        return self._proj(1)
    def __vc_elems__(self):
        return self.keys().__vc_elems__()
    def __vc_len__(self):
        try:
            return self.pairs.__vc_len__()
        except Unsupported:
            pass
        n = z3.IntVal(0)
        for p in self.pairs.items:
            if isinstance(p, Piece):
                c = z3.simplify(z3.Or([c for c, _ in p.cases]))
                k = z3.Int(f"len[{p.base.name} where {c.sexpr()}]")
                w = z3.Int(f"some[{p.base.name} where {c.sexpr()}]")
                assume(z3.And(k >= 0, k <= p.base.n, z3.Implies(k == 0, z3.Not(z3.And(*p.base.dom(), c))), z3.Implies(k > 0, z3.And(w >= 0, w < p.base.n, p.base.at(c, w)))))
                n = n + k
            else:
                n = n + 1
        return SNum(z3.simplify(n))
    def __vc_comp__(self, kind, lam):
        return self.keys().__vc_comp__(kind, lam)
    def copy(self):
        return SMap(self.pairs.copy())
    def __getitem__(self, k):
        found = None
        for p in self.pairs.items:
            if not isinstance(p, Piece):
                raise Unsupported("lookup in a mixed map")
            for c, (kk, v) in p.cases:
                j = key_index(kk, k, p.base)
                if j is None:
                    raise Unsupported("lookup of a key of another kind")
                if not solve.valid(z3.Implies(z3.And(j >= 0, j < p.base.n), p.base.at(c, j)), list(VC.ex.pc))[0]:
                    if len(p.cases) > 1 and decide(p.base.at(c, j)):
                        return inst(v, p.base.idx, j)
                    continue
                found = inst(v, p.base.idx, j)
                return found
        raise Unsupported("lookup that may fail")
    def get(self, k, d=None):
        return self[k]
    def _no(self, *a, **k):
        raise Unsupported("operation on a symbolic map")
    __contains__ = __setitem__ = update = __or__ = __ior__ = pop = setdefault = __eq__ = __iter__ = __bool__ = _no
    __hash__ = None
    def __vc_same__(self, o):
        return isinstance(o, SMap) and list_eq(self.pairs, o.pairs) is True


def distinct_keys(k, base):
    """keys stated for the generic index that differ for different indices"""
    h = getattr(k, "__vc_key__", None)
    if h is not None:
        return h(base)
    if isinstance(k, SNum):
        return z3.eq(z3.simplify(k.z), base.idx)
    if type(k) is tuple:
        return any(distinct_keys(x, base) for x in k)
    return False


def key_index(kk, k, base):
    """the index whose key is k, when the keys are the indices themselves"""
    h = getattr(kk, "__vc_index_of__", None)
    if h is not None:
        return h(k, base)
    if isinstance(kk, SNum) and z3.eq(z3.simplify(kk.z), base.idx):
        return zl(k) if isinstance(k, (SNum, int)) else None
    return None


def zl(x):
    return x.z if isinstance(x, SNum) else z3.IntVal(x)


def seen_var(base, nm):
    return z3.Bool(f"already in {nm}[{base.name}]")


class SLen(SNum):
    def __rmul__(self, o):
        if isinstance(o, list) and len(o) == 1:
            return SList([Piece(it.base, [(c, o[0]) for c, _ in it.cases], raw=(lambda j: o[0]) if it.raw else None) if isinstance(it, Piece) else o[0] for it in self.of])
        return SNum.__rmul__(self, o)
    __slots__ = ("of",)
    __hash__ = SNum.__hash__


class Joined:
    """sep.join(list)"""
    def __init__(self, sep, l):
        self.sep, self.l = sep, l
    def __vc_same__(self, o):
        return isinstance(o, Joined) and o.sep == self.sep and list_eq(self.l, o.l) is True
    def __eq__(self, o):
        raise Unsupported("comparison of joined strings")
    def __hash__(self):
        return id(self)


def _noelem():
    raise Unsupported("fresh element")


class SSet:
    def __init__(self, l):
        self.l = l
    def __contains__(self, x):
        return x in self.l
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{n} of a symbolic set")
    def _no(self, *a):
        raise Unsupported("operation on a symbolic set")
    __or__ = __ror__ = __sub__ = __xor__ = __eq__ = __le__ = __lt__ = __gt__ = _no
    __hash__ = None
    def __iter__(self):
        raise Unsupported("iterating a symbolic set")
    def __len__(self):
        raise Unsupported("size of a symbolic set")
    def isdisjoint(self, o):
        return not any(x in self.l for x in o)
    def __and__(self, o):
        return {x for x in o if x in self.l}
    __rand__ = __and__
    def issuperset(self, o):
        return all(x in self.l for x in o)
    __ge__ = issuperset
    def __rsub__(self, o):
        return {x for x in o if x not in self.l}


def _total(p):
    return not _sat(p.base.dom() + [z3.Not(z3.Or([c for c, _ in p.cases] or [z3.BoolVal(False)]))])


def _truth(v):
    if isinstance(v, (bool, int, str, type(None), type)):
        return bool(v)
    raise Unsupported("truth of a symbolic element")


def _same(v, x):
    if isinstance(v, (bool, type, int, str, type(None))) and isinstance(x, (bool, type, int, str, type(None))):
        return v is x or v == x
    raise Unsupported("comparison with a symbolic element")


def items_of(o):
    if isinstance(o, SList):
        if o.acc is not None:
            o._known()
        return list(o.items)
    r = VC.elements(o)
    if any(type(x) is Seg for x in r):
        raise Unsupported("mixing kinds of symbolic lists")
    return r


INSIDE = []      # the runs whose generic element is being executed, outermost first


def generic(piece, fn):
    """run fn on the generic element of the run, on all paths: [(status, value, condition on the index)]"""
    b = piece.base
    if b.busy:
        raise Unsupported("nested iteration over one symbolic list")
    b.busy = True
    INSIDE.append(b)
    try:
        ex = Explorer(parent=VC.ex)
        n0 = len(ex.pc)
        ex.pc0 = ex.pc0 + b.dom()
        n1 = len(ex.pc0)
        def thunk():
            k = ex.choose(len(piece.cases) + 1, "case")
            for c, _ in piece.cases[:k]:
                assume(z3.Not(c))
            if k == len(piece.cases):
                assume(z3.BoolVal(True))
                return None
            assume(piece.cases[k][0])
            if isinstance(piece.cases[k][1], Flat):
                raise Unsupported("iterating a flattened list")
            return (fn(piece.cases[k][1]),)
        outs = []
        for st, v, pc in ex.run(thunk):
            if st == "ok" and v is None:
                continue
            outs.append((st, v[0] if st == "ok" else v, z3.simplify(z3.And(pc[n1:] or [z3.BoolVal(True)]))))
        return outs
    finally:
        b.busy = False
        INSIDE.pop()


def raise_some(base, excs, _):
    raise Unsupported("a comprehension that may raise")


def loop(seg, body, get, set_, merge):
    """a for loop over an arbitrary list whose body may raise and may append to lists"""
    from .blocks import Poison
    piece = seg.info["piece"]
    base = piece.base
    before = get()
    rebuilt = set()
    def run(x):
        start = {}
        for nm, v in before.items():
            if isinstance(v, SList) or type(v) is list:
                start[nm] = SList()
                start[nm].acc = (nm, base, x)
            elif isinstance(v, PDict) and (v.sym is None or isinstance(v.sym, SMap)):
                start[nm] = FDict()
            else:
                start[nm] = Poison() if nm in changed else v
        set_(start)
        body(x)
        after = get()
        acc = {}
        for nm, v in before.items():
            if nm in start and isinstance(start[nm], SList):
                if after.get(nm) is not start[nm]:
                    if isinstance(after.get(nm), SList):       # rebuilt: acc = acc + [...]
                        pass
                    else:
                        raise Unsupported("an accumulator was replaced")
                acc[nm] = after[nm].items
                if start[nm].seen:
                    if items_of(v) or after[nm] is not start[nm] or len(acc[nm]) > 1 or not all(val_eq(y, x) for y in acc[nm]):
                        raise Unsupported("a list without duplicates that holds more than the elements")
                if after[nm] is not start[nm]:
                    rebuilt.add(nm)
            elif isinstance(start[nm], FDict):
                if after.get(nm) is not start[nm]:
                    raise Unsupported("a dictionary was replaced")
                acc[nm] = list(dict.items(start[nm]))
            elif after.get(nm) is not start[nm]:
                acc[nm] = None
        for nm in after:
            if nm not in before:
                acc[nm] = None
        return acc
    changed = set()
    while True:
        # variables the body assigns carry an unknown value into the next iteration
        outs = generic(piece, run)
        new = {nm for st, v, _ in outs if st == "ok" for nm, y in v.items() if y is None and nm in before} - changed
        if not new:
            break
        changed |= new
    excs = [(v, c) for st, v, c in outs if st == "exc"]
    oks = [(v, c) for st, v, c in outs if st == "ok"]
    k = VC.ex.choose(len(excs) + 1, "raises") if excs else 0
    if k:
        v, c = excs[k - 1]
        j = z3.Int(f"witness!{next(_n)}")
        assume(z3.And(j >= 0, j < base.n, base.at(c, j), *[base.at(f, j) for f in base.facts]))
        base.link(j)
        if not hasattr(base, "witnesses"):
            base.witnesses = []
        base.witnesses.append(j)
        VC.ex.undo.append(lambda: base.witnesses.remove(j))
        set_(dict(before))
        raise v
    base.add_fact(z3.Or([c for _, c in oks] or [z3.BoolVal(False)]))
    final = {}
    for nm, v in before.items():
        if isinstance(v, SList) or type(v) is list:
            add = []
            seqs = [(a[nm], c) for a, c in oks]
            if all(not s for s, _ in seqs):
                final[nm] = v
                continue
            if all(len(s) <= 1 and not any(isinstance(x, Piece) for x in s) for s, _ in seqs):
                add = [Piece(base, [(c, s[0]) for s, c in seqs if s])]
            else:
                fl = getattr(base, "flatten", None)
                if fl is None:
                    add = [Piece(base, [(c, s[0] if len(s) == 1 and not isinstance(s[0], Piece) else Flat(s)) for s, c in seqs if s])]
                elif len(seqs) != 1 or not _total(piece):
                    raise Unsupported("several appended elements per iteration")
                else:
                    add = [fl(x) for x in seqs[0][0]]
            if isinstance(v, SList) and nm not in rebuilt:
                v.items.extend(add)          # in place, as the code does
                final[nm] = v
            else:
                final[nm] = SList((v.items if isinstance(v, SList) else items_of(v)) + add)
                final[nm].acc = getattr(v, "acc", None)
        elif isinstance(v, PDict) and (v.sym is None or isinstance(v.sym, SMap)):
            if any(len(a[nm]) > 1 for a, _ in oks):
                raise Unsupported("several entries per iteration")
            if any(a[nm] for a, _ in oks):
                old = v.sym.pairs.items if v.sym is not None else list(dict.items(v))
                maps.become(v, SMap(SList(list(old) + [Piece(base, [(c, a[nm][0]) for a, c in oks if a[nm]])])))
            final[nm] = v
        else:
            final[nm] = Poison() if any(a.get(nm, v) is None for a, _ in oks) else v
    for a, _ in oks:
        for nm in a:
            if nm not in before:
                final[nm] = Poison()
    set_(final)


class FDict(PDict):
    """a dictionary inside the body of a generic loop: it can only be written"""
    def _no(self, *a, **k):
        raise Unsupported("reading a dictionary that the loop is filling")
    __getitem__ = __contains__ = get = items = keys = values = __iter__ = update = __len__ = copy = __ior__ = __or__ = pop = setdefault = __eq__ = __bool__ = _no
    def __setitem__(self, k, v):
        dict.__setitem__(self, k, v)
    __hash__ = None


def zip_(*ls):
    its = [items_of(l) for l in ls]
    k = min(map(len, its))
    if len({len(x) for x in its}) != 1:
        raise Unsupported("zip of symbolic lists of different shape")
    out = []
    for row in zip(*its):
        ps = [isinstance(x, Piece) for x in row]
        if not any(ps):
            out.append(tuple(row))
            continue
        if not all(ps):
            raise Unsupported("zip of symbolic lists of different shape")
        b = row[0].base
        if len(its[0]) == 1 and all(p.raw for p in row) and any(not z3.eq(p.base.idx, b.idx) for p in row[1:]):
            # unrelated lists: the pairs are indexed by the shortest of them
            k = next((p for p in row if not any(_sat([q.base.n < p.base.n]) for q in row)), None)
            if k is None:
                raise Unsupported("zip of lists of unrelated lengths")
            raws = [p.raw for p in row]
            out.append(Piece(k.base, [(z3.BoolVal(True), tuple(r(k.base.idx) for r in raws))], raw=lambda j, raws=raws: tuple(r(j) for r in raws)))
            continue
        for p in row[1:]:
            if not z3.eq(p.base.idx, b.idx):
                raise Unsupported("zip of unrelated symbolic lists")
            if p.base is not b and _sat([p.base.n != b.n]):
                raise Unsupported("zip of lists whose lengths may differ")
            if len(p.cases) != 1 or len(row[0].cases) != 1 or not z3.eq(p.cases[0][0], row[0].cases[0][0]):
                raise Unsupported("zip of filtered lists")
        cond = row[0].cases[0][0]
        raws = [p.raw for p in row]
        pc = Piece(b, [(cond, tuple(p.cases[0][1] for p in row))], raw=(lambda j, raws=raws: tuple(r(j) for r in raws)) if all(raws) else None)
        out.append(pc)
    return SList(out)


def compress_(data, sel):
    d, s = items_of(data), items_of(sel)
    if len(d) != len(s):
        raise Unsupported("compress of lists of different shape")
    out = []
    for x, y in zip(d, s):
        if isinstance(x, Piece) != isinstance(y, Piece):
            raise Unsupported("compress of lists of different shape")
        if not isinstance(x, Piece):
            if y:
                out.append(x)
            continue
        if not z3.eq(x.base.idx, y.base.idx) or len(x.cases) != 1 or (x.base is not y.base and _sat([x.base.n != y.base.n])):
            raise Unsupported("compress of unrelated lists")
        cond = z3.Or([c for c, v in y.cases if _truth(v)] or [z3.BoolVal(False)])
        out.append(Piece(y.base if y.base.classes else x.base, [(z3.simplify(z3.And(x.cases[0][0], cond)), x.cases[0][1])]))
    return SList(out)


def val_eq(a, b):
    if a is b:
        return True
    h = getattr(a, "__vc_same__", None)
    if h is not None:
        return h(b)
    if isinstance(a, SNum) and isinstance(b, SNum):
        return z3.eq(z3.simplify(a.z), z3.simplify(b.z))
    if hasattr(a, "free_symbols") and hasattr(b, "free_symbols"):
        import sympy
        return a == b or sympy.simplify(a - b) == 0
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(val_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a == b
    if isinstance(a, (bool, int, str, type(None), type)) and type(a) is type(b):
        return a == b
    return False


def list_eq(a, b):
    """True / False (provably different) / None"""
    def clean(l):
        out = []
        for it in items_of(l):
            if isinstance(it, Piece):
                if not _sat([it.base.n > 0]):
                    continue
                it2 = [(c, v) for c, v in it.cases if _sat(it.base.dom() + [c])]
                if not it2:
                    continue
                it = Piece(it.base, it2, raw=it.raw)
            out.append(it)
        return out
    x, y = clean(a), clean(b)
    if len(x) != len(y):
        return None
    for p, q in zip(x, y):
        if isinstance(p, Piece) != isinstance(q, Piece):
            return None
        if not isinstance(p, Piece):
            if not val_eq(p, q):
                return None
            continue
        if p.base is not q.base:
            return None
        for c, v in p.cases:
            same = z3.Or([d for d, w in q.cases if val_eq(v, w)] or [z3.BoolVal(False)])
            if _sat(p.base.dom() + [c, z3.Not(same)]):
                return None
        cp, cq = z3.Or([c for c, _ in p.cases]), z3.Or([c for c, _ in q.cases])
        if _sat(p.base.dom() + [cq, z3.Not(cp)]):
            return None
    return True


# ---------------------------------------------------------------- builtins
def _is(x):
    return isinstance(x, SList)

_old = {fn: VC.shims[id(fn)] for fn in (any, all, sum, list, tuple, zip, set, len)}
VC.shim(any, lambda it: it.__vc_any__() if _is(it) else _old[any](it))
VC.shim(all, lambda it: it.__vc_all__() if _is(it) else _old[all](it))
VC.shim(sum, lambda it, *a, **k: it.__vc_sum__() if _is(it) and not a and not k else _old[sum](it, *a, **k))
VC.shim(list, lambda *a: a[0].copy() if a and _is(a[0]) else _old[list](*a))
VC.shim(tuple, lambda *a: a[0].copy() if a and _is(a[0]) else _old[tuple](*a))
VC.shim(set, lambda *a: a[0].__vc_set__() if a and _is(a[0]) else _old[set](*a))
VC.shim(zip, lambda *a, **k: zip_(*a) if any(map(_is, a)) else _old[zip](*a, **k))
VC.shim(itertools.compress, lambda d, s: compress_(d, s) if _is(d) or _is(s) else itertools.compress(d, s))
_oldmap, _oldfilter = VC.shims[id(map)], VC.shims[id(filter)]
VC.shim(map, lambda fn, *its: its[0].__vc_comp__("list", lambda xs: [VC.f(fn)(x) for x in xs]) if len(its) == 1 and _is(its[0]) else _oldmap(fn, *its))
VC.shim(filter, lambda fn, it: it.__vc_comp__("list", lambda xs: [x for x in xs if VC.f(fn)(x)]) if _is(it) and fn is not None else _oldfilter(fn, it))
_oldrange = VC.shims[id(range)]
def _range(*a):
    if len(a) == 1 and isinstance(a[0], SLen):
        ps = [it for it in a[0].of]
        if len(ps) == 1 and isinstance(ps[0], Piece) and ps[0].raw:
            b = ps[0].base
            return SList([Piece(b, [(z3.BoolVal(True), SNum(b.idx))], raw=lambda j: SNum(j))])
    if any(isinstance(x, SNum) for x in a) and (len(a) < 3 or (type(a[2]) is int and a[2] == 1)):
        lo, hi = (z3.IntVal(0), zl(a[0])) if len(a) == 1 else (zl(a[0]), zl(a[1]))
        nm = f"range({lo},{hi})"
        b = Base(nm, lambda j: SNum(z3.simplify(lo + j)))
        assume(b.n == z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        return SList([raw_piece(b)])
    return _oldrange(*a)
VC.shim(range, _range)
_oldenum = VC.shims[id(enumerate)]
def _enumerate(it, start=0):
    if _is(it):
        its = items_of(it)
        if len(its) != 1 or not isinstance(its[0], Piece) or not _total(its[0]):
            raise Unsupported("enumerate of a filtered or composed list")
        p = its[0]
        return SList([Piece(p.base, [(c, (SNum(z3.simplify(p.base.idx + zl(start))), v)) for c, v in p.cases], raw=(lambda j: (SNum(z3.simplify(j + zl(start))), p.raw(j))) if p.raw else None)])
    return _oldenum(it, start) if start != 0 else _oldenum(it)
VC.shim(enumerate, _enumerate)


def same(label, got, want):
    """Claim: the two lists are equal; refuted only when their lengths must differ"""
    from .prove import Claim
    r = list_eq(got, want)
    if r:
        return Claim(label, "proved", None, "z3")
    try:
        a, b = (x.__vc_len__().z if isinstance(x, SList) else z3.IntVal(len(x)) for x in (got, want))
        if not _sat([a == b]):
            return Claim(label, "refuted", f"{got} / {want}", "z3")
    except Unsupported:
        pass
    return Claim(label, "unknown", f"{got} / {want}"[:500])

"""Run-time side of the instrumentation: path exploration, symbolic sequences, loop rule."""
from __future__ import annotations
import collections.abc, functools, itertools, sys, types, typing


class Unsupported(Exception):
    """a construct outside the verifier's reach: the obligation is undecided, never 'violated'"""


class PathDead(Exception):
    """current path is infeasible / abandoned"""


class Explorer:
    """Depth-first path enumeration by re-execution with a decision prefix."""
    def __init__(self, parent=None, max_paths=4000):
        self.parent = parent
        self.max_paths = max_paths
        self.prefix = []          # list of [chosen, n]
        self.pos = 0
        self.pc = list(parent.pc) if parent else []     # z3 path condition
        self.pc0 = list(self.pc)
        self.undo = []
        self.forks = 0

    def choose(self, n, why=""):
        if n <= 0:
            raise PathDead(why)
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos][0]
        else:
            self.prefix.append([0, n])
            self.forks += 1
            c = 0
        self.pos += 1
        return c

    def run(self, thunk):
        """yields (value | exception) for each feasible path"""
        results = []
        count = 0
        base = top = VC.names.n if VC.names is not None else 0
        while True:
            if VC.names is not None:
                top = max(top, VC.names.n)
                VC.names.n = base
            count += 1
            if count > self.max_paths:
                raise Unsupported("too many paths")
            self.pos = 0
            self.pc = list(self.pc0)
            self.undo = []
            saved = VC.ex
            VC.ex = self
            try:
                try:
                    v = thunk()
                    results.append(("ok", v, list(self.pc)))
                except PathDead:
                    pass
                except Unsupported:
                    if __import__("os").environ.get("VP_TB"): __import__("traceback").print_exc(limit=-12, file=__import__("sys").__stdout__)
                    raise
                except RecursionError as e:
                    if __import__("os").environ.get("VP_TB"): __import__("traceback").print_exc(limit=-30, file=__import__("sys").__stdout__)
                    raise Unsupported("recursion")
                except Exception as e:  # raised by the code under verification
                    results.append(("exc", e, list(self.pc)))
            finally:
                VC.ex = saved
                for u in reversed(self.undo):
                    u()
            # advance
            del self.prefix[self.pos:]
            while self.prefix and self.prefix[-1][0] + 1 >= self.prefix[-1][1]:
                self.prefix.pop()
            if not self.prefix:
                if VC.names is not None:
                    VC.names.n = max(top, VC.names.n)
                return results
            self.prefix[-1][0] += 1


class Seg:
    """One element of a real tuple/list that stands for a whole (possibly empty) run of
    elements x_0..x_{n-1}.  `elem()` returns a fresh generic element.  Any operation on it that
    the verifier does not understand raises Unsupported."""
    __slots__ = ("dom", "dir", "make", "info", "tag")
    def __init__(self, dom, make, dir=1, info=None, tag=None):
        self.dom, self.make, self.dir, self.info, self.tag = dom, make, dir, info or {}, tag
    def elem(self):
        return self.make()
    def reversed(self):
        return Seg(self.dom, self.make, -self.dir, self.info, self.tag)
    def __repr__(self):
        return f"<Seg {self.dom} dir={self.dir} {self.tag or ''}>"
    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"attribute {name} of a symbolic segment")
    def __deepcopy__(self, memo):
        return self
    def __copy__(self):
        return self
    def _no(self, *a, **k):
        raise Unsupported("operation on a symbolic segment")
    def __eq__(self, o):
        if self.tag == "int":
            from .sets import seg_eq
            return seg_eq(self, o)
        raise Unsupported("operation on a symbolic segment")
    def __ne__(self, o):
        return not self == o
    __hash__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __mul__ = __rmul__ = _no
    __sub__ = __rsub__ = __bool__ = __int__ = __float__ = __index__ = __len__ = __iter__ = __getitem__ = _no
    __call__ = __contains__ = __neg__ = _no


def _noelem():
    raise Unsupported("fresh element of a derived sequence")


def _is_struct(x):
    """plain data holding symbolic leaves: dicts and tuples"""
    return isinstance(x, (dict, tuple)) and not any(type(y) is Seg for y in (x.values() if isinstance(x, dict) else x))


def _struct(x):
    """copy of the containers; leaves are shared"""
    if type(x) in (list, tuple):
        return type(x)(_struct(y) for y in x)
    if type(x) is dict:
        return {k: _struct(v) for k, v in x.items()}
    return x


class GenList(list):
    """result of a generator expression in symbolic mode (materialised)"""


_GENTYPES = (types.GeneratorType, typing.Generator, typing.Iterator, typing.Iterable, collections.abc.Generator,
             collections.abc.Iterator, collections.abc.Iterable, object)


def _on_stack(code):
    f = sys._getframe(2)
    while f is not None:
        if f.f_code is code:
            return True
        f = f.f_back
    return False


class _VC:
    def __init__(self):
        self.active = False
        self.ex = None
        self.shims = {}
        self.keep = []
        self.merge = None        # domain-specific merge of generic-element outcomes
        self.log = []
        self.names = None        # counter of fresh names (pyvc.scalars)
        self.induct = None       # induction hypothesis: (fn, args, kwargs) -> result or NotImplemented
        self.iter_hook = None    # domain-specific: object -> list of elements or None

    # -- calls -----------------------------------------------------------
    def f(self, fn):
        if not self.active:
            return fn
        r = self.shims.get(id(fn))
        if r is not None:
            return r
        if type(fn) is types.BuiltinMethodType and isinstance(fn.__self__, str) and fn.__name__ in ("join", "format"):
            return lambda *a, **k: _str_method(fn, a, k)
        if self.induct is not None and isinstance(fn, (types.FunctionType, types.MethodType)) and _on_stack(fn.__code__):
            # recursive call: the induction hypothesis may apply to this argument
            ind = self.induct
            def call(*a, **k):
                h = ind(fn, a, k)
                return fn(*a, **k) if h is NotImplemented else h
            return call
        return fn

    def shim(self, orig, new):
        self.shims[id(orig)] = new
        self.keep.append(orig)

    mkset = staticmethod(set)

    def splat(self, x):
        """**x at a call site; a symbolic map is handed to the callee's contract as a whole"""
        if self.active:
            from .maps import GMap, PDict
            if isinstance(x, GMap) or (isinstance(x, PDict) and x.sym is not None):
                return {"\0map": x}
        return x

    def star(self, x):
        """*x at a call site; runs of a symbolic list are handed to the callee's contract as segments"""
        if self.active:
            h = getattr(type(x), "__vc_star__", None)
            if h is not None:
                return h(x)
        return x

    def mkdict(self):
        if not self.active:
            return {}
        from .maps import PDict
        return PDict()

    def fmt(self, x):
        if self.active and hasattr(type(x), "__vc_fmt__"):
            return x.__vc_fmt__()
        return x

    def sub(self, x, i):
        if self.active and isinstance(x, (tuple, list)) and any(type(e) is Seg for e in x):
            return self.merge.subscript(x, i)
        return x[i]

    # -- iteration -------------------------------------------------------
    def isseg(self, x):
        return type(x) is Seg

    def elements(self, it):
        """materialise an iterable to a list that may contain Seg elements"""
        if type(it) is Seg:
            raise Unsupported("iterating a symbolic element")
        h = getattr(type(it), "__vc_elems__", None)
        if h is not None:
            return h(it)
        if self.iter_hook is not None:
            r = self.iter_hook(it)
            if r is not None:
                return r
        return list(it)

    def it(self, it):
        if not self.active:
            return it
        return self.elements(it)

    def unsupported_loop(self, line):
        raise Unsupported(f"loop with break/return over a symbolic segment (line {line})")

    def concat(self, kind, lists):
        if not self.active:
            out = [y for l in lists for y in l]
            return out if kind == "list" else iter(out)
        out = []
        h = getattr(type(lists), "__vc_concat__", None)
        if h is not None:
            return h(lists)
        for l in lists:
            if type(l) is Seg:
                if "flat" not in l.info:
                    raise Unsupported("concat of symbolic lists")
                out.append(l.info["flat"])
            else:
                out.extend(l)
        return GenList(out) if kind == "gen" else out

    def comp(self, kind, it, lam):
        if not self.active:
            return lam(it)
        h = getattr(type(it), "__vc_comp__", None)
        if h is not None:
            return h(it, kind, lam)
        els = self.elements(it)
        if not any(type(e) is Seg for e in els):
            r = lam(els)
            return GenList(r) if kind == "gen" else r
        if kind in ("list", "gen"):
            out = []
            for e in els:
                if type(e) is Seg:
                    out.append(self.map_seg(e, lambda x: list(lam((x,)))))
                else:
                    out.extend(lam((e,)))
            out = [o for o in out if not (type(o) is Seg and o.info.get("empty"))]
            return GenList(out) if kind == "gen" else out
        if kind == "dict":
            from .maps import GMap, family
            out = GMap()
            for e in els:
                if type(e) is not Seg:
                    out.update(lam((e,)))
                    continue
                outs = []
                for x, v, pc in self.explore_elem(e, lambda x: [("one", k, w) for k, w in lam((x,)).items()]):
                    outs.append((x, v))
                out.entries.extend(family(e, outs))
            return out
        raise Unsupported(f"{kind} comprehension over a symbolic segment")

    def explore_elem(self, seg, fn):
        """run fn on a generic element on all paths; list of (element, status, value, pc)"""
        ex = Explorer(parent=self.ex)
        outs = []
        def thunk():
            e = self.pick(seg)
            v = fn(e)
            return (e, v)
        for st, v, pc in ex.run(thunk):
            if st == "exc":
                raise v
            outs.append((v[0], v[1], pc))
        if not outs:
            raise Unsupported("no feasible element path")
        return outs

    def pick(self, seg):
        """a generic element of the segment"""
        if seg.tag == "val":
            vs = seg.info.get("variants")
            st = vs[self.ex.choose(len(vs), "variant")][1] if vs else seg.info["struct"]
            (x,) = _struct(st)
            return x
        return seg.elem()

    def map_seg(self, seg, fn):
        """fn: element -> list of results (0, 1 or more)"""
        base = seg.info["base"] if seg.tag == "val" else seg
        ex = Explorer(parent=self.ex)
        outs, raw = [], []
        def thunk():
            if seg.tag == "val":
                vs = seg.info.get("variants")
                e, st = vs[ex.choose(len(vs), "variant")] if vs else (seg.info["elem"], seg.info["struct"])
                v = [y for x in _struct(st) for y in fn(x)]
            else:
                e = seg.elem()
                v = fn(e)
            raw.append((e, v))
            if getattr(e, "__vc_generic__", False) and seg.tag != "val" and (not v or (len(v) == 1 and v[0] is e)):
                return "keep" if v else "drop"
            # the merge descriptor must be computed while the path's choices are in force
            try:
                return self.merge.describe(base, e, v)
            except Unsupported:
                if not all(_is_struct(x) for x in v):
                    raise
                return None
        for st, v, pc in ex.run(thunk):
            if st == "exc":
                raise v
            outs.append(v)
        if not outs:
            raise Unsupported("no feasible element path")
        if any(isinstance(o, str) for o in outs):
            if all(o == "keep" for o in outs):
                return seg
            if all(o == "drop" for o in outs):
                return Seg(seg.dom, _noelem, 1, {"empty": True}, "gen")
            raise Unsupported("a filter that depends on the element")
        if any(o is None for o in outs):
            if len(outs) > 1 or ex.forks:
                raise Unsupported("branching map to structured values")
            # a sequence of structured values (dicts, tuples) that are functions of the generic element
            e, v = raw[-1]
            return Seg(base.dom, _noelem, base.dir, {"base": base, "elem": e, "struct": _struct(v)}, "val")
        return self.merge.combine(base, outs)

    # -- loops over segments ----------------------------------------------
    def loop(self, seg, body, get, set_):
        if seg.tag == "slist":
            from . import seqs
            return seqs.loop(seg, body, get, set_, self.merge)
        if seg.tag == "inv":
            seg.info["rule"](body, get, set_)
            return
        if seg.tag == "index":
            return self.merge.index_loop(seg, body, get, set_)
        before = get()
        handlers = {}
        for nm, v in before.items():
            h = self.merge.accumulator(nm, v)
            handlers[nm] = h
        ex = Explorer(parent=self.ex)
        outs = []
        def thunk():
            e = self.pick(seg)
            set_({nm: h.start() for nm, h in handlers.items()})
            body(e)
            after = get()
            return self.merge.describe_loop(seg, e, handlers, after)
        res = ex.run(thunk)
        for st, v, pc in res:
            if st == "exc":
                raise v
            outs.append(v)
        if not outs:
            raise Unsupported("no feasible loop path")
        final = self.merge.combine_loop(seg, before, handlers, outs)
        set_(final)

    BREAK = object()

    def loopbreak(self, seg, body, get, set_):
        """loop left early: only by an inductive invariant"""
        if seg.tag == "inv":
            return seg.info["rule"](body, get, set_)
        raise Unsupported("loop with break over a symbolic segment")

    def loopgen(self, seg, body, get, set_):
        before = get()
        s = self.map_seg(seg, lambda e: list(body(e)))
        set_({k: v for k, v in before.items()})
        if not s.info.get("empty"):
            yield s


def _str_method(fn, a, k):
    """methods of string constants on symbolic arguments"""
    for x in (*a, *k.values()):
        h = getattr(type(x), "__vc_str_" + fn.__name__ + "__", None)
        if h is not None:
            return h(x, fn.__self__, a, k)
    return fn(*a, **k)


VC = _VC()


# ---------------------------------------------------------------- builtin shims
def _sh_len(x):
    if isinstance(x, (tuple, list)) and any(type(e) is Seg for e in x):
        return VC.merge.length(x)
    h = getattr(type(x), "__vc_len__", None)
    if h is not None:
        return h(x)
    return len(x)

def _sh_reversed(x):
    if isinstance(x, (tuple, list)) and any(type(e) is Seg for e in x):
        return [e.reversed() if type(e) is Seg else e for e in reversed(x)]
    h = getattr(type(x), "__vc_reversed__", None)
    if h is not None:
        return h(x)
    return reversed(x)

def _sh_map(fn, *its):
    if len(its) == 1:
        els = VC.elements(its[0])
        if any(type(e) is Seg for e in els):
            out = []
            for e in els:
                out.append(VC.map_seg(e, lambda x: [VC.f(fn)(x)]) if type(e) is Seg else VC.f(fn)(e))
            return out
        return map(VC.f(fn), els)
    return map(fn, *its)

def _sh_filter(fn, it):
    els = VC.elements(it)
    if any(type(e) is Seg for e in els):
        out = []
        for e in els:
            if type(e) is Seg:
                s = VC.map_seg(e, lambda x: [x] if fn(x) else [])
                if not s.info.get("empty"):
                    out.append(s)
            elif fn(e):
                out.append(e)
        return out
    return filter(fn, els)

def _quant(it, want):
    els = VC.elements(it)
    # generic element of a boolean segment: decided only if uniform over all elements
    res = (want == "all")
    for e in els:
        if type(e) is Seg:
            vals = e.info.get("bools")
            if vals is None:
                raise Unsupported("quantifier over a non-boolean symbolic segment")
            if want == "all":
                if vals == {True}:
                    continue
            else:
                if vals == {False}:
                    continue
            if len(vals) == 1:
                # every element decides: the quantifier is decided unless the segment is empty
                if VC.merge.is_empty(e):
                    continue
                return want != "all"
            # some element may decide the other way: both outcomes possible if segment non-empty
            k = VC.ex.choose(2, "quantifier")
            if k == 0:
                continue
            return want != "all"
        if want == "all" and not e:
            return False
        if want == "any" and e:
            return True
    return res

def _sh_all(it):
    return _quant(it, "all")
def _sh_any(it):
    return _quant(it, "any")

def _sh_sum(it, start=0, **kw):
    if "start" in kw:
        start = kw["start"]
    els = VC.elements(it)
    if not any(type(e) is Seg for e in els):
        r = VC.merge.sum(els, start)
        if r is not NotImplemented:
            return r
        return sum(els, start)
    return VC.merge.sum(els, start)

def _sh_tuple(*a):
    if len(a) == 1:
        return tuple(VC.elements(a[0]))
    return tuple(*a)

def _sh_list(*a):
    if len(a) == 1:
        return list(VC.elements(a[0]))
    return list(*a)

def _sh_zip(*its, **kw):
    ls = [VC.elements(i) if isinstance(i, (list, tuple)) else i for i in its]
    if any(isinstance(l, list) and any(type(e) is Seg for e in l) for l in ls):
        raise Unsupported("zip over symbolic segments")
    return zip(*ls, **kw)

def _guard(fn):
    def g(*a, **k):
        for x in a:
            if isinstance(x, (tuple, list)) and any(type(e) is Seg for e in x):
                raise Unsupported(f"{getattr(fn,'__name__',fn)} over a symbolic segment")
        return fn(*a, **k)
    return g

def _sh_enumerate(it, *a, **k):
    els = VC.elements(it) if isinstance(it, (list, tuple)) else it
    if isinstance(els, list) and any(type(e) is Seg for e in els):
        raise Unsupported("enumerate over symbolic segment")
    return enumerate(els, *a, **k)

def _sh_isinstance(x, T):
    h = getattr(type(x), "__vc_isinstance__", None)
    if h is not None:
        return h(x, T)
    if type(x) is Seg:
        raise Unsupported("isinstance on a symbolic segment")
    if type(x) is GenList:
        # generator expressions are materialised in symbolic mode; they still answer as generators
        ts = T if isinstance(T, tuple) else (T,)
        return any(t in _GENTYPES for t in ts)
    return isinstance(x, T)

def _sh_type(*a):
    if len(a) == 1:
        h = getattr(type(a[0]), "__vc_type__", None)
        if h is not None:
            return h(a[0])
    return type(*a)

def _sh_reduce(fn, it, *init):
    els = VC.elements(it)
    if any(type(e) is Seg for e in els):
        raise Unsupported("reduce over symbolic segment")
    return functools.reduce(fn, els, *init)

def _sh_chain(*its):
    out = []
    for i in its:
        if type(i) is Seg:
            if "flat" not in i.info:
                raise Unsupported("itertools.chain of symbolic segment")
            out.append(i.info["flat"])
        else:
            out.extend(VC.elements(i))
    return out

for orig, new in [(len, _sh_len), (reversed, _sh_reversed), (map, _sh_map), (filter, _sh_filter), (all, _sh_all),
                  (any, _sh_any), (sum, _sh_sum), (tuple, _sh_tuple), (list, _sh_list), (zip, _sh_zip),
                  (enumerate, _sh_enumerate), (isinstance, _sh_isinstance), (type, _sh_type),
                  (functools.reduce, _sh_reduce), (itertools.chain, _sh_chain)]:
    VC.shim(orig, new)
for fn in (sorted, max, min, set, dict, frozenset):
    VC.shim(fn, _guard(fn))

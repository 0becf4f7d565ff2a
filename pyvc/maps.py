"""Symbolic maps: dictionaries built by loops and comprehensions over arbitrary finite sets.

A GMap is a sequence of writes, in order; each write is either one concrete entry, or a *family*: one entry
per element of a segment, whose key is an injective term over the element and whose value is a term over the
element (one value per path of the loop body).  Lookups return the value of the last matching write."""
from __future__ import annotations
from .runtime import VC, Seg, Unsupported, GenList, _noelem


class Gen:
    """generic element of an arbitrary finite set `dom`; two Gens of different sets are different objects"""
    __vc_generic__ = True
    def __init__(self, dom, **at):
        self.__dict__.update(at)
        self.vdom = dom
    def __repr__(self):
        return f"<any {self.vdom}>"
    def __vc_fmt__(self):
        return f"<any {self.vdom}>"
    __hash__ = object.__hash__


class Key(Gen):
    """injective function `f` of a generic element"""
    def __init__(self, f, of):
        super().__init__((f, of.vdom))
        self.f, self.of = f, of
    def __vc_isinstance__(self, T):
        return str in (T if isinstance(T, tuple) else (T,))
    def __eq__(self, o):
        return isinstance(o, Key) and o.f == self.f and o.of is self.of
    __hash__ = object.__hash__


DISTINCT = set()      # pairs of key functions assumed never to collide


def gen_seg(dom, make):
    return Seg(dom, make, 1, {}, "gen")


def same_key(a, b):
    """True / False / Unsupported: do these two keys denote the same key for corresponding elements"""
    if a is b:
        return True
    ga, gb = isinstance(a, Gen), isinstance(b, Gen)
    if ga and gb:
        if isinstance(a, Key) and isinstance(b, Key):
            if a.f != b.f:
                if frozenset((a.f, b.f)) in DISTINCT:
                    return False
                raise Unsupported("comparing keys of different shapes")
            return same_key(a.of, b.of)
        if a.vdom != b.vdom:
            return False
        # two generic elements of the same set: families are stated for every element
        return True
    if ga != gb:
        g, c = (a, b) if ga else (b, a)
        if g.__dict__.get("never", ()) and type(c) in g.never:
            return False
        raise Unsupported("comparing a generic key with a concrete one")
    return bool(a == b)


class Opaque_:
    pass


class GMap:
    """entries: ("one", key, value) | ("fam", base, elem, key, [(elem_i, value_i)])"""
    def __init__(self, entries=(), name="map"):
        self.entries, self.name = list(entries), name
    def copy(self):
        return GMap(self.entries, self.name)
    def bulk(self, bag):
        """a callee adds the entries of `bag` (a formal sum of map contents)"""
        self.entries.append(("bulk", bag))
    def bag(self):
        return bag_of(self.entries)
    def _find(self, k):
        for w in reversed(self.entries):
            if w[0] == "bulk":
                raise Unsupported("lookup in a map filled by a contract")
            if same_key(w[1] if w[0] == "one" else w[3], k):
                if w[0] == "fam" and len(w) > 6 and w[6] and VC.ex.choose(2, "conditional entry"):
                    continue
                return w
        return None
    def __contains__(self, k):
        return self._find(k) is not None
    def __getitem__(self, k):
        w = self._find(k)
        if w is None:
            raise KeyError(k)
        if w[0] == "one":
            return w[2]
        vals = w[4]
        return vals[VC.ex.choose(len(vals), "variant")][1]
    def get(self, k, d=None):
        return self[k] if k in self else d
    def __setitem__(self, k, v):
        if isinstance(k, Gen):
            raise Unsupported("writing at a generic key outside its loop")
        self.entries.append(("one", k, v))
    def update(self, o):
        self.entries.extend(gmap(o).entries)
    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r
    def __ior__(self, o):
        self.update(o)
        return self
    def _proj(self, f):
        out = []
        for w in self.entries:
            if w[0] == "bulk":
                raise Unsupported("iterating a map filled by a contract")
            if w[0] == "one":
                out.append(f(w[1], w[2]))
            else:
                vs = [(e, [f(k, v)]) for (e, v), k in zip(w[4], w[5])]
                out.append(Seg(w[1].dom, _noelem, 1, {"base": w[1], "elem": vs[0][0], "struct": vs[0][1], "variants": vs if len(vs) > 1 else None}, "val"))
        return GenList(out)
    def items(self):
        return self._proj(lambda k, v: (k, v))
    def values(self):
        return self._proj(lambda k, v: v)
    def keys(self):
        return self._proj(lambda k, v: k)
    def _no(self, *a, **k):
        raise Unsupported("operation on a symbolic map")
    __len__ = __bool__ = __eq__ = pop = setdefault = _no
    __hash__ = None
    def __iter__(self):
        return iter(self.keys())
    # a symbolic map can be splatted into a contract (fn(**values)): see Splat
    def families(self):
        return [w for w in self.entries if w[0] == "fam"]


class PDict(dict):
    """an ordinary dictionary that becomes symbolic when a loop over a symbolic sequence fills it"""
    sym = None
    def _w(name):
        plain = getattr(dict, name)
        def f(self, *a, **k):
            if self.sym is not None:
                g = getattr(self.sym, name, None)
                if g is None:
                    raise Unsupported(f"{name} of a symbolic map")
                return g(*a, **k)
            if a and isinstance(a[0], Gen) and name in ("__getitem__", "__contains__", "get"):
                return getattr(gmap(self), name)(*a, **k)
            if name in ("update", "__ior__") and a and (isinstance(a[0], GMap) or getattr(a[0], "sym", None) is not None):
                become(self, GMap(gmap(self).entries + gmap(a[0]).entries))
                return self if name == "__ior__" else None
            return plain(self, *a, **k)
        return f
    for _n in ("__getitem__", "__contains__", "get", "items", "keys", "values", "__iter__", "update", "__setitem__", "__len__", "copy", "__ior__", "__or__", "pop", "setdefault", "__eq__"):
        locals()[_n] = _w(_n)
    __hash__ = None
    def __bool__(self):
        if self.sym is not None:
            raise Unsupported("truth of a symbolic map")
        return dict.__len__(self) > 0


def become(d, g):
    dict.clear(d)
    d.sym = g


def gmap(x):
    if isinstance(x, GMap):
        return x
    if isinstance(x, PDict) and x.sym is not None:
        return x.sym
    if isinstance(x, dict):
        return GMap([("one", k, v) for k, v in x.items()])
    raise Unsupported(f"map update with {type(x).__name__}")


class AccMap(GMap):
    """a map inside the body of a generic loop: reads see what was there before the loop, writes are recorded"""
    def __init__(self, before):
        super().__init__(before.entries, before.name)
        self.n0 = len(self.entries)
        self.reads = []
    def __setitem__(self, k, v):
        self.entries.append(("one", k, v))
    def writes(self):
        return self.entries[self.n0:]
    def _find(self, k):
        """Iterations have different elements, hence different keys: a read at the key this very iteration may
        write sees what was there before the loop.  Reads at any other key are refused if the loop writes."""
        self.reads.append(k)
        return super()._find(k)
    def check_reads(self):
        ws = self.writes()
        if self.reads and any(w[0] == "bulk" for w in ws):
            raise Unsupported("reading a map that the loop is filling")
        for k in self.reads:
            for w in ws:
                if not (isinstance(k, Gen) and isinstance(w[1], Gen) and same_key(k, w[1])):
                    raise Unsupported("reading a map that the loop is filling")
        return ws
    def _no(self, *a, **k):
        raise Unsupported("iterating a map that the loop is filling")
    items = values = keys = __iter__ = _no


def bag_of(entries):
    """contents of a map as a formal sum: {term: multiplicity}"""
    out = {}
    def add(t, n):
        out[t] = out.get(t, 0) + n
    for w in entries:
        if w[0] == "one":
            add(("one", w[1], id(w[2])), 1)
        elif w[0] == "bulk":
            for t, n in w[1].items():
                add(t, n)
        else:
            raise Unsupported("contents of a family")
    return out


def bag_fold(seg, outs):
    """sum over the elements of seg of the contents each iteration adds; must be the same on every path"""
    bs = [bag_of(ws) for ws in outs]
    if any(b != bs[0] for b in bs[1:]):
        raise Unsupported("a loop that adds different contents on different paths")
    base = seg.info["base"] if seg.tag == "val" else seg
    out = {}
    for t, n in bs[0].items():
        if t[0] == "one":
            raise Unsupported("a loop that adds one entry per element")
        if t[1] == f"e_{base.dom}":
            t = (t[0], f"all_{base.dom}")
        else:
            raise Unsupported("a loop that adds contents not determined by the element")
        out[t] = n
    return out


def elem_of(key):
    return elem_of(key.of) if isinstance(key, Key) else key


def family(seg, outs):
    """outs: per path (element, writes).  Every path must write exactly once, at the same injective key."""
    base = seg.info["base"] if seg.tag == "val" else seg
    key0, vals, keys = None, [], []
    ns = {len(ws) for _, ws in outs}
    if ns == {0}:
        return []
    if not ns <= {0, 1}:
        raise Unsupported("a loop that writes several entries per element")
    for e, ws in outs:
        if not ws:
            continue
        _, k, v = ws[0]
        if not isinstance(k, Gen):
            raise Unsupported("a loop that writes at a key not determined by the element")
        root = elem_of(k)
        ok = root is e or (isinstance(e, tuple) and any(isinstance(y, Gen) and root is elem_of(y) for y in e)) or root is getattr(e, "root", None)
        if not ok:
            raise Unsupported("a loop that writes at a key of another element")
        if key0 is not None and not (same_key(k, key0)):
            raise Unsupported("a loop that writes at different keys")
        key0 = k if key0 is None else key0
        vals.append((e, v))
        keys.append(k)
    return [("fam", base, outs[0][0], key0, vals, keys, 0 in ns)]

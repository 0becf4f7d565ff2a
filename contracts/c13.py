"""C13: register geometry is consistent."""
from pyvc.kit import *
from pyvc import seqs, maps
from pyvc.seqs import SList, Base, Piece, SMap, raw_piece, same, inst
from pyvc.maps import PDict
import z3, math, itertools, copy
import networkx as nx
RG = mod("qadence.register")
Register = RG.Register

P = "C13"
FR = "qadence.register."
ASSUMES = ["networkx: Graph.copy and deepcopy give an independent graph with equal nodes, edges and attributes; set_node_attributes stores exactly the given attributes; graphs are undirected",
           "node labels are totally ordered and pairwise different; positions are two-dimensional", "math.dist is the Euclidean distance (checked symmetric and homogeneous below)",
           "real arithmetic: floating point rounding of coordinates is not modelled"]
TRUSTED = ["z3", "networkx graph generators (the graphs they give are compared with their definition in the bounded part)"]

I_, R_ = z3.IntSort(), z3.RealSort()
X, Y = z3.Function("x", I_, R_), z3.Function("y", I_, R_)
LABEL = z3.Function("label", I_, I_)
DIST = z3.Function("dist", R_, R_, R_, R_, R_)
TRUE = z3.BoolVal(True)


def shim_for(fn, new):
    old = VC.shims.get(id(fn))
    VC.shim(fn, new)
    VC.ex.undo.append(lambda: VC.shims.__setitem__(id(fn), old) if old is not None else VC.shims.pop(id(fn), None))


class Node:
    """the node with index j of the graph"""
    def __init__(self, g, j):
        self.g, self.j = g, j
    def __vc_inst__(self, i, j):
        return Node(self.g, z3.substitute(self.j, (i, j)))
    def __vc_key__(self, base):
        return base is self.g.base and z3.eq(self.j, base.idx)
    def __vc_index_of__(self, k, base):
        return k.j if isinstance(k, Node) and k.g is self.g and self.__vc_key__(base) else None
    def __vc_same__(self, o):
        return isinstance(o, Node) and o.g is self.g and z3.eq(z3.simplify(o.j), z3.simplify(self.j))
    def _cmp(op):
        def f(self, o):
            if not isinstance(o, Node):
                raise Unsupported("comparison of a node")
            return decide(op(LABEL(self.j), LABEL(o.j)))
        return f
    __lt__, __gt__, __le__, __ge__ = _cmp(lambda a, b: a < b), _cmp(lambda a, b: a > b), _cmp(lambda a, b: a <= b), _cmp(lambda a, b: a >= b)
    def __eq__(self, o):
        return isinstance(o, Node) and decide(LABEL(self.j) == LABEL(o.j))
    def __ne__(self, o):
        return not self == o
    def __hash__(self):
        return hash(self.g)
    def __repr__(self):
        return f"node {self.j}"


class Shape:
    """identity shared by a graph and its copies: same nodes and edges"""
    def __init__(self):
        self.base = Base("nodes", lambda j: Node(self, j))
        A, B = z3.Function("edge from", I_, I_), z3.Function("edge to", I_, I_)
        self.edges = Base("edges", lambda j: Pair(self, A(j), B(j)))
        C, D = z3.Function("pair first", I_, I_), z3.Function("pair second", I_, I_)
        self.pairs = Base("pairs", lambda j: Pair(self, C(j), D(j)))
        self.C, self.D = C, D


class Pair(tuple):
    """a pair of nodes, listed once"""
    def __new__(cls, g, a, b):
        return tuple.__new__(cls, (Node(g, a), Node(g, b)))
    def __vc_key__(self, base):
        g = self[0].g
        for b in (g.edges, g.pairs):
            if base is b:
                e = b.elem(b.idx)
                return all(z3.eq(x.j, y.j) for x, y in zip(self, e))
        return False
    def __vc_same__(self, o):
        return isinstance(o, tuple) and len(o) == 2 and all(x.__vc_same__(y) for x, y in zip(self, o))
    def __vc_inst__(self, i, j):
        return Pair(self[0].g, *(z3.substitute(n.j, (i, j)) for n in self))


class Attr:
    def __init__(self, gr, j):
        self.gr, self.j = gr, j
    def __getitem__(self, k):
        if k != "pos":
            raise Unsupported("another attribute")
        return self.gr.pos(self.j)
    def get(self, k, d=None):
        return self[k]


class Nodes:
    def __init__(self, gr):
        self.gr = gr
    def items(self):
        b = self.gr.s.base
        return SList([Piece(b, [(TRUE, (Node(self.gr.s, b.idx), Attr(self.gr, b.idx)))], raw=lambda j: (Node(self.gr.s, j), Attr(self.gr, j)))])
    def __call__(self, data=False):
        return self.items() if data is True else self._l() if data is False else SList([Piece(self.gr.s.base, [(TRUE, (n, a[data])) for n, a in [self.gr.one()]])])
    def _l(self):
        return SList([raw_piece(self.gr.s.base)])
    def __vc_elems__(self):
        return self._l().__vc_elems__()
    def __vc_comp__(self, kind, lam):
        return self._l().__vc_comp__(kind, lam)
    def __vc_set__(self):
        return NodeSet(self.gr.s)
    def __vc_len__(self):
        return self._l().__vc_len__()
    def __getitem__(self, n):
        if isinstance(n, Node):
            return Attr(self.gr, n.j)
        raise Unsupported("node of another kind")


class NodeSet:
    def __init__(self, s):
        self.s = s
    def __vc_elems__(self):
        return SList([raw_piece(self.s.base)]).__vc_elems__()
    def __vc_comp__(self, kind, lam):
        return SList([raw_piece(self.s.base)]).__vc_comp__(kind, lam)


class Edges:
    def __init__(self, s):
        self.s = s
    def _l(self):
        return SList([raw_piece(self.s.edges)])
    def __vc_elems__(self):
        return self._l().__vc_elems__()
    def __vc_comp__(self, kind, lam):
        return self._l().__vc_comp__(kind, lam)
    def __vc_len__(self):
        return self._l().__vc_len__()


class SGraph:
    """an arbitrary graph with positions"""
    def __init__(self, shape=None, pos=None):
        self.s = shape or Shape()
        self.pos = pos or (lambda j: (SNum(X(j)), SNum(Y(j))))
        self.pos0 = self.pos
    def __vc_isinstance__(self, T):
        return nx.Graph in (T if isinstance(T, tuple) else (T,))
    def copy(self):
        return SGraph(self.s, self.pos)
    def __deepcopy__(self, memo):
        return self.copy()
    __copy__ = copy
    def one(self):
        b = self.s.base
        return Node(self.s, b.idx), Attr(self, b.idx)
    nodes = property(lambda self: Nodes(self))
    edges = property(lambda self: Edges(self.s))
    def __vc_len__(self):
        return self.nodes.__vc_len__()
    def __vc_elems__(self):
        return self.nodes.__vc_elems__()
    def untouched(self):
        return self.pos is self.pos0


def _set_attrs(g, values, name=None):
    if not isinstance(g, SGraph):
        return nx.set_node_attributes(g, values, name)
    m = values.sym if isinstance(values, PDict) else values
    if name is not None:
        raise Unsupported("attributes by name")
    if not isinstance(m, SMap):
        raise Unsupported("attributes of some nodes")
    (p,) = m.pairs.items
    if p.base is not g.s.base or len(p.cases) != 1 or not seqs._total(p):
        raise Unsupported("attributes of some nodes")
    k, v = p.cases[0][1]
    if not (isinstance(k, Node) and k.__vc_key__(p.base)) or not isinstance(v, dict) or list(v) != ["pos"]:
        raise Unsupported("other attributes")
    pos = dict.__getitem__(v, "pos")
    g.pos = lambda j: inst(pos, p.base.idx, j)


def _product(*a, **k):
    if len(a) == 2 and all(isinstance(x, (NodeSet, Nodes)) for x in a) and not k:
        s = a[0].s if isinstance(a[0], NodeSet) else a[0].gr.s
        return SList([raw_piece(s.pairs)])
    if any(isinstance(x, (NodeSet, Nodes)) for x in a):
        raise Unsupported("another product")
    return itertools.product(*a, **k)


def _combinations(a, r):
    if isinstance(a, (NodeSet, Nodes)):
        raise Unsupported("combinations of nodes")
    return itertools.combinations(a, r)


def _dist(p, q):
    if all(isinstance(x, SNum) for x in (*p, *q)) and len(p) == len(q) == 2:
        return SNum(DIST(*(x.z for x in (*p, *q))))
    return math.dist(p, q)


MINS = {}


def _min(*a, **k):
    if len(a) == 1 and isinstance(a[0], SList):
        (p,) = a[0].items
        if not isinstance(p, Piece) or any(not isinstance(v, SNum) for _, v in p.cases) or k:
            raise Unsupported("minimum of another list")
        cond = z3.simplify(z3.Or([c for c, _ in p.cases]))
        val = p.cases[0][1].z
        if len(p.cases) > 1 and not all(z3.eq(v.z, val) for _, v in p.cases):
            raise Unsupported("minimum over several cases")
        key = (p.base.name, cond.sexpr(), z3.simplify(val).sexpr())
        if key not in MINS:
            m, w = z3.Real(f"minimum!{len(MINS)}"), z3.Int(f"closest!{len(MINS)}")
            MINS[key] = (m, w, p.base, cond, val)
        m, w, b, cond, val = MINS[key]
        assume(z3.And(w >= 0, w < b.n, b.at(cond, w), m == b.at(val, w), m >= 0))      # attained
        return SNum(m)
    return min(*a, **k)


def setup():
    poly.reset()
    MINS.clear()
    shim_for(nx.set_node_attributes, _set_attrs)
    shim_for(itertools.product, _product)
    shim_for(itertools.combinations, _combinations)
    shim_for(math.dist, _dist)
    shim_for(min, _min)
    g = SGraph()
    assume(g.s.base.n >= 1)
    return g


_set0 = VC.shims.get(id(set), set)
VC.shim(set, lambda *a: a[0].__vc_set__() if a and isinstance(a[0], Nodes) else _set0(*a))
_tuple0 = VC.shims.get(id(tuple), tuple)


def register(g, dev=None):
    r = Register.__new__(Register)
    r.graph, r.device_specs = g, dev
    return r


def at(g, j):
    return g.pos(j)


def pos_claim(label, g, kx, ky):
    j = g.s.base.idx
    x, y = g.pos(j)
    return z3_valid(label, z3.And(x.z == kx(X(j)), y.z == ky(Y(j))), assumptions=list(VC.ex.pc))


# ---------------------------------------------------------------- scaling
@obligation(P, "_scale_node_positions/any graph", [FR + "_scale_node_positions"])
def _():
    g = setup()
    m, s = z3.Real("m"), z3.Real("s")
    assume(m != 0)
    r = RG._scale_node_positions(g, SNum(m), SNum(s))
    return [holds("in place", r is None), pos_claim("every position is multiplied by spacing / minimum distance", g, lambda v: v * s / m, lambda v: v * s / m)]


@obligation(P, "rescale_coords/any register and factor", [FR + "Register.rescale_coords", FR + "_scale_node_positions", FR + "Register.__init__"])
def _():
    g = setup()
    k = z3.Real("k")
    dev = RG.IdealDevice()
    r = register(g, dev)
    q = r.rescale_coords(SNum(k))
    return [pos_claim("every coordinate is multiplied by the factor", q.graph, lambda v: v * k, lambda v: v * k), holds("same nodes and edges", q.graph.s is g.s), holds("same device", q.device_specs is dev),
            holds("the register itself is unchanged", r.graph is g and g.untouched() and r.device_specs is dev), holds("independent graph", q.graph is not g)]


# ---------------------------------------------------------------- construction
@obligation(P, "Register/any graph and spacing", [FR + "Register.__init__", FR + "_scale_node_positions", FR + "Register.min_distance", FR + "Register.distances"])
def _():
    g = setup()
    s = z3.Real("s")
    dev = RG.IdealDevice()
    r = Register(g, SNum(s), dev)
    out = [holds("the graph handed over is unchanged", g.untouched() and r.graph is not g), holds("same nodes and edges", r.graph.s is g.s), holds("device", r.device_specs is dev)]
    if not MINS:
        return out + [pos_claim("no pair of qubits: coordinates unchanged", r.graph, lambda v: v, lambda v: v)]
    if len(MINS) != 1:
        return out + [Claim("one minimum", "unknown")]
    ((m, w, b, cond, val),) = MINS.values()
    C, D = g.s.C(w), g.s.D(w)
    want = z3.If(m == 0, z3.RealVal(1), s / m)
    return out + [z3_valid("the minimum is that of the reported distances", z3.And(LABEL(C) < LABEL(D), m == DIST(X(C), Y(C), X(D), Y(D))), assumptions=list(VC.ex.pc) + sym(w, g)),
                  pos_claim("coordinates are those of the graph times spacing / minimum distance", r.graph, lambda v: v * want, lambda v: v * want)]


def sym(w, g):
    a, b = g.s.C(w), g.s.D(w)
    return [DIST(X(a), Y(a), X(b), Y(b)) == DIST(X(b), Y(b), X(a), Y(a))]


@obligation(P, "Register/no spacing", [FR + "Register.__init__"])
def _():
    g = setup()
    r = Register(g, None, RG.IdealDevice())
    return [holds("the graph handed over is unchanged", g.untouched()), pos_claim("coordinates unchanged", r.graph, lambda v: v, lambda v: v), holds("same nodes and edges", r.graph.s is g.s)]


for bad in ("ideal", 3, {"device": 1}):
    @obligation(P, f"Register/rejects {type(bad).__name__} as a device", [FR + "Register.__init__"])
    def _(bad=bad):
        g = setup()
        try:
            Register(g, 1.0, bad)
        except ValueError:
            return [holds("rejected", True)]
        return [holds("rejected", False)]


@obligation(P, "minimum distance/lemma: scaling by spacing over the minimum makes it the spacing", [FR + "_scale_node_positions"])
def _():
    poly.reset()
    x1, y1, x2, y2, k, d, e = z3.Reals("x1 y1 x2 y2 k d e")
    m, s, v = z3.Reals("m s v")
    homog = z3.Implies(z3.And(k >= 0, d >= 0, d * d == (x1 - x2) * (x1 - x2) + (y1 - y2) * (y1 - y2), e >= 0,
                              e * e == (k * x1 - k * x2) * (k * x1 - k * x2) + (k * y1 - k * y2) * (k * y1 - k * y2)), e * e == (k * d) * (k * d))
    sq = z3.Implies(z3.And(e >= 0, k * d >= 0, e * e == (k * d) * (k * d)), e == k * d)
    # minimum of the scaled distances: attained at the pair attaining m, and a lower bound since every distance v is at least m
    return [z3_valid("distances scale with the factor (squared)", homog), z3_valid("distances scale with the factor", sq),
            z3_valid("attained", z3.Implies(m > 0, (s / m) * m == s)), z3_valid("lower bound", z3.Implies(z3.And(m > 0, s >= 0, v >= m), (s / m) * v >= s))]


# ---------------------------------------------------------------- observation
@obligation(P, "coords/any register", [FR + "Register.coords", FR + "Register.nodes"])
def _():
    g = setup()
    c = register(g).coords
    b = g.s.base
    return [maps_same("exactly the position of each node", c, b, Node(g.s, b.idx), (SNum(X(b.idx)), SNum(Y(b.idx))))]


def maps_same(label, c, b, key, val, cond=TRUE):
    if isinstance(c, PDict):
        c = c.sym
    if not isinstance(c, SMap):
        return Claim(label, "unknown")
    r = seqs.list_eq(c.pairs, SList([Piece(b, [(cond, (key, val))])]))
    if r:
        return Claim(label, "proved", None, "z3")
    (p,) = c.pairs.items
    if p.base is not b:
        return Claim(label, "unknown", str(c.pairs))
    # the entries differ: exhibit an element
    for cc, (k, v) in p.cases:
        if not seqs.val_eq(k, key) and not (isinstance(k, Pair) and k.__vc_same__(key)):
            return Claim(label, "unknown", f"keys {k}")
        xs, ys = (v, val) if isinstance(v, tuple) else ((v,), (val,))
        if len(xs) != len(ys) or not all(isinstance(x, SNum) for x in xs):
            return Claim(label, "unknown", f"values {v}")
        r, m = solve_valid(z3.Implies(z3.And(*b.dom(), cc), z3.And(cond, *[x.z == y.z for x, y in zip(xs, ys)])))
        if r is not True:
            return Claim(label, "refuted" if r is False else "unknown", str(m)[:600], "z3")
    r, m = solve_valid(z3.Implies(z3.And(*b.dom(), cond), z3.Or([cc for cc, _ in p.cases])))
    return Claim(label, {True: "proved", False: "refuted", None: "unknown"}[r], None if r else str(m)[:600], "z3")


def solve_valid(f):
    from pyvc import solve
    return solve.valid(f, list(VC.ex.pc))


@obligation(P, "all_node_pairs/any register", [FR + "Register.all_node_pairs", FR + "Register.support"])
def _():
    g = setup()
    l = register(g).all_node_pairs
    b = g.s.pairs
    e = b.elem(b.idx)
    return [same("the pairs (a, b) with a before b, each once", l, SList([Piece(b, [(LABEL(e[0].j) < LABEL(e[1].j), e)])]))]


def distance(e, g):
    (a, b) = (n.j for n in e)
    return SNum(DIST(X(a), Y(a), X(b), Y(b)))


@obligation(P, "distances/any register", [FR + "Register.distances", FR + "Register.all_node_pairs", FR + "Register.coords"])
def _():
    g = setup()
    b = g.s.pairs
    e = b.elem(b.idx)
    assume(z3.And(*[z3.And(n.j >= 0, n.j < g.s.base.n) for n in e]))
    assume(sym(b.idx, g)[0])
    return [maps_same("for exactly the pairs: the distance of the coordinates of that pair", register(g).distances, b, e, distance(e, g), LABEL(e[0].j) < LABEL(e[1].j))]


@obligation(P, "edge_distances/any register", [FR + "Register.edge_distances", FR + "Register.edges", FR + "Register.coords"])
def _():
    g = setup()
    b = g.s.edges
    e = b.elem(b.idx)
    a, c = (n.j for n in e)
    assume(z3.And(*[z3.And(n.j >= 0, n.j < g.s.base.n) for n in e]))
    assume(DIST(X(a), Y(a), X(c), Y(c)) == DIST(X(c), Y(c), X(a), Y(a)))
    return [maps_same("for exactly the edges: the distance of the coordinates of its ends", register(g).edge_distances, b, e, distance(e, g))]


@obligation(P, "min_distance/any register", [FR + "Register.min_distance", FR + "Register.distances"])
def _():
    g = setup()
    v = register(g).min_distance
    if not MINS:
        b = g.s.pairs
        e = b.elem(b.idx)
        return [holds("no pairs: zero", isinstance(v, float) and v == 0.0), z3_valid("only without pairs", z3.Not(z3.And(*b.dom(), LABEL(e[0].j) < LABEL(e[1].j))), assumptions=list(VC.ex.pc))]
    if len(MINS) != 1 or not isinstance(v, SNum):
        return [Claim("one minimum", "unknown")]
    ((m, w, b, cond, val),) = MINS.values()
    a, c = g.s.C(b.idx), g.s.D(b.idx)
    return [holds("the minimum", z3.eq(v.z, m)), z3_valid("over exactly the pairs", cond == (LABEL(a) < LABEL(c)), assumptions=list(VC.ex.pc)),
            z3_valid("of their distances", val == DIST(X(a), Y(a), X(c), Y(c)), assumptions=list(VC.ex.pc) + sym(b.idx, g))]


@obligation(P, "n_qubits, nodes, edges, support, indexing/any register", [FR + "Register.n_qubits", FR + "Register.nodes", FR + "Register.edges", FR + "Register.support", FR + "Register.__getitem__"])
def _():
    g = setup()
    r = register(g)
    n = r.n_qubits
    j = z3.Int("j")
    a = r[Node(g.s, j)]
    return [z3_valid("number of nodes", n.z == g.s.base.n, assumptions=list(VC.ex.pc)), holds("nodes", isinstance(r.nodes, Nodes) and r.nodes.gr is g), holds("edges", isinstance(r.edges, Edges) and r.edges.s is g.s),
            holds("support", isinstance(r.support, NodeSet) and r.support.s is g.s), holds("attributes of that node", isinstance(a, Attr) and a.gr is g and z3.eq(a.j, j))]


# ---------------------------------------------------------------- graphs built by qadence
class Building:
    """a graph under construction: what is added, for which elements"""
    def __init__(self):
        self.log = []
    def _add(self, *e):
        if repr(e) not in map(repr, self.log):        # adding the same node or edge again changes nothing
            self.log.append(e)
    def add_node(self, n, **at):
        self._add("node", n, at, list(VC.ex.pc))
    def add_edge(self, a, b, **at):
        self._add("edge", a, b, list(VC.ex.pc))


class Cls:
    """stands for the class of the register being built: records what the constructor hands over"""
    def __init__(self):
        self.calls = []
    def __call__(self, *a, **k):
        import inspect
        b = inspect.signature(Register.__init__).bind(None, *a, **k)
        b.apply_defaults()
        self.calls.append(b.arguments)
        return self
    def got(self):
        if len(self.calls) != 1:
            raise Unsupported("several registers built")
        return self.calls[0]


@obligation(P, "from_coordinates/any list of coordinates", [FR + "Register.from_coordinates"])
def _():
    setup()
    base = Base("coordinates", lambda j: (SNum(X(j)), SNum(Y(j))))
    shim_for(nx.Graph, Building)
    c, s, dev = Cls(), SNum(z3.Real("s")), RG.IdealDevice()
    coords = SList([raw_piece(base)])
    Register.from_coordinates.__func__(c, coords, spacing=s, device_specs=dev)
    got = c.got()
    g = got["support"]
    if not isinstance(g, Building):
        return [Claim("graph", "unknown")]
    out = [holds("spacing and device handed over", got["spacing"] is s and got["device_specs"] is dev)]
    if len(g.log) != 1 or g.log[0][0] != "node":
        return out + [Claim("one node per coordinate", "unknown", str(g.log)[:300])]
    _, n, at, pc = g.log[0]
    out.append(z3_valid("node i", n.z == base.idx if isinstance(n, SNum) else z3.BoolVal(False), assumptions=pc))
    out.append(z3_valid("for every coordinate", z3.Implies(z3.And(*VC.ex.pc, *base.dom()), z3.And(*pc))))
    p = at.get("pos")
    ok = list(at) == ["pos"] and isinstance(p, tuple) and len(p) == 2
    out.append(z3_valid("at coordinate i", z3.And(p[0].z == X(base.idx), p[1].z == Y(base.idx)), assumptions=pc) if ok else holds("at coordinate i", None))
    return out


@obligation(P, "line_graph/any number of qubits", [FR + "line_graph"])
def _():
    setup()
    shim_for(nx.Graph, Building)
    n = z3.Int("n")
    assume(n >= 1)
    g = RG.line_graph(SNum(n))
    if not isinstance(g, Building):
        return [Claim("graph", "unknown")]
    nodes, edges = [x for x in g.log if x[0] == "node"], [x for x in g.log if x[0] == "edge"]
    t = z3.Int("t")
    out = []
    ok = len(nodes) == 1 and len(edges) <= 1 and len(nodes) + len(edges) == len(g.log)
    if not ok:
        return [Claim("one node and one edge per step", "unknown", str(g.log)[:300])]
    _, k, at, pc = nodes[0]
    dom = z3.And(*pc)
    fv = loopvar(pc)
    out.append(z3_valid("nodes are exactly 0 .. n-1", z3.ForAll([t], z3.Exists([fv], z3.And(dom, k.z == t)) == z3.And(t >= 0, t < n)), assumptions=free_of(fv, pc)))
    p = at.get("pos")
    if isinstance(p, tuple) and len(p) == 2 and list(at) == ["pos"]:
        x, y = (lift2(v) for v in p)
        step = lambda e: z3.substitute(e, (fv, fv + 1)) - e
        u = z3.Int("u")
        out.append(z3_valid("consecutive nodes are one constant nonzero step apart", z3.And(step(k.z) == 1, z3.Or(step(x) != 0, step(y) != 0), *[step(e) == z3.substitute(step(e), (fv, u)) for e in (x, y)]), assumptions=pc))
    else:
        out.append(holds("position", None))
    if edges:
        _, a, b, pc = edges[0]
        fv = loopvar(pc)
        out.append(z3_valid("edges join neighbours", z3.Or(b.z == a.z + 1, a.z == b.z + 1), assumptions=pc))
        lo = z3.If(a.z < b.z, a.z, b.z)
        out.append(z3_valid("one edge per i < n-1", z3.ForAll([t], z3.Exists([fv], z3.And(z3.And(*pc), lo == t)) == z3.And(t >= 0, t < n - 1)), assumptions=free_of(fv, pc)))
    else:
        out.append(z3_valid("no edges only for one qubit", n == 1, assumptions=list(VC.ex.pc)))
    return out


def lift2(x):
    if isinstance(x, SNum):
        return z3.ToReal(x.z) if x.z.sort() == z3.IntSort() else x.z
    return z3.RealVal(x)


def free_of(v, pc):
    def occurs(e):
        return z3.eq(e, v) or any(occurs(c) for c in e.children())
    return [f for f in pc if not occurs(f)]


def loopvar(pc):
    vs = set()
    def walk(e):
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and str(e).startswith("i["):
            vs.add(e)
        for c in e.children():
            walk(c)
    for f in pc:
        walk(f)
    if len(vs) != 1:
        raise Unsupported("loop variable")
    return vs.pop()


CT = {"line": ("line_graph", 1), "all_to_all": ("alltoall_graph", 1), "triangular_lattice": ("triangular_lattice_graph", 2)}
for name, (fn, na) in CT.items():
    @obligation(P, f"{name}/hands its graph, spacing and device over", [FR + "Register." + name])
    def _(name=name, fn=fn, na=na):
        setup()
        args = [SNum(z3.Int(f"n{i}")) for i in range(na)]
        made = object()
        shim_for(getattr(RG, fn), lambda *a: made if len(a) == na and all(x is y for x, y in zip(a, args)) else object())
        c, s, dev = Cls(), SNum(z3.Real("s")), RG.IdealDevice()
        getattr(Register, name).__func__(c, *args, spacing=s, device_specs=dev)
        got = c.got()
        return [holds("the graph of that size", got["support"] is made), holds("spacing", got["spacing"] is s), holds("device", got["device_specs"] is dev)]


def finite(name, args, nq, edges):
    @obligation(P, f"{name}{args}/graph of the right shape, spacing and device handed over", [FR + "Register." + name])
    def _():
        setup()
        c, s, dev = Cls(), SNum(z3.Real("s")), RG.IdealDevice()
        getattr(Register, name).__func__(c, *args, spacing=s, device_specs=dev)
        got = c.got()
        g = got["support"]
        E = {tuple(sorted(e)) for e in g.edges}
        out = [holds("spacing", got["spacing"] is s), holds("device", got["device_specs"] is dev), holds("nodes in order", list(g.nodes) == list(range(len(g))))]
        if nq is not None:
            out.append(holds("number of qubits", len(g) == nq))
        if edges is not None:
            out.append(holds("edges", E == edges))
        ps = {i: tuple(float(v) for v in a["pos"]) for i, a in g.nodes.items()}
        ds = [math.dist(ps[a], ps[b]) for a, b in E]
        al = [math.dist(ps[a], ps[b]) for a in ps for b in ps if a < b]
        out.append(holds("every edge has the minimum distance", all(abs(d - min(al)) < 1e-6 for d in ds)))
        return out


def ring(n):
    return {tuple(sorted((i, (i + 1) % n))) for i in range(n)} if n > 2 else {(0, 1)} if n == 2 else set()


for n in range(2, 8):
    finite("circle", (n,), n, ring(n))
for k in range(1, 5):
    finite("square", (k,), max(1, 4 * (k - 1)), ring(max(1, 4 * (k - 1))))
for a, b in itertools.product(range(1, 4), repeat=2):
    finite("rectangular_lattice", (a, b), a * b, None)
    finite("triangular_lattice", (a, b), None, None)
    finite("honeycomb_lattice", (a, b), None, None)

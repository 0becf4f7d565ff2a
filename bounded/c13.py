"""C13 at run time: registers of every constructor against an independent computation of their geometry."""
from bounded.gen import *
from bounded.run import Skip
import itertools, math
from copy import deepcopy
import networkx as nx
import numpy as np
from qadence.analog import IdealDevice, RydbergDevice, RealisticDevice
from qadence.register import Register
from qadence.types import LatticeTopology

BOUND = ("every constructor with sizes up to 12 qubits (lattices up to 4 x 4 cells), spacings None and five values from 0.05 to 12.5, three devices; custom graphs and coordinate lists with integer, float, "
         "numpy and list-valued positions, negative coordinates, and nodes without positions; rescaling by six factors, repeated; two registers built from the same graph")
SP = [0.05, 1.0, 0.3, 2.0, 12.5]
DEV = [IdealDevice(), RealisticDevice(), IdealDevice()]


def geometry(ctx, r, what):
    c = {i: tuple(float(x) for x in r.graph.nodes[i].get("pos", ())) for i in r.graph.nodes}
    ctx.ok(r.n_qubits == len(c) == len(r.nodes) and r.support == set(c) and len(r.support) == len(c), f"{what}: number of qubits")
    got = r.coords
    ctx.ok(list(got) == list(c) and all(tuple(float(x) for x in got[i]) == c[i] for i in c), f"{what}: coordinates")
    if any(len(p) not in (0, 2) for p in c.values()):
        return c
    pairs = {(i, j) for i in c for j in c if i < j}
    ctx.ok(set(map(tuple, r.all_node_pairs)) == pairs and len(list(r.all_node_pairs)) == len(pairs), f"{what}: pairs {sorted(pairs)[:4]}")
    d = r.distances
    ctx.ok(set(d) == pairs, f"{what}: distances for exactly the pairs")
    for (i, j), x in d.items():
        ctx.ok(abs(x - math.hypot(*(a - b for a, b in zip(c[i], c[j])))) <= 1e-9 * max(1, x) if c[i] else x == 0, f"{what}: distance of {i}, {j}")
    e = r.edge_distances
    ctx.ok(set(e) == set(r.edges), f"{what}: edge distances for exactly the edges")
    for (i, j), x in e.items():
        ctx.ok(abs(x - math.hypot(*(a - b for a, b in zip(c[i], c[j])))) <= 1e-9 * max(1, x) if c[i] else x == 0, f"{what}: edge distance of {i}, {j}")
    m = min(d.values(), default=0.0)
    ctx.ok(r.min_distance == m, f"{what}: minimum distance")
    for i in c:
        for j in r.graph.neighbors(i):
            ctx.ok(i in set(r.graph.neighbors(j)), f"{what}: neighbours are symmetric")
    return c


CTORS = {
    "line": ([(n,) for n in range(1, 13)], lambda n: n, lambda n: {(i, i + 1) for i in range(n - 1)}),
    "circle": ([(n,) for n in range(2, 13)], lambda n: n, lambda n: {tuple(sorted((i, (i + 1) % n))) for i in range(n)} if n > 2 else {(0, 1)}),
    "square": ([(n,) for n in range(1, 6)], lambda s: max(1, 4 * (s - 1)), lambda s: {tuple(sorted((i, (i + 1) % (4 * s - 4)))) for i in range(4 * s - 4)}),
    "all_to_all": ([(n,) for n in range(1, 11)], lambda n: n, lambda n: {(i, j) for i in range(n) for j in range(i + 1, n)}),
    "rectangular_lattice": ([(a, b) for a in range(1, 5) for b in range(1, 5)], lambda a, b: a * b, None),
    "triangular_lattice": ([(a, b) for a in range(1, 5) for b in range(1, 5)], None, None),
    "honeycomb_lattice": ([(a, b) for a in range(1, 4) for b in range(1, 4)], None, None),
}


def build(ctx, name, args, spacing, dev, via):
    kw = {"device_specs": dev}
    if spacing != "default":
        kw["spacing"] = spacing
    what = f"{name}{args} spacing {spacing}"
    if via == "lattice":
        r = Register.lattice(name, *args, **kw)
    elif via == "int":
        r = Register(args[0], **kw)
    else:
        r = getattr(Register, name)(*args, **kw)
    c = geometry(ctx, r, what)
    _, count, edges = CTORS[name]
    n = r.n_qubits
    ctx.ok(list(c) == list(range(n)), f"{what}: qubits are labelled in order")
    if count:
        ctx.ok(n == count(*args), f"{what}: {n} qubits instead of {count(*args)}")
    E = {tuple(sorted(e)) for e in r.edges}
    if edges:
        ctx.ok(E == edges(*args), f"{what}: edges")
    ctx.ok(r.device_specs is dev, f"{what}: device")
    if spacing is not None and n > 1:
        s = 1.0 if spacing == "default" else spacing
        ctx.ok(abs(r.min_distance - s) <= 1e-9 * s, f"{what}: minimum distance {r.min_distance}")
        if name not in ("all_to_all",):
            for (i, j), x in r.edge_distances.items():
                ctx.ok(abs(x - s) <= 1e-6 * s, f"{what}: edge {i}, {j} has length {x}")
    if name in ("triangular_lattice", "honeycomb_lattice"):
        ctx.ok(nx.is_connected(r.graph) and n - len(E) + args[0] * args[1] == 1, f"{what}: number of cells")
    if name == "rectangular_lattice":
        a, b = args
        ctx.ok(len(E) == a * (b - 1) + b * (a - 1), f"{what}: edges of the grid")
    rescale(ctx, r, 1.7, what)


def snapshot(r):
    return ({i: tuple(map(float, n.get("pos", ()))) for i, n in r.graph.nodes.items()}, list(r.graph.edges), [dict(r.graph.edges[e]) for e in r.graph.edges], r.device_specs)


def rescale(ctx, r, k, what):
    before = snapshot(r)
    q = r.rescale_coords(k)
    ctx.ok(snapshot(r) == before, f"{what} rescaled by {k}: the original changed")
    ctx.ok(list(q.nodes) == list(r.nodes) and {frozenset(e) for e in q.edges} == {frozenset(e) for e in r.edges} and q.device_specs == r.device_specs, f"{what} rescaled by {k}: nodes, edges, device")
    for i, p in before[0].items():
        ctx.ok(all(abs(x - k * y) <= 1e-9 * max(1, abs(x)) for x, y in zip(q.coords[i], p)) and len(q.coords[i]) == len(p), f"{what} rescaled by {k}: coordinates of {i}")
    geometry(ctx, q, what + f" rescaled by {k}")
    ctx.ok(not any(q.graph.nodes[i] is r.graph.nodes[i] for i in r.nodes), f"{what}: shares nodes with its rescaled copy")
    return q


def custom(ctx, coords, spacing, edges, dev, how):
    what = f"custom {how} {coords} spacing {spacing}"
    keep = deepcopy(coords)
    if how == "coords":
        kw = {} if spacing == "default" else {"spacing": spacing}
        r = Register.from_coordinates(coords, device_specs=dev, **kw)
        s = None if spacing == "default" else spacing
        ctx.ok(not r.edges, f"{what}: no edges")
    else:
        g = nx.Graph()
        for i, p in enumerate(coords):
            g.add_node(i, pos=p)
        g.add_edges_from(edges)
        before = deepcopy(dict(g.nodes(data=True))), list(g.edges)
        kw = {} if spacing == "default" else {"spacing": spacing}
        r = Register(g, device_specs=dev, **kw)
        s = 1.0 if spacing == "default" else spacing
        ctx.ok(same(dict(g.nodes(data=True)), before[0]) and list(g.edges) == before[1], f"{what}: the graph handed over changed")
        ctx.ok({frozenset(e) for e in r.edges} == {frozenset(e) for e in edges}, f"{what}: edges")
        c0 = r.coords
        r2 = Register(g, spacing=7.0)
        ctx.ok(r.coords == c0, f"{what}: a second register of the same graph moves the first")
    ctx.ok(all(np.array_equal(np.asarray(a), np.asarray(b)) for a, b in zip(coords, keep)), f"{what}: the coordinates handed over changed")
    ctx.ok(r.n_qubits == len(coords) and r.device_specs is dev, f"{what}: qubits, device")
    geometry(ctx, r, what)
    P = np.array([[float(x) for x in p] for p in coords])
    m = min((float(np.linalg.norm(P[i] - P[j])) for i in range(len(P)) for j in range(i)), default=0.0)
    k = 1.0 if s is None or m == 0 else s / m
    for i in range(len(P)):
        ctx.ok(np.allclose(np.array(r.coords[i], dtype=float), k * P[i], rtol=1e-9, atol=1e-12), f"{what}: coordinates of {i} are a uniform rescaling")
    if s is not None and m > 0:
        ctx.ok(abs(r.min_distance - s) <= 1e-9 * s, f"{what}: minimum distance")
    q = r
    for f in (0.5, 3.0, 1.0):
        q = rescale(ctx, q, f, what)


def same(a, b):
    return a.keys() == b.keys() and all(a[k].keys() == b[k].keys() and all(np.array_equal(np.asarray(a[k][x]), np.asarray(b[k][x])) for x in a[k]) for k in a)


def nopos(ctx):
    g = nx.path_graph(4)
    r = Register(g)
    ctx.ok(r.n_qubits == 4 and r.coords == {i: () for i in range(4)} and len(r.edges) == 3, "graph without positions")
    geometry(ctx, r, "graph without positions")


def bad_device(ctx):
    for d in ("ideal", 3, {}):
        try:
            Register(2, device_specs=d)
        except ValueError:
            continue
        ctx.ok(False, f"{d!r} accepted as a device")


def run(ctx):
    for name, (argl, _, _) in CTORS.items():
        for a in argl:
            for i, s in enumerate(["default", None] + (SP if ctx.thorough else SP[:1] + SP[3:])):
                ctx.case(f"{name}/{'x'.join(map(str, a))}/{s}", build, ctx, name, a, s, DEV[i % 3], ("method", "lattice", "int" if name == "all_to_all" else "method")[i % 3])
    for i in range(ctx.n(150, 3000)):
        rng = ctx.rng(f"c{i}")
        n = rng.randrange(1, 6)
        pts = rng.sample([(x, y) for x in range(-3, 4) for y in range(-3, 4)], n)
        form = rng.choice([lambda p: p, lambda p: (p[0] / 3, p[1] / 7 + .1), lambda p: np.array(p, dtype=float), list, lambda p: (p[0] * 1e-6, p[1] * 1e-6)])
        coords = [form(p) for p in pts]
        edges = [e for e in itertools.combinations(range(n), 2) if rng.random() < .5]
        ctx.case(f"custom/{i}", custom, ctx, coords, rng.choice(["default", None] + SP), edges, rng.choice(DEV), rng.choice(["coords", "graph"]))
    for i, k in enumerate([0.1, 2, -1.0, 0.0, 1e3, 1]):
        ctx.case(f"rescale/{i}", rescale, ctx, Register.triangular_lattice(1, 2, spacing=4.0, device_specs=RealisticDevice()), k, "triangular")
    ctx.case("graph without positions", nopos, ctx)
    ctx.case("device", bad_device, ctx)

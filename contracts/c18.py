"""C18: feature maps and ansatze consist of exactly the documented gates."""
from pyvc.kit import *
from pyvc import seqs
from pyvc.seqs import SList, Base, Piece, raw_piece, same, val_eq
import z3, sympy, itertools, math
from qadence import operations as O
from qadence.types import BasisSet, ReuploadScaling
FM = mod("qadence.constructors.feature_maps")
HE = mod("qadence.constructors.hea")
AL = mod("qadence.constructors.ala")
II = mod("qadence.constructors.iia")

P = "C18"
F1, FH, FA, FI = "qadence.constructors.feature_maps.", "qadence.constructors.hea.", "qadence.constructors.ala.", "qadence.constructors.iia."
ASSUMES = ["kron and chain of blocks are their tensor product and product in order (C01, C04, C08)", "itertools.count yields different numbers", "FeatureParameter / VariationalParameter make a symbol of the given name which is / is not an input",
           "range arithmetic in real numbers; ranges have two different ends"]
TRUSTED = ["z3", "sympy"]
TRUE = z3.BoolVal(True)


def shim_for(fn, new):
    old = VC.shims.get(id(fn))
    VC.shim(fn, new)
    VC.ex.undo.append(lambda: VC.shims.__setitem__(id(fn), old) if old is not None else VC.shims.pop(id(fn), None))


# ------------------------------------------------------------------ data ranges
BASES = {"Fourier": BasisSet.FOURIER, "Chebyshev": BasisSet.CHEBYSHEV, "Fourier, by name": "Fourier", "Chebyshev, by name": "Chebyshev", "custom": lambda v: sympy.Function("f")(v)}
DEF = {"F": (0, 2 * sympy.pi), "C": (-1, 1), "c": (0, 1)}


def interval(nm, up):
    lo = sympy.Symbol(nm + "_lo", real=True)
    hi = lo + sympy.Symbol(nm + "_len", positive=True)
    return (lo, hi) if up else (hi, lo)


for bn, fm in BASES.items():
    for fr, tr in itertools.product(("default", "given", "given reversed"), repeat=2):
        @obligation(P, f"data range/{bn}/{fr} to {tr}", [F1 + "fm_parameter_scaling", F1 + "_set_range"])
        def _(bn=bn, fm=fm, fr=fr, tr=tr):
            a = None if fr == "default" else interval("feature", fr == "given")
            b = None if tr == "default" else interval("target", tr == "given")
            def close(u, v, rel_tol=1e-9, abs_tol=0., **k):
                d = sympy.simplify(sympy.nsimplify(sympy.sympify(u) - v))
                tol = max(rel_tol * abs(v), abs_tol)
                if d.is_number:
                    return bool(abs(sympy.N(d)) < tol)
                if tol > 1e-8:  # a wide tolerance: a number within it, but not the same
                    d = d - sympy.nsimplify(tol) / 2
                if VC.ex.choose(2, "factor one") == 0:
                    return False
                for s, val in sympy.solve(d, sorted(d.free_symbols, key=str)[-1], dict=True)[0].items():
                    one[s] = val
                return True
            one = {}
            old = FM.PI
            FM.PI = sympy.pi
            VC.ex.undo.append(lambda: setattr(FM, "PI", old))
            shim_for(FM.isclose, close)
            given = VC.ex.choose(2, "a parameter")
            p = Parameter("x", value=.2, trainable=True) if given else "x"
            r = sympy.sympify(FM.fm_parameter_scaling(fm, p, feature_range=a, target_range=b))
            xs = [s for s in r.free_symbols if s.name == "x"]
            fa = a or tuple(map(sympy.nsimplify, DEF[bn[0]]))
            ta = b or tuple(map(sympy.nsimplify, DEF[bn[0]]))
            if len(xs) != 1:
                return [holds("depends on the feature", False, str(r))]
            lo, hi = (fa[1], fa[0]) if fr == "given reversed" else fa
            tlo, thi = (ta[1], ta[0]) if tr == "given reversed" else ta
            fix = lambda e: sympy.nsimplify(sympy.sympify(e).subs(one), [sympy.pi], tolerance=1e-12)
            return [vanish("the lower end goes to the lower end", [fix(r.subs(xs[0], lo) - tlo)]), vanish("the upper end goes to the upper end", [fix(r.subs(xs[0], hi) - thi)]),
                    vanish("affine", [sympy.diff(r, xs[0], 2)]), holds("an input, not a trained parameter", xs[0].trainable is False)]


@obligation(P, "encoding functions", [F1 + "fm_parameter_func"])
def _():
    x = sympy.Symbol("x")
    out = []
    for bn, fm in BASES.items():
        want = x if bn[0] == "F" else sympy.acos(x) if bn[0] == "C" else sympy.Function("f")(x)
        out.append(vanish(bn, [FM.fm_parameter_func(fm)(x) - want]))
    try:
        FM.fm_parameter_func("other")
        out.append(holds("unknown names are rejected", False))
    except NotImplementedError:
        out.append(holds("unknown names are rejected", True))
    return out


@obligation(P, "scaling of repeated data", [F1 + "fm_reupload_scaling_fn"])
def _():
    out = []
    for k, want in ((ReuploadScaling.CONSTANT, lambda i: 1), ("Constant", lambda i: 1), (ReuploadScaling.TOWER, lambda i: i + 1), ("Tower", lambda i: i + 1), (ReuploadScaling.EXP, lambda i: 2 ** i), ("Exponential", lambda i: 2 ** i)):
        f, tag = FM.fm_reupload_scaling_fn(k)
        if want(3) != 8:
            i = fresh_int("i")
            assume(i.z >= 0)
            out.append(z3_valid(f"{k}", zlift(f(i)) == zlift(want(i)) if not isinstance(f(i), int) else z3.BoolVal(f(i) == 1), assumptions=list(VC.ex.pc)))
        out.append(holds(f"{k}: first values", all(float(f(i)) == want(i) for i in range(50))))
    g = lambda i: 3 * i
    out.append(holds("a function is used as it is", FM.fm_reupload_scaling_fn(g)[0] is g))
    return out


# ------------------------------------------------------------------ feature map on any number of qubits
class At:
    """an arbitrary object determined by an index"""
    def __init__(self, nm, j=None):
        self.nm, self.j = nm, j
    def __vc_same__(self, o):
        return type(o) is type(self) and o.nm == self.nm and (self.j is o.j or (self.j is not None and o.j is not None and z3.eq(z3.simplify(self.j), z3.simplify(o.j))))
    def __vc_inst__(self, i, j):
        return type(self)(self.nm, z3.substitute(self.j, (i, j)))
    def __vc_key__(self, base):
        return z3.eq(self.j, base.idx)
    def __vc_fmt__(self):
        return f"<{self.nm} {self.j}>"
    __repr__ = __vc_fmt__


def numerals():
    """numbers may be written into names; different numbers give different names when a separator precedes them"""
    VC.numerals = True
    VC.ex.undo.append(lambda: setattr(VC, "numerals", False))


class Gate:
    def __init__(self, nm, qs, ps=()):
        self.nm, self.qs, self.ps = nm, tuple(qs), tuple(ps)
    def __vc_same__(self, o):
        return isinstance(o, Gate) and o.nm == self.nm and len(o.qs) == len(self.qs) and len(o.ps) == len(self.ps) and all(val_eq(a, b) for a, b in zip(self.qs + self.ps, o.qs + o.ps))
    def __repr__(self):
        return f"{self.nm}{self.qs}{self.ps}"


class Comp:
    """a tensor product or a product of parts, in order"""
    def __init__(self, kind, items):
        self.kind, self.tag = kind, None
        self.items = SList([x.info["piece"] if type(x) is Seg else x for x in items])
    def __len__(self):
        return len(self.items.items)
    def __iter__(self):
        if any(type(x) is Seg for x in self.items.items):
            raise Unsupported("iteration over a part of unknown length")
        return iter(self.items.items)


def kron_shim(module, nm="kron", kind="kron"):
    def k(*a):
        if len(a) == 1 and isinstance(a[0], (SList, list, tuple)) or (len(a) == 1 and hasattr(a[0], "__next__")):
            a = seqs.items_of(a[0]) if isinstance(a[0], SList) else list(a[0])
            c = Comp(kind, [])
            c.items = SList(list(a))
            return c
        return Comp(kind, a)
    shim_for(getattr(module, nm), k)


def index(i):
    return sympy.Symbol(f"[{i.z if isinstance(i, SNum) else i}]")


RS, FN, S0, MU = sympy.Function("rs"), sympy.Function("f"), sympy.Symbol("scaled"), Parameter("mu", value=.4)

for op, sup_given, pre, mu in itertools.product(("RX", "RY", "RZ", "PHASE"), (True, False), (None, "w"), (None, MU)):
    if op != "RX" and (pre or mu is not None):
        continue
    @obligation(P, f"feature map on any number of qubits/{op}/{'given' if sup_given else 'default'} support/{'trainable' if pre else 'plain'}/{'with' if mu is not None else 'without'} multiplier", [F1 + "feature_map"])
    def _(op=op, sup_given=sup_given, pre=pre, mu=mu):
        n = fresh_int("n")
        assume(n.z >= 1)
        numerals()
        cls = getattr(FM, op)
        shim_for(cls, lambda q, e: Gate(op, (q,), (e,)))
        calls = []
        shim_for(FM.fm_parameter_scaling, lambda fm, p, **k: calls.append((fm, p, k)) or S0)
        shim_for(FM.VariationalParameter, lambda nm, **k: sympy.Symbol("trainable " + nm))
        kron_shim(FM)
        fm, rs = (lambda v: FN(v)), (lambda i: RS(index(i)))
        if sup_given:
            b = Base("support", lambda j: At("qubit", j))
            assume(b.n == n.z)
            kw = dict(support=SList([raw_piece(b)]))
            qubit = lambda j: At("qubit", j)
        else:
            kw = {}
            qubit = lambda j: SNum(z3.simplify(j))
        if mu is not None:
            kw["multiplier"] = mu
        if pre:
            kw["param_prefix"] = pre
        r = FM.feature_map(n, param="x", op=cls, fm_type=fm, reupload_scaling=rs, feature_range=(1, 2), target_range=(3, 4), **kw)
        if not isinstance(r, Comp) or r.kind != "kron" or len(r.items.items) != 1 or not isinstance(r.items.items[0], Piece):
            raise Unsupported("another construction of the feature map")
        base = r.items.items[0].base
        i = base.idx
        arg = S0 if not pre else sympy.Symbol("trainable " + pre + "_" + SNum(i).__vc_fmt__()) * S0
        e = (1 if mu is None else mu) * RS(index(SNum(i))) * FN(arg)
        return [same("one rotation per qubit of the support, by multiplier, scaling and encoding", r.items, SList([Piece(base, [(TRUE, Gate(op, (qubit(i),), (e,)))])])),
                z3_valid("as many as qubits", base.n == n.z, assumptions=list(VC.ex.pc)),
                holds("the given ranges are used", len(calls) == 1 and calls[0][0] is fm and calls[0][1] == "x" and calls[0][2] == dict(feature_range=(1, 2), target_range=(3, 4)), str(calls))]


# ------------------------------------------------------------------ hardware efficient ansatz on any number of qubits
class Numbers:
    """itertools.count(): a different number at every call"""
    def __init__(self):
        self.k = 0
    def number(self):
        self.k += 1
        return At(f"number {self.k}", seqs.INSIDE[-1].idx if seqs.INSIDE else None)


def counting():
    made = []
    shim_for(itertools.count, lambda *a: made.append(Numbers()) or made[-1])
    shim_for(next, lambda it, *a: it.number() if isinstance(it, Numbers) else next(it, *a))
    return made


def opaque_gate(nm):
    return lambda *a: Gate(nm, [x for x in a if not isinstance(x, str)], [x for x in a if isinstance(x, str)])


def parts(r):
    """the runs of gates of a composition, in order"""
    if isinstance(r, Comp):
        out = []
        for x in r.items.items:
            if isinstance(x, Piece) and x.cases and all(isinstance(g, Gate) for _, g in x.cases):
                out.append(x)
            elif isinstance(x, (Comp, Gate)):
                out += parts(x)
            else:
                raise Unsupported("another composition")
        return out
    if isinstance(r, Gate):
        return [r]
    raise Unsupported("another composition")


class Pos:
    """the qubit at a position of the support"""
    def __init__(self, z):
        self.z = z
    def __repr__(self):
        return f"qubit at {self.z}"


class Support(tuple):
    """an arbitrary choice of n qubits"""
    def __new__(cls, n):
        r = tuple.__new__(cls, ())
        r.n = n
        return r
    def __vc_len__(self):
        return self.n
    def __getitem__(self, i):
        i, n = z_(i), z_(self.n)
        if not decide(z3.And(i >= -n, i < n)):
            raise IndexError("tuple index out of range")
        return Pos(z3.simplify(z3.If(i >= 0, i, i + n)))


def z_(x):
    return x.z if isinstance(x, (SNum, Pos)) else z3.IntVal(x)


def run_of(label, piece, nm, cond, qubits, n, named, seen, prefix):
    """the run consists of gate nm on qubits(j) for exactly the j of range(n) with cond(j), each with a number of its own in the name"""
    if not isinstance(piece, Piece):
        return [Claim(label, "unknown", "a single gate")]
    j = z3.Int("element")
    # index of the run -> number of the qubit: identity for range(n)
    i = piece.base.idx
    cs = [(z3.substitute(c, (i, j)), g) for c, g in piece.cases]
    ass = list(VC.ex.pc) + [j >= 0, j < piece.base.n]
    out = [z3_valid(f"{label}: for exactly the documented qubits", z3.And(piece.base.n == n, z3.Or([c for c, _ in cs]) == cond(j)), assumptions=ass)]
    before = []
    for c, g in cs:
        out.append(holds(f"{label}: gate", g.nm == nm, f"{g.nm} instead of {nm}"))
        qs = [z3.substitute(z_(q), (i, j)) if isinstance(q, (SNum, int, Pos)) else None for q in g.qs]
        if any(q is None for q in qs) or len(qs) != len(qubits(j)):
            return out + [Claim(label, "unknown", f"qubits {g.qs}")]
        out.append(z3_valid(f"{label}: qubits", z3.And([a == b for a, b in zip(qs, qubits(j))]), assumptions=ass + [z3.Not(x) for x in before] + [c]))
        before.append(c)
        if not named:
            out.append(holds(f"{label}: no parameter", not g.ps))
            continue
        ok = len(g.ps) == 1 and g.ps[0].startswith(prefix) and g.ps[0].endswith(f"<number {_no(g.ps[0])} {i}>")
        out.append(holds(f"{label}: its own parameter", True if ok else None, str(g.ps)))
        if ok:
            out.append(holds(f"{label}: not a parameter of another run", g.ps[0] not in seen, g.ps[0]))
            seen.add(g.ps[0])
            sepr = g.ps[0][:g.ps[0].index("<number")]
            out.append(holds(f"{label}: separator before the number", not sepr[-1:].isdigit(), sepr))
    return out


def _no(s):
    return s.split("<number ")[-1].split(" ")[0] if "<number " in s else "?"


def hea_setup(module):
    numerals()
    counting()
    kron_shim(module)
    kron_shim(module, "chain", "chain")
    n = fresh_int("n")
    return n


for depth, k in ((1, 1), (1, 3), (2, 2), (3, 1)):
    for M, F in ((HE, FH), (AL, FA)):
      for given in (True, False):
        @obligation(P, f"{'hea' if M is HE else 'ala'}/rotations on any number of qubits/depth {depth}, {k} operations, {'given' if given else 'default'} support", [F + "_rotations_digital"])
        def _(depth=depth, k=k, M=M, given=given):
            n = hea_setup(M)
            assume(n.z >= 1)
            ls = M._rotations_digital(n, depth, "pre", Support(n) if given else None, [opaque_gate(f"op{i}") for i in range(k)])
            out = [holds("one entry per layer", len(ls) == depth)]
            seen = set()
            for d, l in enumerate(ls):
                ps = parts(l)
                if len(ps) != k:
                    return out + [Claim("runs of gates", "unknown", str(ps))]
                for i, p in enumerate(ps):
                    out += run_of(f"layer {d}, operation {i}", p, f"op{i}", lambda j: z3.BoolVal(True), lambda j: [j], n.z, True, seen, "pre_")
            return out


for ent, per, depth in itertools.product(("CNOT", "CRX"), (False, True), (1, 2)):
    for size in ("one", "two", "even", "odd"):
        @obligation(P, f"hea/entanglers/{ent}/{'periodic' if per else 'open'}/depth {depth}/{size}{' number of' if size in ('even', 'odd') else ''} qubits", [FH + "_entanglers_digital", FH + "_entangler"])
        def _(ent=ent, per=per, depth=depth, size=size):
            n = hea_setup(HE)
            m = z3.Int("half")
            if size in ("one", "two"):
                n = 1 if size == "one" else 2
                nz = z3.IntVal(n)
            else:
                assume(n.z == 2 * m + (0 if size == "even" else 1))
                assume(n.z >= 3)
                nz = n.z
            cls = getattr(HE, ent)
            shim_for(cls, opaque_gate(ent))
            ls = HE._entanglers_digital(n, depth, "pre", Support(n), per, cls)
            out = [holds("one entry per layer", len(ls) == depth)]
            seen = set()
            for l in ls:
                ps = parts(l)
                want = []
                if size == "two":
                    out.append(holds("one gate between the two", len(ps) == 1 and isinstance(ps[0], (Piece, Gate))))
                    g = ps[0] if isinstance(ps[0], Gate) else ps[0].cases[0][1]
                    out.append(holds("on both qubits", [str(z3.simplify(z_(q))) for q in g.qs] == ['0', '1'] and g.nm == ent, str(g)))
                    continue
                if size == "one":
                    out.append(holds("nothing to link", not ps, str(ps)))
                    continue
                if len(ps) != (3 if per and size == "odd" else 2):
                    return out + [Claim("runs of links", "unknown", str(ps)[:300])]
                named = ent == "CRX"
                out += run_of("even links", ps[0], ent, lambda j: z3.And(j % 2 == 0, j < nz - 1), lambda j: [j, j + 1], nz, named, seen, "pre_ent_")
                hi = nz if per and size == "even" else nz - 1
                out += run_of("odd links", ps[1], ent, lambda j: z3.And(j % 2 == 1, j < hi), lambda j: [j, z3.If(j + 1 == nz, z3.IntVal(0), j + 1)], ps[1].base.n, named, seen, "pre_ent_")
                out.append(z3_valid("odd links: range", z3.And(ps[1].base.n <= nz, ps[1].base.n >= hi), assumptions=list(VC.ex.pc)))
                if per and size == "odd":
                    g = ps[2]
                    if not isinstance(g, Gate):
                        return out + [Claim("closing link", "unknown", str(g))]
                    out += [z3_valid("closing link", z3.And(z_(g.qs[0]) == nz - 1, z_(g.qs[1]) == 0), assumptions=list(VC.ex.pc)), holds("closing link: gate", g.nm == ent)]
                    if named:
                        out.append(holds("closing link: its own parameter", len(g.ps) == 1 and g.ps[0] not in seen, str(g.ps)))
                        seen.update(g.ps)
            return out


# ------------------------------------------------------------------ layers
def flat(r):
    if isinstance(r, Comp):
        out = []
        for x in r.items.items:
            if isinstance(x, Piece):
                raise Unsupported("another composition")
            out += flat(x)
        return out
    return [r]


def layers(nm, M, F, call, extra):
    for depth in (1, 2, 3):
        @obligation(P, f"{nm}/layers in order/depth {depth}", [F + f for f in extra])
        def _(depth=depth):
            kron_shim(M, "chain", "chain")
            shim_for(M.tag, lambda b, t: b)
            return call(depth)


def digital(M, entname, fn, kw):
    def call(depth):
        rot, ent = [At(f"rotations {d}") for d in range(depth)], [Comp("chain", [At(f"links {d}")]) for d in range(depth)]
        got = {}
        def r_(*a, **k):
            got["rot"] = dict(zip(("n_qubits", "depth", "param_prefix", "support", "operations"), a), **k)
            return list(rot)
        def e_(*a, **k):
            got["ent"] = dict(zip(("n_qubits", "m_block_qubits", "depth", "param_prefix", "support", "entangler") if M is AL else ("n_qubits", "depth", "param_prefix", "support", "periodic", "entangler"), a), **k)
            return list(ent)
        shim_for(M._rotations_digital, r_)
        shim_for(getattr(M, entname), e_)
        sup_, ops = (4, 7, 5), [O.RZ]
        r = fn(3, depth=depth, param_prefix="pre", support=sup_, operations=ops, entangler=O.CRY, **kw)
        want = [x for d in range(depth) for x in (rot[d], ent[d].items.items[0])]
        a, b = got.get("rot", {}), got.get("ent", {})
        return [holds("rotations, then links, layer by layer", [id(x) for x in flat(r)] == [id(x) for x in want], str(flat(r))),
                holds("rotations of the arguments", a.get("n_qubits") == 3 and a.get("depth") == depth and a.get("support") == sup_ and a.get("operations") == ops and str(a.get("param_prefix", "")).startswith("pre"), str(a)),
                holds("links of the arguments", b.get("n_qubits") == 3 and b.get("depth") == depth and b.get("support") == sup_ and b.get("entangler") is O.CRY and str(b.get("param_prefix", "")).startswith("pre") and all(b.get(k) == v for k, v in kw.items()), str(b))]
    return call


layers("hea", HE, FH, digital(HE, "_entanglers_digital", HE.hea_digital, dict(periodic=True)), ["hea_digital"])
layers("ala", AL, FA, digital(AL, "_entanglers_ala_block_digital", AL.ala_digital, dict(m_block_qubits=2)), ["ala_digital"])


for depth, given, own in itertools.product((1, 2, 3), (True, False), (True, False)):
    @obligation(P, f"hea/digital-analog/depth {depth}/{'given' if given else 'default'} support/{'own' if own else 'default'} Hamiltonian", [FH + "hea_sDAQC", FH + "_entanglers_analog"])
    def _(depth=depth, given=given, own=own):
        kron_shim(HE, "chain", "chain")
        shim_for(HE.tag, lambda b, t: b)
        rot = [At(f"rotations {d}") for d in range(depth)]
        shim_for(HE._rotations_digital, lambda *a, **k: list(rot))
        shim_for(HE.HamEvo, lambda g, t, *a, **k: ("evolution", g, t))
        H, H2 = At("Hamiltonian"), At("relabelled Hamiltonian")
        maps = []
        shim_for(HE.hamiltonian_factory, lambda n, interaction=None, **k: H if n == 3 and str(interaction) == "NN" and not k else At("another Hamiltonian"))
        if hasattr(HE, "reassign"):
            shim_for(HE.reassign, lambda b, m: maps.append(dict(m)) or (H2 if b is H else At("another")))
        shim_for(HE.block_is_qubit_hamiltonian, lambda b: True)
        mine = At("own Hamiltonian")
        kw = dict(entangler=mine) if own else {}
        if given:
            kw["support"] = (4, 7, 5)
        r = flat(HE.hea_sDAQC(3, depth=depth, param_prefix="pre", **kw))
        ev = [x for x in r if isinstance(x, tuple)]
        gen = mine if own else H2 if given else H
        if not own and given and not maps:
            raise Unsupported("relabelled another way")
        return [holds("rotations and evolutions alternate", len(r) == 2 * depth and all(r[2 * d] is rot[d] and isinstance(r[2 * d + 1], tuple) for d in range(depth)), str(r)),
                holds("generator", all(x[1] is gen for x in ev), str(ev)), holds("moved to the support", own or not given or maps[0] == {0: 4, 1: 7, 2: 5}, str(maps)),
                holds("different times", len({x[2] for x in ev}) == depth and all(str(x[2]).startswith("pre") for x in ev), str(ev))]


# ------------------------------------------------------------------ alternating layers, exhaustively for small sizes
def ala_links(n, m, d):
    first = 0 if d % 2 == 0 else -((m + 1) // 2)
    return [[(s + j, s + j + 1) for s in range(first, n, m) for j in range(par, m - 1, 2) if s + j >= 0 and s + j + 1 < n] for par in (0, 1)]


for n in range(1, 9):
    @obligation(P, f"ala/links of {n} qubits, every block size [fixed shape]", [FA + "_entanglers_ala_block_digital", FA + "_entangler"])
    def _(n=n):
        counting()
        kron_shim(AL)
        kron_shim(AL, "chain", "chain")
        out = []
        for m, ent in itertools.product(range(1, n + 2), ("CZ", "CRY")):
            shim_for(getattr(AL, ent), opaque_gate(ent))
            sup_ = tuple(f"q{i}" for i in range(n))
            cls = getattr(AL, ent)
            shim_for(cls, lambda a, b, *p, ent=ent: Gate(ent, (a, b), p))
            ls = AL._entanglers_ala_block_digital(n, m, 3, "pre", sup_, cls)
            names = []
            for d, l in enumerate(ls):
                gs = flat(l)
                names += [p for g in gs for p in g.ps]
                k = len(ala_links(n, m, d)[0])
                got = [tuple(g.qs) for g in gs]
                want = [[(sup_[a], sup_[b]) for a, b in x] for x in ala_links(n, m, d)]
                out.append(holds(f"blocks of {m}, layer {d}", set(got[:k]) == set(want[0]) and set(got[k:]) == set(want[1]) and len(got) == len(want[0]) + len(want[1]), str(got)))
                out.append(holds("parametric gates have parameters", all(len(g.ps) == (ent == "CRY") for g in gs)))
            out.append(holds("different parameters", len(set(names)) == len(names), str(names)))
            out.append(holds("layers", len(ls) == 3))
        return out


# ------------------------------------------------------------------ identity initialized ansatz
class Draw:
    """numbers drawn at random: any values"""
    def __init__(self, f, n):
        self.f, self.n = f, n
    def __rmul__(self, k):
        return Draw(lambda i: k * self.f(i), self.n)
    __mul__ = __rmul__
    def __neg__(self):
        return Draw(lambda i: -self.f(i), self.n)
    def __getitem__(self, i):
        if not 0 <= i < self.n:
            raise Unsupported("index")
        return self.f(i)
    def __len__(self):
        return self.n


class Par:
    def __init__(self, name, value=None, trainable=True, **k):
        self.name, self.value, self.trainable = name, value, trainable


for n, depth, ent, per in [(1, 2, "CNOT", False), (2, 1, "CRX", False), (2, 2, "CNOT", True), (3, 1, "CZ", True), (3, 2, "CRZ", False), (3, 2, "CPHASE", True), (2, 2, "evolution", False), (3, 1, "evolution", False), (12, 12, "CRX", True)]:
    for k in (1, 2, 3):
        if n == 12 and k != 2:
            continue
        @obligation(P, f"iia/{n} qubits, depth {depth}, {ent}{', periodic' if per else ''}, {k} rotations [fixed shape]", [FI + "identity_initialized_ansatz", FI + "_rotations", FI + "_entangler", FI + "_entangler_analog"])
        def _(n=n, depth=depth, ent=ent, per=per, k=k):
            import torch
            draws = []
            def rand(m, *a):
                draws.append(1)
                t = len(draws)
                return Draw(lambda i: sympy.Symbol(f"angle{t}_{i}"), m)
            shim_for(torch.rand, rand)
            shim_for(torch.zeros, lambda m, *a: Draw(lambda i: sympy.Integer(0), m))
            shim_for(II.Parameter, Par)
            kron_shim(II)
            def chain_(*a):
                a = list(a[0]) if len(a) == 1 and not isinstance(a[0], (Comp, Gate)) else list(a)
                return L(a)
            shim_for(II.chain, chain_)
            shim_for(II.tag, lambda b, tag=None: b)
            shim_for(reversed, lambda x: list(reversed(x.items.items)) if isinstance(x, Comp) else reversed(x))
            ops = [lambda target, parameter, i=i: Gate(f"op{i}", (target,), (parameter,)) for i in range(k)]
            shim_for(II.RX, lambda target, parameter: Gate("RX", (target,), (parameter,)))
            H = At("H")
            if ent == "evolution":
                shim_for(II.HamEvo, lambda generator, parameter: Gate("evolution", (generator,), (parameter,)))
                shim_for(II.block_is_qubit_hamiltonian, lambda b: True)
                r = II.identity_initialized_ansatz(n, depth, "pre", "sDAQC", ops, H)
            else:
                cls = getattr(II, ent)
                shim_for(cls, lambda c, t, *p: Gate(ent, (c, t), p))
                r = II.identity_initialized_ansatz(n, depth, "pre", "Digital", ops, cls, per)
            gs = flat(r)
            pairs = [(H,)] if ent == "evolution" else [(i, i + 1) for i in range(n - 1)] + ([(n - 1, 0)] if per else [])
            one = [(f"op{i}", (q,)) for i in range(k) for q in range(n)] + [(ent, p) for p in pairs] + [("RX", (q,)) for q in range(n)] + [(ent, p) for p in reversed(pairs)] + [(f"op{i}", (q,)) for i in reversed(range(k)) for q in range(n)]
            shape = [(g.nm, g.qs) for g in gs]
            if len(gs) != len(one) * depth or sorted(map(str, shape)) != sorted(map(str, one * depth)):
                return [holds("the documented gates", False, str(shape)[:300])]
            out = [holds("the documented gates in order", True if shape == one * depth else None, str(shape)[:300])]
            w = len(one)
            prm = [g.ps[0] for g in gs if g.ps]
            out.append(holds("all trained", all(p.trainable is True for p in prm)))
            free = [g.ps[0].name for g in gs if g.nm.startswith("op") or g.nm == "RX"]
            out.append(holds("every rotation has its own parameter", len(set(free)) == len(free) and all(x.startswith("pre") for x in free), f"{len(free) - len(set(free))} shared"))
            vals = {}
            for p in prm:
                vals.setdefault(p.name, []).append(sympy.sympify(p.value))
            out.append(holds("one value per name", all(len(set(v)) == 1 for v in vals.values())))
            out.append(vanish("links and centre start at zero", [sympy.sympify(g.ps[0].value) for g in gs if g.ps and (g.nm == "RX" or not g.nm.startswith("op"))] or [sympy.Integer(0)]))
            if shape == one * depth:
                inv = []
                for d in range(depth):
                    lay = gs[d * w:(d + 1) * w]
                    left = {(g.nm, g.qs): g.ps[0].value for g in lay[:k * n]}
                    right = {(g.nm, g.qs): g.ps[0].value for g in lay[-k * n:]}
                    inv += [left[x] + right[x] for x in left]
                out.append(vanish("the second half undoes the first", inv))
            return out


def L(items):
    c = Comp("chain", [])
    c.items = SList(list(items))
    return c

"""C07: embedding for arbitrary blocks - any number of expressions of any kind over any number of symbols."""
from pyvc.kit import *
import pyvc.sets
from pyvc.maps import Gen, Key, GMap, DISTINCT, gen_seg, gmap, same_key
from pyvc.runtime import Seg, Unsupported, GenList
import torch
EMB = mod("qadence.blocks.embedding")
PAR = mod("qadence.parameters")
UT = mod("qadence.utils")
BU = mod("qadence.blocks.utils")
from qadence.types import Engine

P = "C07"
TRUSTED = ["sympytorch / torchify: the compiled function of an expression, called with values for its symbols, returns the value of the expression", "sympy xreplace (and subs for keys equal only to themselves), as_real_imag, free_symbols, is_number", "torch.tensor keeps the value it is given (up to the default dtype's precision)"]
ASSUMES = ["contract of stringify at call sites: injective on the expressions of a block (decided at run time over the stated constants and names; names that differ only in '.' and '_' are a known finding)",
           "contract of the extraction functions (C16): expressions(block) lists each distinct expression once, parameters(block) lists the symbols and constants of those expressions, uuid_to_expression maps every gate-parameter id to its own expression",
           "names of inputs are names of symbols (not printed forms of compound expressions)"]


class Val:
    """a tensor whose value is a term; reshaping keeps the value"""
    def __init__(self, *term):
        self.term = term
    def squeeze(self, *a):
        return self
    @property
    def shape(self):
        return (1,) * (1 + VC.ex.choose(2, "rank"))
    @property
    def ndim(self):
        return VC.ex.choose(2, "ndim")
    def reshape(self, *a):
        return self
    def __getitem__(self, i):
        if i is None:
            return self
        raise Unsupported("indexing a symbolic tensor")
    def __repr__(self):
        return f"Val{self.term}"


class Sym(Gen):
    """an arbitrary parameter symbol; `case` says where a value for it was supplied"""
    is_number = False
    def __init__(self, dom, trainable, case, is_time=False):
        super().__init__(dom)
        self.trainable, self.case, self.is_time = trainable, case, is_time
        self.name = Key("name", self)
        self.value = Val("default", self)
    def __vc_isinstance__(self, T):
        T = T if isinstance(T, tuple) else (T,)
        return any(t in (PAR.Parameter, sympy.Symbol, sympy.Basic, sympy.Expr) for t in T)


class Ex(Gen):
    """an arbitrary expression of kind S (with symbols), N (number) or A (constant matrix)"""
    def __init__(self, kind, symsegs):
        super().__init__("expr" + kind)
        self.kind, self.free_symbols = kind, symsegs
        self.is_number = kind == "N"
        self.root = self
    def __vc_isinstance__(self, T):
        T = T if isinstance(T, tuple) else (T,)
        return any((t in (sympy.Array, ) and self.kind == "A") or (t in (sympy.Basic, sympy.Expr) and self.kind != "A") for t in T)
    def tolist(self):
        return ("tolist", self)
    def xreplace(self, q):
        """replaces exactly the given symbols"""
        return Val("subs", self, gmap(q))
    def subs(self, q):
        """also replaces whatever compares equal to a given symbol: exact only if nothing else does"""
        p = sympy_parameter()
        return Val("subs" if not any(p == e for e in (1 / (p + 1), p + 1, sympy.sin(p))) else "replacement of all that compares equal", self, gmap(q))


def sympy_parameter():
    return PAR.Parameter("p", value=.3)


class Inputs(GMap):
    """user inputs or stored values: has a value for exactly the symbols whose case says so"""
    def __init__(self, tag, cases, split=False, w=None):
        super().__init__()
        self.tag, self.cases, self.split, self.w = tag, cases, split, w
        if w is None:
            return
        for seg in w.syms:
            vs = []
            for c in ("inputs", "stored", "both", "none"):
                if c in cases:
                    s = Sym(seg.dom, seg.dom == "symT", c, seg.dom == "symtime")
                    vs.append((s, Val(tag, s)))
            self.entries.append(("fam", seg, vs[0][0], vs[0][0].name, vs, [x[0].name for x in vs], True))
        if tag == "stored":
            for g, e in zip(w.segs[1:], (w.N, w.A)):
                self.entries.append(("fam", g, e, Key("str", e), [(e, Val("stored-const", e))], [Key("str", e)], False))
    def _find(self, k):
        if isinstance(k, str):
            if k in ("circuit", "observables"):
                return ("one", k, None) if self.split else None
            raise Unsupported("concrete input name")
        if isinstance(k, Key) and k.f == "name":
            return ("one", k, Val(self.tag, k.of)) if k.of.case in self.cases else None
        if isinstance(k, Key) and k.f == "str" and self.tag == "stored":
            return ("one", k, Val("stored-const", k.of))
        raise Unsupported("lookup in the inputs")
    def __bool__(self):
        return True
    def keys(self):
        return Names(self)


DISTINCT.add(frozenset(("name", "str")))


class Names(list):
    def __init__(self, m):
        super().__init__()
        self.m = m
    def __contains__(self, k):
        return self.m._find(k) is not None


ALL = ("inputs", "stored", "both", "none")


class World:
    def __init__(self, missing=None):
        def sseg(tr, tag=""):
            def make():
                if tr == "time":
                    c = ("inputs", "none")[VC.ex.choose(2, "where the value is")]
                    return Sym("symtime", False, c, True)
                c = ("inputs", "stored", "both")[VC.ex.choose(3, "where the value is")]
                return Sym("sym" + tr, tr == "T", c)
            return gen_seg("sym" + tr, make)
        self.syms = [sseg("T"), sseg("F"), sseg("time")]
        self.missing = missing
        fs = list(self.syms) + ([missing] if missing else [])
        self.S, self.N, self.A = Ex("S", fs), Ex("N", []), Ex("A", [])
        self.segs = [gen_seg("exprS", lambda: self.S), gen_seg("exprN", lambda: self.N), gen_seg("exprA", lambda: self.A)]
        self.uuid = {k: Gen("uuid" + k) for k in "SNA"}
        self.block = Gen("block")


class Fn:
    """contract of make_differentiable(expr)"""
    def __init__(self, e):
        self.e = e
    def __call__(self, **kw):
        (k,) = kw
        if k != "\0map":
            raise Unsupported("call of a compiled expression")
        return Val("app", self.e, kw[k])


def splat_keys(self):
    return ["\0map"]


class contracts:
    def __init__(self, w):
        self.w = w
    def __enter__(self):
        w = self.w
        self.old = {}
        def sh(orig, new):
            self.old[id(orig)] = VC.shims.get(id(orig))
            VC.shim(orig, new)
        self.ids = self.old
        sh(BU.expressions, lambda b: list(w.segs))
        sh(BU.parameters, lambda b: list(w.syms) + w.segs[1:])
        def u2e(b):
            out = GMap()
            for k, e in (("S", w.S), ("N", w.N), ("A", w.A)):
                base = gen_seg("uuid" + k, lambda: None)
                out.entries.append(("fam", base, (w.uuid[k], e), w.uuid[k], [((w.uuid[k], e), e)], [w.uuid[k]]))
            return out
        sh(BU.uuid_to_expression, u2e)
        sh(PAR.make_differentiable, lambda expr, engine=None: Fn(expr))
        sh(PAR.stringify, lambda e: Key("str", e))
        self.real_eval = PAR.evaluate
        sh(PAR.evaluate, lambda e, *a, **k: Val("number", e))
        sh(EMB.tensor, lambda x, requires_grad=False: Val("stored", x[0] if isinstance(x, list) else x, requires_grad))
        sh(EMB.as_tensor, lambda x: x)
        sh(EMB.nparray, lambda x, dtype=None: x)
        sh(UT.merge_separate_params, lambda i: Inputs("inputs", i.cases, False, i.w))
        GMap.splat = True
        return self
    def __exit__(self, *a):
        for i, o in self.old.items():
            if o is None:
                VC.shims.pop(i, None)
            else:
                VC.shims[i] = o


def spec(sym):
    """where the value of a symbol must come from"""
    if sym.case in ("inputs", "both"):
        return "inputs"
    if sym.case == "stored":
        return "stored"
    return "time"


def right(sym, v):
    s = spec(sym)
    if s == "time":
        return isinstance(v, Val) and v.term[0] == "stored" and v.term[1] == 1.0 or (isinstance(v, torch.Tensor) and float(v) == 1.0)
    return isinstance(v, Val) and v.term == (s, sym)


def check_app(label, v, w):
    """v is the value of expression S at the prescribed values of all of its symbols"""
    if not (isinstance(v, Val) and v.term[0] == "app"):
        return [holds(f"{label}: value of the expression", False, repr(v))]
    out = [holds(f"{label}: the gate's own expression is evaluated", v.term[1] is w.S)]
    fams = {}
    for f in gmap(v.term[2]).entries:
        if f[0] == "fam":
            fams.setdefault(f[1].dom, []).append(f)
    for seg in w.syms:
        fs = fams.get(seg.dom, [])
        out.append(holds(f"{label}: all symbols of {seg.dom} receive a value, under their own name", len(fs) == 1 and isinstance(fs[0][3], Key) and fs[0][3].f == "name" and fs[0][3].of.vdom == seg.dom))
        for f in fs:
            for e, x in f[4]:
                out.append(holds(f"{label}: {seg.dom}, supplied in {e.case}: inputs before stored values before the default time", bool(right(e, x)), repr(x)))
            out.append(holds(f"{label}: every case covered", len(f[4]) >= (2 if seg.dom == "symtime" else 3)))
    return out


FE = ["qadence.blocks.embedding.embedding", "qadence.blocks.embedding.unique", "qadence.blocks.embedding._concretize_parameter"]


def ob(name, funcs=FE, **k):
    def d(fn):
        obligation(P, name, funcs, **k)(fn)
        return fn
    return d


def stored(w=None):
    return Inputs("stored", ("stored", "both"), False, w)


for gate in (True, False):
    for split in (False, True):
        @ob(f"embedding/{'gate' if gate else 'expression'}-level, inputs {'split in circuit and observables' if split else 'flat'}")
        def _(gate=gate, split=split):
            w = World()
            with contracts(w):
                params, fn = EMB.embedding(w.block, to_gate_params=gate)
                out = fn(stored(w), Inputs("inputs", ("inputs", "both"), split, w))
                out = gmap(out)
                cl = []
                for k, e in (("S", w.S), ("N", w.N), ("A", w.A)):
                    key = w.uuid[k] if gate else Key("str", e)
                    wr = [x for x in out.entries if x[0] == "fam" and type(x[3]) is type(key) and same_key(x[3], key)]
                    cl.append(holds(f"an entry for every parameter of kind {k}", any(len(x) < 7 or not x[6] for x in wr)))
                    for x in wr:
                        for _, v in x[4]:
                            if k == "S":
                                cl += check_app("expression", v, w)
                            else:
                                cl.append(holds(f"constant of kind {k}: its own stored value", isinstance(v, Val) and v.term == ("stored-const", e), repr(v)))
                if gate:
                    cl.append(holds("no other entries", len(out.entries) == 3, str(len(out.entries))))
                return cl

@ob("embedding/stored values: one per trainable symbol and constant")
def _():
    w = World()
    with contracts(w):
        params, fn = EMB.embedding(w.block)
        params = gmap(params)
        cl = []
        seen = {}
        for x in params.entries:
            if x[0] == "fam":
                seen.setdefault((x[3].f, x[3].of.vdom), []).extend(v for _, v in x[4])
        cl.append(holds("exactly the trainable symbols and the constants are stored", set(seen) == {("name", "symT"), ("str", "exprN"), ("str", "exprA")}, str(sorted(seen))))
        for (f, dom), vs in seen.items():
            for v in vs:
                t = v.term if isinstance(v, Val) else ()
                if dom == "symT":
                    cl.append(holds("a trainable symbol is stored with its own value and requires gradients", len(t) == 3 and isinstance(t[1], Val) and t[1].term[0] == "default" and t[2] is True, repr(v)))
                elif dom == "exprN":
                    cl.append(holds("a constant is stored with its own value and without gradients", len(t) == 3 and isinstance(t[1], Val) and t[1].term == ("number", w.N) and t[2] is False, repr(v)))
                else:
                    cl.append(holds("a constant matrix is stored with its own entries", len(t) == 3 and t[1] == ("tolist", w.A), repr(v)))
        return cl

for tr in (True, False):
    for gate in (True, False):
        @ob(f"embedding/missing {'trainable' if tr else 'feature'} parameter raises, {'gate' if gate else 'expression'}-level")
        def _(tr=tr, gate=gate):
            m = Sym("missing", tr, "none")
            class Nm(str):
                pass
            w = World(missing=m)
            with contracts(w):
                try:
                    params, fn = EMB.embedding(w.block, to_gate_params=gate)
                    fn(stored(), Inputs("inputs", ("inputs", "both")))
                except KeyError as e:
                    return [holds("the error names the missing parameter", "missing" in str(e), str(e))]
                return [holds("a missing parameter raises an error", False)]


# ---------------------------------------------------------------- evaluate
FV = ["qadence.parameters.evaluate"]


class Num:
    pass


def eval_world(given):
    w = World()
    def make(tr):
        c = ("inputs", "none")[VC.ex.choose(2, "supplied")] if given else "none"
        return Sym("sym" + tr, tr == "T", c)
    segs = [gen_seg("symT", lambda: make("T")), gen_seg("symF", lambda: make("F"))]
    w.S.free_symbols = segs
    w.syms = segs
    return w


for given in (True, False):
    for ast_ in (True, False):
        @ob(f"evaluate/{'values supplied' if given else 'no values'}, as_torch={ast_}", FV)
        def _(given=given, ast_=ast_):
            w = eval_world(given)
            real = PAR.evaluate
            olds = {id(f): VC.shims.get(id(f)) for f in (PAR.sympy_to_numeric, PAR.make_differentiable, PAR.tensor, PAR.sympify)}
            VC.shim(PAR.sympy_to_numeric, lambda e: e)
            VC.shim(PAR.make_differentiable, lambda expr, engine=None: Fn(expr))
            VC.shim(PAR.tensor, lambda x: x)
            VC.shim(PAR.sympify, lambda x, *a, **k: x)
            try:
                v = real(w.S, Inputs("inputs", ("inputs",)) if given else None, as_torch=ast_)
            finally:
                for i, o in olds.items():
                    if o is None:
                        VC.shims.pop(i, None)
                    else:
                        VC.shims[i] = o
            t = v.term
            cl = [holds("the expression itself is evaluated", t[0] == ("app" if ast_ else "subs") and t[1] is w.S)]
            doms = {}
            for f in gmap(t[2]).entries:
                if f[0] == "fam":
                    doms.setdefault(f[1].dom, []).extend(f[4])
            cl.append(holds("every symbol gets a value", set(doms) == {"symT", "symF"}, str(sorted(doms))))
            for d, vs in doms.items():
                for e, x in vs:
                    e = e if isinstance(e, Sym) else next(y for y in e if isinstance(y, Sym))
                    want = ("inputs", e) if e.case == "inputs" else ("default", e)
                    cl.append(holds(f"{d}: the supplied value, else the default", isinstance(x, Val) and x.term == want, repr(x)))
            return cl


# ---------------------------------------------------------------- equality used by substitution
@ob("Parameter equality/same name and kind", ["qadence.parameters.Parameter.__eq__"])
def _():
    p = PAR.Parameter("p", value=.3)
    return [holds("equal to itself and its copies", p == PAR.Parameter("p", value=.3) and p == p), holds("another name", not (p == PAR.Parameter("q", value=.3))),
            holds("another kind", not (p == PAR.Parameter("p", value=.3, trainable=False)))]

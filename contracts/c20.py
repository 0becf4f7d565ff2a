"""C20: models and the convenience functions.  The backend is known by its contract only (C08): what is proved is that it
receives exactly the circuit, embedded values, observables, state and settings the caller asked for, that nothing is
remembered between calls, and the exactness of input formatting, parameter vectors and finite differences."""
from pyvc.kit import *
from pyvc.tensors import STensor
import importlib, itertools
from types import SimpleNamespace
import numpy as np, sympy, torch
from qadence.circuit import QuantumCircuit
from qadence.register import Register
from qadence.types import Endianness, DiffMode, BackendName
from qadence import operations as O

MO = importlib.import_module("qadence.model")
ML = importlib.import_module("qadence.ml_tools.models")
EX = importlib.import_module("qadence.execution")
BU = importlib.import_module("qadence.backends.utils")
PA = importlib.import_module("qadence.ml_tools.parameters")
P = "C20"
FM, FQ, FE = "qadence.model.QuantumModel.", "qadence.ml_tools.models.QNN.", "qadence.execution."
ASSUMES = ["backends return what their contract says for the arguments they receive (C08, C10)", "float literals stand for the numbers they denote"]
TRUSTED = ["embedding functions by their contract (C07)", "torch.nn.Module attribute access", "functools.singledispatch", "sympy", "z3"]
BIG, LITTLE = Endianness.BIG, Endianness.LITTLE


def shim_for(fn, new):
    old = VC.shims.get(id(fn))
    VC.shim(fn, new)
    def undo():
        if old is None:
            VC.shims.pop(id(fn), None)
        else:
            VC.shims[id(fn)] = old
    VC.ex.undo.append(undo)


class Thing:
    """an object about which nothing is known"""
    def __init__(self, nm):
        self.nm = nm
    def __repr__(self):
        return self.nm


class Emb:
    def __init__(self, params, inputs):
        self.params, self.inputs = params, inputs


class FakeBackend:
    def __init__(self):
        self.calls = []
    def run(self, circuit, param_values={}, state=None, endianness=BIG, **k):
        return self._note("run", circuit=circuit, param_values=param_values, state=state, endianness=endianness, **k)
    def sample(self, circuit, param_values={}, n_shots=1, state=None, noise=None, mitigation=None, endianness=BIG, **k):
        return self._note("sample", circuit=circuit, param_values=param_values, n_shots=n_shots, state=state, noise=noise, mitigation=mitigation, endianness=endianness, **k)
    def expectation(self, circuit, observable, param_values={}, state=None, measurement=None, noise=None, mitigation=None, endianness=BIG, **k):
        return self._note("expectation", circuit=circuit, observable=observable, param_values=param_values, state=state, measurement=measurement, noise=noise, mitigation=mitigation, endianness=endianness, **k)
    def _note(self, nm, **k):
        r = Thing(f"result of {nm}")
        self.calls.append((nm, k, r))
        return r


SET = ("_observable", "_noise", "_measurement", "_mitigation")


def make(cls, have):
    m = cls.__new__(cls)
    torch.nn.Module.__init__(m)
    d = m.__dict__
    d["backend"] = FakeBackend()
    d["_params"] = Thing("stored parameters")
    d["embedding_fn"] = Emb
    d["_circuit"] = Thing("circuit")
    d["_backend_name"], d["_diff_mode"] = "pyqtorch", "ad"
    for s in SET:
        d[s] = (Thing("own " + s) if s != "_observable" else [Thing("own observable")]) if s in have else None
    return m


def state_of(m):
    return {k: id(m.__dict__[k]) for k in ("backend", "_params", "embedding_fn", "_circuit", "_backend_name", "_diff_mode") + SET}


def wiring(m, method, kw, args, values, defaults, want_values):
    """call, then compare what the backend got"""
    before = state_of(m)
    r = getattr(type(m), method)(m, *args, **kw)
    after = state_of(m)
    calls = m.backend.calls
    out = [holds("one evaluation", True if len(calls) == 1 and calls[0][0] == method else None)]
    if len(calls) != 1 or calls[0][0] != method:
        return out
    nm, got, res = calls[0]
    out.append(holds("its result is returned", r is res))
    pv = got.pop("param_values")
    out.append(holds("stored parameters embedded", isinstance(pv, Emb) and pv.params is m.__dict__["_params"]))
    out.append(holds("the given values", want_values(pv.inputs), str(pv.inputs)))
    for k, v in defaults.items():
        out.append(holds(f"{k} as requested", got.pop(k, None) is v, k))
    out.append(holds("nothing else requested", all(v is None for v in got.values()), str(got)))
    out.append(holds("the model remembers nothing", before == after, str([k for k in after if before.get(k) != after[k]])))
    return out


for cls, tag, FX in ((MO.QuantumModel, "model", FM), (ML.QNN, "network", FQ)):
    for own in itertools.chain.from_iterable(itertools.combinations(("_noise", "_measurement", "_mitigation"), r) for r in range(4)):
        for given in itertools.chain.from_iterable(itertools.combinations(("noise", "measurement", "mitigation"), r) for r in range(4)):
            @obligation(P, f"{tag}.expectation/own {'+'.join(own) or 'nothing'}, given {'+'.join(given) or 'nothing'}", [FX + "expectation", FX + "forward"])
            def _(cls=cls, tag=tag, own=own, given=given):
                out = []
                for obs, st, end in itertools.product((False, True), (False, True), (None, BIG, LITTLE)):
                    m = make(cls, own + ("_observable",))
                    vals = {"x": Thing("value of x")}
                    if tag == "network":
                        m.__dict__["format_to_dict"] = ML.format_to_dict_fn([sympy.Symbol("x")])
                        m.__dict__["inputs"] = [sympy.Symbol("x")]
                    kw = {g: Thing("given " + g) for g in given}
                    o = [Thing("given observable")]
                    if obs:
                        kw["observable"] = o
                    if st:
                        kw["state"] = Thing("given state")
                    if end is not None:
                        kw["endianness"] = end
                    want = {"circuit": m.__dict__["_circuit"], "observable": o if obs else m.__dict__["_observable"], "state": kw.get("state"), "endianness": end or BIG}
                    for g in ("noise", "measurement", "mitigation"):
                        want[g] = kw.get(g, m.__dict__["_" + g])
                    out += wiring(m, "expectation", kw, (vals,), vals, want, lambda v: v == vals)
                return out
    for own in itertools.chain.from_iterable(itertools.combinations(("_noise", "_mitigation"), r) for r in range(3)):
        @obligation(P, f"{tag}.sample/own {'+'.join(own) or 'nothing'}", [FX + "sample"])
        def _(cls=cls, tag=tag, own=own):
            out = []
            for given in itertools.chain.from_iterable(itertools.combinations(("noise", "mitigation", "state"), r) for r in range(4)):
                for end in (None, BIG, LITTLE):
                    m = make(cls, own)
                    vals = {"x": Thing("value of x")}
                    if tag == "network":
                        m.__dict__["format_to_dict"] = ML.format_to_dict_fn([sympy.Symbol("x")])
                    kw = {g: Thing("given " + g) for g in given}
                    sh = Thing("number of shots")
                    want = {"circuit": m.__dict__["_circuit"], "state": kw.get("state"), "n_shots": sh, "endianness": end or BIG}
                    for g in ("noise", "mitigation"):
                        want[g] = kw.get(g, m.__dict__["_" + g])
                    if end is not None:
                        kw["endianness"] = end
                    out += wiring(m, "sample", {**kw, "n_shots": sh}, (vals,), vals, want, lambda v: v == vals)
            return out
    @obligation(P, f"{tag}.run", [FX + "run", FX + "forward"])
    def _(cls=cls, tag=tag):
        out = []
        for st, end in itertools.product((None, Thing("given state")), (None, BIG, LITTLE)):
            for vals in ({"x": Thing("value of x")}, {}, None):
                if vals is None and tag == "network":
                    continue
                m = make(cls, ())
                if tag == "network":
                    m.__dict__["format_to_dict"] = ML.format_to_dict_fn([sympy.Symbol("x")])
                kw = {}
                if st is not None:
                    kw["state"] = st
                if end is not None:
                    kw["endianness"] = end
                out += wiring(m, "run", kw, (vals,), vals, {"circuit": m.__dict__["_circuit"], "state": st, "endianness": end or BIG}, lambda v: v == (vals or {}))
        return out


@obligation(P, "model.expectation/without any observable", [FM + "expectation"])
def _():
    m = make(MO.QuantumModel, ())
    try:
        MO.QuantumModel.expectation(m, {})
    except ValueError:
        return [holds("an error", not m.backend.calls)]
    return [holds("an error", False)]


@obligation(P, "network.forward/is its expectation", [FQ + "forward"])
def _():
    out = []
    for given in itertools.chain.from_iterable(itertools.combinations(("noise", "measurement", "state", "endianness"), r) for r in range(5)):
        m = make(ML.QNN, ("_observable", "_noise", "_measurement", "_mitigation"))
        m.__dict__["format_to_dict"] = ML.format_to_dict_fn([sympy.Symbol("x")])
        kw = {g: (Thing(g) if g != "endianness" else LITTLE) for g in given}
        v = {"x": Thing("x")}
        r = ML.QNN.forward(m, v, **kw)
        c = m.backend.calls
        out.append(holds("evaluated once", True if len(c) == 1 and c[0][0] == "expectation" and c[0][2] is r else None))
        if len(c) == 1 and c[0][0] == "expectation":
            k = c[0][1]
            d = m.__dict__
            out.append(holds("with these settings", k["observable"] is d["_observable"] and k["state"] is kw.get("state") and k["noise"] is kw.get("noise", d["_noise"]) and k["measurement"] is kw.get("measurement", d["_measurement"])
                             and k["mitigation"] is d["_mitigation"] and k["endianness"] is kw.get("endianness", BIG) and k["param_values"].inputs == v, str(k)))
    return out


# ------------------------------------------------------------------ columns to inputs
for d in (1, 2, 3):
    for order in itertools.permutations(["x", "y", "t"], d):
        @obligation(P, f"format_to_dict/inputs {','.join(order)} [fixed shape]", ["qadence.ml_tools.models.format_to_dict_fn"])
        def _(d=d, order=order):
            out = []
            for k in (1, 3):
                f = ML.format_to_dict_fn([sympy.Symbol(s) for s in order])
                X = STensor.symbols("X", k, d, complex=False)
                r = f(X)
                ok = set(r) == set(order) and all(tuple(r[s].a.shape) == (k,) for s in order)
                out.append(holds("one entry per input", ok))
                if ok:
                    out.append(vanish("column i belongs to input i", [r[s].a[b] - X.a[b, i] for i, s in enumerate(order) for b in range(k)]))
                for wrong in (d + 1, d - 1):
                    if wrong > 0:
                        try:
                            f(STensor.symbols("X", k, wrong, complex=False))
                            out.append(holds("other numbers of columns are rejected", False))
                        except ValueError:
                            out.append(holds("other numbers of columns are rejected", True))
                v = {"x": Thing("x")}
                out.append(holds("values by name are passed on", f(v) == v))
            if d == 1:
                X = STensor.symbols("X", 4, complex=False)
                r = ML.format_to_dict_fn([sympy.Symbol(order[0])])(X)
                out.append(vanish("one-dimensional", [a - b for a, b in zip(r[order[0]].a.reshape(-1), X.a)]))
            return out


# ------------------------------------------------------------------ functions run, sample, expectation
def fake_factory(log):
    def factory(backend, diff_mode=None, configuration=None, **k):
        b = FakeBackend()
        log.append(SimpleNamespace(backend=backend, diff_mode=diff_mode, configuration=configuration, bk=b, conv=[]))
        def convert(circuit, observable=None):
            c = SimpleNamespace(circuit=Thing("converted circuit"), observable=None if observable is None else Thing("converted observables"), embedding_fn=Emb, params=Thing("initial parameters"))
            log[-1].conv.append((circuit, observable, c))
            return c
        b.convert = convert
        return b
    return factory


for fn in ("run", "sample", "expectation"):
    for form in ("circuit", "block", "number", "register"):
        @obligation(P, f"{fn}/{form}", [FE + fn])
        def _(fn=fn, form=form):
            out = []
            for given in itertools.chain.from_iterable(itertools.combinations(("values", "state", "endianness", "configuration", "extra"), r) for r in range(6)):
                log = []
                shim_for(EX.backend_factory, fake_factory(log))
                blk = O.CNOT(0, 1)
                reg = Register(4)
                circ = QuantumCircuit(2, blk)
                args = {"circuit": (circ,), "block": (blk,), "number": (4, blk), "register": (reg, blk)}[form]
                kw = {}
                for g in given:
                    kw[g] = {"values": {"x": Thing("value")}, "state": Thing("state"), "endianness": LITTLE, "configuration": Thing("configuration"), "extra": None}[g]
                extra = kw.pop("extra", 0) is None
                want = {}
                if fn == "sample":
                    want["n_shots"] = 100
                    if extra:
                        kw["n_shots"], kw["noise"] = want["n_shots"], want["noise"] = Thing("shots"), Thing("noise")
                if fn == "expectation":
                    obs = [Thing("one"), Thing("two")] if extra else Thing("one")
                    args = args + (obs,)
                    if extra:
                        for g in ("noise", "measurement", "mitigation"):
                            kw[g] = want[g] = Thing(g)
                r = getattr(EX, fn)(*args, **kw)
                ok = len(log) == 1 and len(log[0].conv) == 1 and len(log[0].bk.calls) == 1
                out.append(holds("one backend, one conversion, one evaluation", True if ok else None))
                if not ok:
                    continue
                (c, o, conv), (nm, got, res) = log[0].conv[0], log[0].bk.calls[0]
                out.append(holds("its result", r is res and nm == fn))
                out.append(holds("the circuit", (c is circ if form == "circuit" else c.block is blk or list(getattr(c.block, "blocks", ())) == [blk]) and c.register.n_qubits == {"circuit": 2, "block": 2}.get(form, 4) and (form != "register" or c.register is reg), str(c)))
                if fn == "expectation":
                    out.append(holds("the observables in order", isinstance(o, list) and len(o) == (2 if extra else 1) and all(a is b for a, b in zip(o, obs if extra else [obs]))))
                    out.append(holds("the converted ones", got.pop("observable") is conv.observable))
                out.append(holds("the configuration", log[0].configuration is kw.get("configuration") and log[0].backend == BackendName.PYQTORCH))
                pv = got.pop("param_values")
                out.append(holds("values", isinstance(pv, Emb) and pv.params is conv.params and pv.inputs == kw.get("values", {})))
                want.update(circuit=conv.circuit, state=kw.get("state"), endianness=kw.get("endianness", BIG))
                for k, v in want.items():
                    g = got.pop(k)
                    out.append(holds(k, g is v or g == v))
                out.append(holds("nothing else", all(v is None for v in got.values()), str(got)))
            return out


# ------------------------------------------------------------------ finite differences
def poly_f(d, deg, tag="c"):
    """a polynomial of the given total degree with arbitrary coefficients, and its terms"""
    terms = [e for e in itertools.product(range(deg + 1), repeat=d) if sum(e) <= deg]
    cs = {e: sympy.Symbol(tag + "".join(map(str, e)), real=True) for e in terms}
    return cs


for d, idx in [(1, (0,)), (1, (0, 0)), (1, (0, 0, 0)), (2, (0,)), (2, (1,)), (2, (1, 1)), (2, (0, 1)), (2, (1, 0)), (3, (2, 0)), (2, (0, 0, 0)), (2, (0, 0, 1)), (1, (0, 0, 0, 0))]:
    @obligation(P, f"finitediff/{idx} of {d} variables: exact for polynomials of degree {len(idx) + 1} [fixed batch]", ["qadence.backends.utils.finitediff"])
    def _(d=d, idx=idx):
        deg = len(idx) + 1
        cs = poly_f(d, deg)
        X = STensor.symbols("x", 2, d, complex=False)
        val = lambda row: sum(c * sympy.prod([v ** k for v, k in zip(row, e)]) for e, c in cs.items())
        class Eps:
            """a spacing depending on the order in any way"""
            def __pow__(self, k):
                return sympy.Symbol(f"h{float(k):.6f}", positive=True)
        eps = Eps()
        shim_for(torch.as_tensor, lambda v, **k: v)
        shim_for(torch.finfo, lambda t: SimpleNamespace(eps=eps))
        keep = X.a.copy()
        f = lambda x: STensor(np.array([[val(r)] for r in x.a], dtype=object))
        out = []
        for kw in ({}, {"eps": sympy.Symbol("g", positive=True)}):
            r = BU.finitediff(f, X, idx, **kw)
            got = r.a.reshape(-1)
            w = []
            for b in range(2):
                e = val(X.a[b])
                for i in idx:
                    e = sympy.diff(e, X.a[b, i])
                w.append(sympy.expand(sympy.powsimp(sympy.expand(got[b] - e))))
            out.append(holds("one value per point", len(got) == 2))
            out.append(vanish("the derivative", w))
        out.append(holds("the points are unchanged", bool((X.a == keep).all())))
        return out


# ------------------------------------------------------------------ automatic differentiation of the inputs
from qadence.ml_tools import models as ML
for d, idx in [(1, (0,)), (1, (0, 0)), (2, (0,)), (2, (1,)), (2, (0, 1)), (2, (1, 0)), (3, (2, 0)), (2, (0, 0, 1)), (2, (0, 1, 1)), (3, (1, 1, 0)), (1, (0, 0, 0, 0))]:
    @obligation(P, f"_torch_derivative, derivative/{idx} of {d} variables of any function [fixed batch]", ["qadence.ml_tools.models._torch_derivative", "qadence.ml_tools.models.derivative"])
    def _(d=d, idx=idx):
        X = STensor.symbols("x", 2, d, complex=False)
        F = sympy.Function("f", real=True)
        ufa = lambda x: STensor(np.array([[F(*row)] for row in x.a], dtype=object))
        def grad(y, x, grad_outputs=None, create_graph=False, **k):
            """contract of autograd: the gradient of the weighted sum of the outputs by the given inputs, itself differentiable if asked for"""
            if k or x is not X or not create_graph:
                raise Unsupported("another use of autograd")
            w = [1] * y.a.size if grad_outputs is None else grad_outputs.a.reshape(-1)
            tot = sum(a * b for a, b in zip(y.a.reshape(-1), w))
            return (STensor(np.array([[sympy.diff(tot, v) for v in row] for row in x.a], dtype=object)),)
        shim_for(torch.autograd.grad, grad)
        shim_for(torch.ones_like, lambda t, **k: STensor(np.full(t.a.shape, sympy.Integer(1), dtype=object)))
        out = []
        model = SimpleNamespace(out_features=1, _derivative=lambda x, i: ML._torch_derivative(ufa, x, i))
        for got in (ML._torch_derivative(ufa, X, idx), ML.derivative(model, X, idx)):
            out.append(holds("one row per point", got.a.shape == (2, 1), str(got.a.shape)))
            for b in range(2):
                e = F(*X.a[b])
                for i in idx:
                    e = sympy.diff(e, X.a[b, i])
                out.append(holds("the derivative", sympy.simplify(got.a.reshape(-1)[b] - e) == 0, f"{got.a.reshape(-1)[b]} instead of {e}"))
        return out


# ------------------------------------------------------------------ vectors of parameters
class SPar(STensor):
    def __init__(self, a, requires_grad):
        super().__init__(a)
        self.requires_grad = requires_grad
    ndim = property(lambda s: s.a.ndim)
    def __setitem__(self, i, v):
        v = v.a if isinstance(v, STensor) else v
        self.a[i] = v.reshape(()) [()] if i == () and hasattr(v, "reshape") else v


SHAPES = [[((2,), True)], [((1,), True), ((1,), False), ((1,), True)], [((2, 2), True), ((), True), ((3,), True)], [((), True), ((2,), False), ((1, 2), True)], [((2,), False), ((1,), True)]]
for i, shapes in enumerate(SHAPES):
    @obligation(P, f"get_parameters, set_parameters/{shapes} [fixed shape]", ["qadence.ml_tools.parameters.get_parameters", "qadence.ml_tools.parameters.set_parameters", "qadence.ml_tools.parameters.num_parameters"])
    def _(shapes=shapes):
        def sym(nm, s):
            return STensor.symbols(nm, *s, complex=False).a
        ps = [SPar(sym(f"p{j}", s), t) for j, (s, t) in enumerate(shapes)]
        old = [p.a.copy() for p in ps]
        m = SimpleNamespace(parameters=lambda: iter(ps))
        flat = [v for p in ps if p.requires_grad for v in p.a.reshape(-1)]
        r = PA.get_parameters(m).a.reshape(-1)
        out = [holds("number", len(r) == len(flat) == PA.num_parameters(m)), vanish("all trained values in order", [a - b for a, b in zip(r, flat)])]
        th = STensor.symbols("th", len(flat), complex=False)
        PA.set_parameters(m, th)
        k = 0
        es = []
        for p, o, (s, t) in zip(ps, old, shapes):
            out.append(holds("shape kept", p.a.shape == o.shape))
            for a, b in zip(p.a.reshape(-1), o.reshape(-1)):
                es.append(a - (th.a[k] if t else b))
                k += t
        out.append(vanish("assigned in order, others untouched", es))
        return out


for pat in itertools.chain.from_iterable(itertools.product((True, False), repeat=r) for r in (1, 2, 3, 4)):
    if not any(pat):
        continue
    @obligation(P, f"reset_vparams, vparams/{''.join('tf'[not x] for x in pat)} [fixed number]", [FM + "reset_vparams", FM + "vparams", FM + "params", FM + "vals_vparams", FM + "num_vparams"])
    def _(pat=pat):
        m = make(MO.QuantumModel, ())
        ps = {k: torch.nn.Parameter(torch.tensor([float(i)]), requires_grad=t) for i, (k, t) in enumerate(zip(("p3", "P10", "a", "p2"), pat))}
        m.__dict__["_params"] = torch.nn.ParameterDict(ps)
        ps = dict(m.__dict__["_params"].items())  # torch decides on the order
        pat = [p.requires_grad for p in ps.values()]
        old = {k: float(p) for k, p in ps.items()}
        names = [k for k, p in ps.items() if p.requires_grad]
        out = [holds("trained ones in order", list(m.vparams) == names and m.num_vparams == len(names) and m.vals_vparams.tolist() == [float(ps[k]) for k in names] and list(m.params) == list(ps))]
        new = [10. + i for i in range(len(names))]
        MO.QuantumModel.reset_vparams(m, new)
        got = {k: float(p) for k, p in m.__dict__["_params"].items()}
        want = {k: (new[names.index(k)] if k in names else old[k]) for k in ps}
        out.append(holds("assigned in order, others untouched", got == want and list(m.vparams) == names and all(m.__dict__["_params"][k].requires_grad == t for k, t in zip(ps, pat)), str(got)))
        for wrong in (new + [1.], new[1:]):
            try:
                MO.QuantumModel.reset_vparams(m, wrong)
                out.append(holds("other numbers of values are rejected", False))
            except AssertionError:
                out.append(holds("other numbers of values are rejected", True))
        return out

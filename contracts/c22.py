"""C22: data passes, callbacks, schedules, early stopping, checkpoints and optimization steps of training."""
from pyvc.kit import *
import itertools
import math
import random
import sympy
import torch
import z3
import os
from pathlib import Path
from types import SimpleNamespace as NS
CB = mod("qadence.ml_tools.callbacks.callback")
SL = mod("qadence.ml_tools.callbacks.saveload")
CM = mod("qadence.ml_tools.callbacks.callbackmanager")
DA = mod("qadence.ml_tools.data")
OS = mod("qadence.ml_tools.optimize_step")
ST = mod("qadence.ml_tools.stages").TrainingStage

P = "C22"
FC, FS, FD, FO = "qadence.ml_tools.callbacks.callback.", "qadence.ml_tools.callbacks.saveload.", "qadence.ml_tools.data.", "qadence.ml_tools.optimize_step."
ASSUMES = ["single process (rank 0) unless stated", "model and optimizer class names do not contain 'opt' or 'model' in lower case", "checkpoint files are only written by write_checkpoint"]
TRUSTED = ["torch.save / torch.load, optimizers' state_dict and load_state_dict", "random.shuffle permutes its argument", "the remainder of integers is uninterpreted", "cosine is uninterpreted", "z3", "sympy"]
STAGES = list(ST)


def shim_for(fn, new):
    old = VC.shims.get(id(fn))
    VC.shim(fn, new)
    def undo():
        if old is None:
            VC.shims.pop(id(fn), None)
        else:
            VC.shims[id(fn)] = old
    VC.ex.undo.append(undo)


def flag(name, v):
    old = getattr(VC, name, None)
    setattr(VC, name, v)
    VC.ex.undo.append(lambda: setattr(VC, name, old))


rem = z3.Function("remainder", z3.IntSort(), z3.IntSort(), z3.IntSort())


class It(SNum):
    """an iteration number: its remainders are uninterpreted"""
    __slots__ = ()
    __hash__ = SNum.__hash__
    def __mod__(self, o):
        if decide_(lift_(o) == 0):
            raise ZeroDivisionError
        return SNum(rem(self.z, lift_(o)))
    def __divmod__(self, o):
        raise Unsupported("divmod")
    def __rmod__(self, o):
        raise Unsupported("remainder by the iteration")


def lift_(x):
    return x.z if isinstance(x, SNum) else z3.IntVal(x)


def decide_(c):
    from pyvc.scalars import decide
    return decide(c)


def it(name="iteration"):
    v = It(z3.Int(name))
    assume(v.z >= 0)
    return v


def cond(name="condition"):
    return SBool(z3.Bool(name))


def new(K, **kw):
    o = object.__new__(K)
    o.__dict__.update(kw)
    return o


class Log(list):
    def fn(self, name, ret=None):
        def f(*a, **k):
            self.append((name, a, k))
            return ret
        return f


# ---------------------------------------------------------------- when a callback runs
for _st in STAGES:
    @obligation(P, f"_should_call/{_st}, any iteration, period and condition", [FC + "Callback._should_call"])
    def _(when=_st):
        i, every, c = it(), It(z3.Int("period")), cond()
        assume(every.z >= 0)
        res = NS(iteration=i)
        asked = []
        cb = new(CB.Callback, called_every=every, _on=when, callback_condition=lambda r: asked.append(r) or c)
        r = cb._should_call(when, res)
        r = bool(r)
        want = z3.BoolVal(True) if when in (ST.TRAIN_START, ST.TRAIN_END) else z3.And(every.z != 0, i.z != 0, rem(i.z, every.z) == 0, c.z)
        return [valid_here("at start and end always, otherwise at positive multiples of the period under the condition", want if r else z3.Not(want)),
                holds("the condition is asked about this result", all(x is res for x in asked))]


for _k, (_on, _when) in enumerate([(ST.TRAIN_EPOCH_END, ST.TRAIN_EPOCH_END), (ST.TRAIN_EPOCH_END, ST.VAL_EPOCH_END), (ST.TRAIN_START, ST.TRAIN_START), (ST.TRAIN_END, ST.TRAIN_START), (ST.VAL_BATCH_END, ST.VAL_BATCH_END)]):
    @obligation(P, f"Callback call/{_on} at {_when}", [FC + "Callback.__call__", FC + "Callback.run_callback"])
    def _(on=_on, when=_when):
        log = Log()
        s = cond("should call")
        cb = CB.Callback(on=str(on.value), called_every=3, callback=log.fn("run", "value"))
        shim_for(CB.Callback._should_call, lambda self, w, r: log.append(("asked", w, r)) or s)
        cb.__class__ = type("Cb", (CB.Callback,), {"_should_call": lambda self, w, r: log.append(("asked", w, r)) or s})
        tr, cfg, wr = NS(opt_result=NS(iteration=4, extra={})), object(), object()
        r = cb(when, tr, cfg, wr)
        ran = [x for x in log if x[0] == "run"]
        if on != when:
            return [holds("not at another stage", not ran and r is None)]
        return [valid_here("runs exactly when it should", s.z if ran else z3.Not(s.z)), holds("once, with trainer, configuration and writer", not ran or (len(ran) == 1 and ran[0][1] == (tr, cfg, wr) and r == "value"))]


@obligation(P, "run_callbacks/every list of stages up to three [fixed shape]", ["qadence.ml_tools.callbacks.callbackmanager.CallbacksManager.run_callbacks"])
def _():
    out = []
    sts = (ST.TRAIN_EPOCH_END, ST.VAL_EPOCH_END)
    for n in range(4):
        for sel in itertools.product(sts, repeat=n):
            log = []
            class C:
                def __init__(self, on, k):
                    self.on, self.k = on, k
                def __call__(self, when, trainer, config, writer):
                    log.append((self.k, when, trainer, config, writer))
                    return self.k
            m = new(CM.CallbacksManager, callbacks=[C(s, k) for k, s in enumerate(sel)], config="config", writer="writer")
            tr = NS(training_stage=ST.VAL_EPOCH_END)
            m.run_callbacks(tr)
            want = [(k, ST.VAL_EPOCH_END, tr, "config", "writer") for k, s in enumerate(sel) if s == ST.VAL_EPOCH_END]
            out.append(holds("those of the current stage, once each, in order", log == want, repr(sel)))
    return out


# ---------------------------------------------------------------- early stopping
for _mode in ("min", "max"):
    @obligation(P, f"EarlyStopping step/{_mode}, any history", [FC + "EarlyStopping.run_callback"])
    def _(mode=_mode):
        flag("numerals", True)
        count, pat = fresh_int("count", 0), fresh_int("patience", 1)
        best, cur = fresh_real("best"), fresh_real("current")
        log = Log()
        cb = new(CB.EarlyStopping, monitor="val_loss", patience=pat, mode=mode, best_value=best, counter=count)
        tr = NS(opt_result=NS(metrics={"val_loss": cur, "train_loss": "another"}, iteration=7), _stop_training=NS(fill_=log.fn("fill")))
        cb.run_callback(tr, None, None)
        z = lambda v: v.z if isinstance(v, SNum) else z3.RealVal(v)
        better = cur.z < best.z if mode == "min" else cur.z > best.z
        c2 = cb.counter.z if isinstance(cb.counter, SNum) else z3.IntVal(cb.counter)
        return [valid_here("best value so far", z(cb.best_value) == z3.If(better, cur.z, best.z)),
                valid_here("calls since the last improvement", c2 == z3.If(better, 0, count.z + 1)),
                valid_here("stops exactly when they reach the patience", (z3.If(better, 0, count.z + 1) >= pat.z) if log else (z3.If(better, 0, count.z + 1) < pat.z)),
                holds("by setting the flag", all(x[1] == (1,) or x[1] == (True,) for x in log))]

    @obligation(P, f"EarlyStopping start/{_mode}", [FC + "EarlyStopping.__init__"])
    def _(mode=_mode):
        cb = CB.EarlyStopping("val_epoch_end", 2, "val_loss", patience=4, mode=mode)
        return [holds("nothing seen yet", cb.best_value == (math.inf if mode == "min" else -math.inf) and cb.counter == 0 and cb.patience == 4 and cb.monitor == "val_loss" and cb.called_every == 2 and cb.on == ST.VAL_EPOCH_END)]


# ---------------------------------------------------------------- learning rates
def same_expr(label, got, want):
    got, want = sympy.sympify(got), sympy.sympify(want)
    d = sympy.simplify(got - want)
    if d == 0:
        return holds(label, True)
    fs = sorted(d.free_symbols, key=str)
    r = random.Random(1)
    worst = 0
    for _ in range(8):
        try:
            worst = max(worst, abs(complex(d.subs({f: sympy.Rational(r.randint(3, 40), 7) for f in fs}).evalf())))
        except Exception:
            return holds(label, None, str(got)[:300])
    return holds(label, False if worst > 1e-9 else True, f"{got} instead of {want}"[:400])


def groups(lrs):
    return NS(param_groups=[{"lr": l, "weight": i} for i, l in enumerate(lrs)])


L = sympy.symbols("lr0 lr1", positive=True)


@obligation(P, "LRSchedulerStepDecay/any rates, factor", [FC + "LRSchedulerStepDecay.run_callback"])
def _():
    g = sympy.Symbol("gamma", positive=True)
    o = groups(L)
    cb = CB.LRSchedulerStepDecay("train_epoch_end", 3, g)
    cb.run_callback(NS(optimizer=o, opt_result=NS(iteration=3)), None, None)
    return [same_expr(f"group {i}: rate times factor", o.param_groups[i]["lr"], L[i] * g) for i in range(2)]


@obligation(P, "LRSchedulerCosineAnnealing/any iterations, rates and bounds, any earlier call", [FC + "LRSchedulerCosineAnnealing.run_callback"])
def _():
    shim_for(math.cos, lambda x: sympy.cos(x) if isinstance(x, sympy.Basic) else math.cos(x))
    i, j, T = sympy.symbols("i j T", positive=True, integer=True)
    m = sympy.Symbol("min_lr", positive=True)
    o = groups(L)
    cb = CB.LRSchedulerCosineAnnealing("train_epoch_end", 1, T, m)
    out = []
    for k, n in enumerate((i, j)):
        cb.run_callback(NS(optimizer=o, opt_result=NS(iteration=n)), None, None)
        out += [same_expr(f"call {k + 1}, group {g}: cosine from the initial rate to the minimum", o.param_groups[g]["lr"], m + (L[g] - m) * (1 + sympy.cos(math.pi * n / T)) / 2) for g in range(2)]
    return out


for _s in (1, 2, 3, 5, 10):
    @obligation(P, f"LRSchedulerCyclic/half cycle of {_s}, any iteration [fixed step size]", [FC + "LRSchedulerCyclic.run_callback"])
    def _(s=_s):
        i = fresh_int("iteration", 0)
        lo, hi = 2.0, 7.0
        o = groups([0.1, 0.2])
        cb = CB.LRSchedulerCyclic("train_batch_end", 1, lo, hi, s)
        cb.run_callback(NS(optimizer=o, opt_result=NS(iteration=i)), None, None)
        r = z3.ToReal(i.z % (2 * s))
        tri = z3.If(r <= s, r / s, 2 - r / s)
        out = []
        for g in o.param_groups:
            v = g["lr"]
            v = v.z if isinstance(v, SNum) else z3.RealVal(v)
            out.append(valid_here("triangle wave between the two rates", v == lo + (hi - lo) * tri))
        return out


# ---------------------------------------------------------------- saving
@obligation(P, "SaveBestCheckpoint/any criterion", [FC + "SaveBestCheckpoint.run_callback"])
def _():
    log = Log()
    shim_for(CB.write_checkpoint, log.fn("write"))
    c = cond("improves")
    asked = []
    cfg = NS(validation_criterion=lambda *a: asked.append(a) or c, val_epsilon="eps", log_folder="folder")
    cb = CB.SaveBestCheckpoint("val_epoch_end", 1)
    first = cb.best_loss
    old, nw = fresh_real("best"), fresh_real("loss")
    cb.best_loss = old
    i = it()
    tr = NS(accelerator=NS(rank=0), opt_result=NS(loss=nw, iteration=i), model="model", optimizer="optimizer")
    cb.run_callback(tr, cfg, None)
    z = cb.best_loss.z
    return [valid_here("written exactly on improvement", c.z if log else z3.Not(c.z)), holds("from nothing seen", first == math.inf),
            holds("compared with the best so far", len(asked) == 1 and asked[0][2] == "eps", repr(asked)), valid_here("in this order", z3.And(asked[0][0].z == nw.z, asked[0][1].z == old.z)),
            holds("the model and optimizer, as best", [x[1] for x in log] in ([], [("folder", "model", "optimizer", "best")])), valid_here("best loss updated exactly then", z == z3.If(c.z, nw.z, old.z))]


@obligation(P, "SaveCheckpoint, LoadCheckpoint/rank", [FC + "SaveCheckpoint.run_callback", FC + "LoadCheckpoint.run_callback"])
def _():
    out = []
    for rank in (0, 1):
        log = Log()
        shim_for(CB.write_checkpoint, log.fn("write"))
        shim_for(CB.load_checkpoint, log.fn("load", "loaded"))
        tr = NS(accelerator=NS(rank=rank, execution=NS(log_device="dev")), opt_result=NS(loss=1, iteration=5), model="model", optimizer="optimizer")
        CB.SaveCheckpoint("train_epoch_end", 1).run_callback(tr, NS(log_folder="folder"), None)
        r = CB.LoadCheckpoint("train_start", 1).run_callback(tr, NS(log_folder="folder"), None)
        w = [x[1] for x in log if x[0] == "write"]
        out.append(holds("current model, optimizer and iteration, by the first process", w == ([("folder", "model", "optimizer", 5)] if rank == 0 else []), repr(w)))
        if rank == 0:
            l = [x for x in log if x[0] == "load"]
            out.append(holds("loaded from the same folder", len(l) == 1 and l[0][1][:3] == ("folder", "model", "optimizer") and r == "loaded", repr(l)))
    return out


@obligation(P, "get_latest_checkpoint_name/every listing of up to three checkpoints [fixed shape]", [FS + "get_latest_checkpoint_name"])
def _():
    out = []
    idx = {"000": 0, "002": 2, "010": 10, "099": 99, "100": 100, "1000": 1000, "best": None}
    for n in (1, 2, 3):
        for sel in itertools.permutations(idx, n):
            nums = [s for s in sel if idx[s] is not None]
            if not nums:
                continue
            best = max(nums, key=lambda s: idx[s])
            for ty, cls in (("model", "QNN"), ("opt", "Adam")):
                files = [f"{t}_{c}_ckpt_{s}_device_{d}.pt" for s in sel for t, c in (("opt", "Adam"), ("model", "QNN")) for d in ("cpu",)] + ["config.json"]
                if n > 1:
                    files.insert(1, f"{ty}_{cls}_ckpt_5000_device_cuda.pt")
                shim_for(os.listdir, lambda folder: list(files))
                r = SL.get_latest_checkpoint_name(Path("folder"), ty, "cpu")
                out.append(holds("the highest number written for the device", str(r) == f"{ty}_{cls}_ckpt_{best}_device_cpu.pt", f"{files}: {r}"))
    return out


# ---------------------------------------------------------------- data
@obligation(P, "InfiniteTensorDataset/every order of passes of three samples, two iterators [fixed shape]", [FD + "InfiniteTensorDataset.__iter__"])
def _():
    out = []
    perms = list(itertools.permutations(range(3)))
    for p1 in perms:
        for p2 in perms[1:4]:
            for k in range(4):
                todo = [p1, p2]
                def shuf(x, *a):
                    p = todo.pop(0) if todo else (1, 2, 0)
                    x[:] = [x[i] for i in p]
                shim_for(random.shuffle, shuf)
                a, b = torch.tensor([10., 11., 12.]), torch.tensor([[0., 5.], [1., 6.], [2., 7.]])
                ds = DA.InfiniteTensorDataset(a, b)
                i1 = iter(ds)
                got = [next(i1) for _ in range(k)]
                i2 = iter(ds)
                g2 = [next(i2) for _ in range(3)]
                got += [next(i1) for _ in range(6 - k)]
                rows = [[int(x[0]) - 10 for x in got], [int(x[0]) - 10 for x in g2]]
                together = all(float(x[1][0]) == float(x[0]) - 10 and float(x[1][1]) == float(x[0]) - 5 for x in got + g2)
                ok = sorted(rows[0][:3]) == [0, 1, 2] and sorted(rows[0][3:]) == [0, 1, 2] and sorted(rows[1]) == [0, 1, 2]
                out.append(holds("every pass of every iterator yields each sample once", ok, f"orders {p1}, {p2}, second iterator after {k}: {rows}"))
                out.append(holds("rows of all tensors kept together", together))
    return out


@obligation(P, "InfiniteTensorDataset/unequal sizes", [FD + "InfiniteTensorDataset.__iter__"], expect=(ValueError,))
def _():
    try:
        next(iter(DA.InfiniteTensorDataset(torch.zeros(3), torch.zeros(2))))
    except ValueError:
        return [holds("rejected", True)]
    return [holds("rejected", False)]


@obligation(P, "DictDataLoader/any loaders", [FD + "DictDataLoader.__iter__", FD + "DictDataLoader.__next__"])
def _():
    d = DA.DictDataLoader({"a": [1, 2, 3], "b": [4, 5, 6]})
    i = iter(d)
    got = [next(i), next(i)]
    i = iter(d)
    return [holds("one batch of each loader per step", got == [{"a": 1, "b": 4}, {"a": 2, "b": 5}]), holds("from the start for a new iterator", next(i) == {"a": 1, "b": 4})]


# ---------------------------------------------------------------- steps
for _n in (1, 2, 3):
    @obligation(P, f"optimize_step/any loss, {_n} evaluations in one step [fixed number]", [FO + "optimize_step"])
    def _(n=_n):
        log = []
        class Loss:
            def __init__(self, k):
                self.k = k
            def backward(self, *a, **kw):
                log.append(("backward", self.k))
            def item(self):
                return ("item", self.k)
        ks = iter(range(n + 1))
        ret = []
        def loss_fn(m, x):
            k = next(ks)
            log.append(("loss", k, m, x))
            return Loss(k), {"metric": k}
        class Opt:
            def zero_grad(self, *a, **kw):
                log.append(("zero",))
            def step(self, closure):
                for _ in range(n):
                    ret.append(closure())
        r = OS.optimize_step("model", Opt(), loss_fn, "xs")
        want = [x for k in range(n) for x in (("zero",), ("loss", k, "model", "xs"), ("backward", k))]
        return [holds("gradients cleared, loss of the given batch, its gradient, per evaluation", log == want, repr(log)), holds("the optimizer is told each loss", [x.k if isinstance(x, Loss) else x[1] for x in ret] == list(range(n))),
                holds("loss and metrics of the last evaluation are returned", isinstance(r[0], Loss) and r[0].k == n - 1 and r[1] == {"metric": n - 1})]


@obligation(P, "update_ng_parameters/any loss and parameters", [FO + "update_ng_parameters"])
def _():
    log = []
    flag("numerals", True)
    loss = fresh_real("loss")
    class Opt:
        def tell(self, p, l):
            log.append(("tell", p, l))
        def ask(self):
            log.append(("ask",))
            return NS(value="asked value")
    def loss_fn(m, d):
        log.append(("loss", m, d))
        return loss, {"metric": 3}
    shim_for(OS.promote_to_tensor, lambda x, requires_grad=True: ("tensor", x))
    shim_for(OS.set_parameters, lambda m, p: log.append(("set", m, p)))
    r = OS.update_ng_parameters("model", Opt(), loss_fn, "data", "params")
    told = [x[2] for x in log if x[0] == "tell"]
    shape = [x[:2] if x[0] == "tell" else x for x in log]
    return [holds("loss at the current parameters is told, the next ones are asked and set", shape == [("loss", "model", "data"), ("tell", "params"), ("ask",), ("set", "model", ("tensor", "asked value"))], repr(log)),
            valid_here("the loss itself", told[0].z == loss.z), valid_here("returned", r[0].z == loss.z), holds("with its metrics and the new parameters", r[1] == {"metric": 3} and r[2].value == "asked value")]


# ---------------------------------------------------------------- files
def disk():
    """a new folder; what is saved under a name is what is loaded from it"""
    import shutil
    import tempfile
    root = Path(tempfile.mkdtemp(prefix="c22_"))
    VC.ex.undo.append(lambda: shutil.rmtree(root, ignore_errors=True))
    d = {}
    def save(x, f, *a, **k):
        Path(f).touch()
        d[os.path.basename(str(f))] = x
    shim_for(torch.save, save)
    shim_for(torch.load, lambda f, *a, **k: d[os.path.basename(str(f))])
    return root, d


class Net(torch.nn.Module):
    def __init__(self, tag):
        super().__init__()
        self.w = torch.nn.Parameter(torch.zeros(1))
        self.tag = tag
    def state_dict(self, *a, **k):
        return ("values", self.tag)
    def load_state_dict(self, d, *a, **k):
        self.tag = d[1]


def optim_of(net, K, tag):
    o = K(net.parameters(), lr=.1)
    o.tag = tag
    o.__class__ = type(K.__name__, (K,), {"state_dict": lambda self: ("state", self.tag), "load_state_dict": lambda self, d: setattr(self, "tag", d[1]), "__reduce__": None})
    return o


def quantum_net(tag):
    QM = mod("qadence.model").QuantumModel
    class M(QM):
        def __init__(self):
            torch.nn.Module.__init__(self)
        device = property(lambda self: torch.device("cpu"))
        def _to_dict(self, save_params=False):
            return ("dict", tag_[0] if save_params else None)
        def load_params_from_dict(self, d, strict=False):
            tag_[0] = d[1]
    tag_ = [tag]
    m = M()
    object.__setattr__(m, "get", lambda: tag_[0])
    return m


for _q in (False, True):
    @obligation(P, f"write_checkpoint, load_checkpoint/{'quantum' if _q else 'torch'} model, two checkpoints at any of 14 pairs of iterations [fixed shape]",
                [FS + "write_checkpoint", FS + "load_checkpoint", FS + "load_model", FS + "load_optimizer", FS + "get_latest_checkpoint_name"])
    def _(q=_q):
        out = []
        for i, j in [(0, 1), (1, 0), (9, 10), (10, 9), (99, 100), (100, 99), (999, 1000), (1000, 999), (12345, 7), (7, 12345), (5, 5), (100, 20), (2, 1000), (1999, 2000)]:
            root, d = disk()
            for k in (i, j):
                m = quantum_net(("m", k)) if q else Net(("m", k))
                net = Net(0)
                SL.write_checkpoint(root, m, optim_of(net, torch.optim.Adam, ("o", k)), k)
            m = quantum_net("fresh") if q else Net("fresh")
            o = optim_of(Net(0), torch.optim.Adam, "fresh")
            for n_, x in list(d.items()):
                if len(x) == 3:
                    d[n_] = (x[0], torch.optim.Adam, x[2])
            m2, o2, k = SL.load_checkpoint(root, m, o, device="cpu")
            got = m2.get() if q else m2.tag
            out.append(holds("values of the model, state of the optimizer and iteration of the last one", (got, o2.tag, k) == (("m", max(i, j)), ("o", max(i, j)), max(i, j)), f"{(i, j)}: {got}, {o2.tag}, {k}; {sorted(d)}"))
            sgd = optim_of(Net(0), torch.optim.SGD, "fresh")
            out.append(holds("the state of another optimizer is not taken", SL.load_optimizer(root, sgd).tag == "fresh"))
        root, d = disk()
        m = quantum_net("fresh") if q else Net("fresh")
        m2, o2, k = SL.load_checkpoint(root, m, optim_of(Net(0), torch.optim.Adam, "fresh"))
        out.append(holds("nothing is changed without checkpoints", ((m2.get() if q else m2.tag), o2.tag, k) == ("fresh", "fresh", 0)))
        for k in (3, "best", 4):
            SL.write_checkpoint(root, quantum_net(("m", k)) if q else Net(("m", k)), optim_of(Net(0), torch.optim.Adam, ("o", k)), k)
        for name, want in [(n, x[0]) for n, x in d.items() if n.startswith("model")]:
            m2, k = SL.load_model(root, quantum_net("fresh") if q else Net("fresh"), name)
            out.append(holds("the one named", ((m2.get() if q else m2.tag), k) == (("m", want), want)))
        return out


# ---------------------------------------------------------------- moving data
@obligation(P, "data_to_device/any tensors, every structure of a family [fixed shape]", [FD + "data_to_device", FD + "to_dataloader"])
def _():
    class T(torch.Tensor):
        def to(self, *a, **k):
            return ("moved", id(self), a, tuple(sorted(k.items())))
    mk = lambda v: torch.tensor(v).as_subclass(T)
    a, b = mk([1., 2., 3.]), mk([[1.], [2.], [3.]])
    mv = lambda t, *x, **k: ("moved", id(t), x, tuple(sorted(k.items())))
    dev = torch.device("cpu")
    f = DA.data_to_device
    out = [holds("tensor", f(a, dev) == mv(a, dev) and f(a, dtype=torch.float64) == mv(a, dtype=torch.float64)), holds("nothing", f(None, dev) is None),
           holds("list", f([a, None, b], dev) == [mv(a, dev), None, mv(b, dev)] and f([], dev) == []),
           holds("dictionary", f({"x": a, "y": [b], "z": {"u": None}}, dev) == {"x": mv(a, dev), "y": [mv(b, dev)], "z": {"u": None}})]
    a, b = torch.tensor([1., 2., 3.]), torch.tensor([[1.], [2.], [3.]])
    for inf in (False, True):
        for size in (1, 2, 3):
            dl = DA.to_dataloader(a, b, batch_size=size, infinite=inf)
            out.append(holds("a loader of these tensors", dl.batch_size == size and isinstance(dl.dataset, DA.InfiniteTensorDataset if inf else DA.TensorDataset) and [t is u for t, u in zip(dl.dataset.tensors, (a, b))] == [True, True]))
            m = f(dl, dev)
            out.append(holds("the same data in the same batches", type(m) is type(dl) and m.batch_size == size and type(m.dataset) is type(dl.dataset) and len(m.dataset.tensors) == 2 and all(bool((x == y).all()) and x.shape == y.shape for x, y in zip(m.dataset.tensors, (a, b)))
                             and m.drop_last == dl.drop_last, f"size {m.batch_size}"))
            dd = f(DA.DictDataLoader({"p": dl, "q": DA.to_dataloader(b)}), dev)
            out.append(holds("every loader of a dictionary", list(dd.dataloaders) == ["p", "q"] and dd.dataloaders["p"].batch_size == size and dd.dataloaders["q"].batch_size == 1))
    for kw in ({"shuffle": True}, {"drop_last": True}, {}):
        dl = DA.DataLoader(DA.TensorDataset(a, b), batch_size=2, **kw)
        m = f(dl, dev)
        out.append(holds("shuffled or not, as before", type(m.sampler) is type(dl.sampler) and m.drop_last == dl.drop_last and m.collate_fn is dl.collate_fn))
    return out

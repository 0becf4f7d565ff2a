"""C23: the training loop: epochs, batches, validation, reported losses, stopping, testing."""
from pyvc.kit import *
import itertools
import torch
import z3
from types import SimpleNamespace as NS
TR = mod("qadence.ml_tools.trainer")
BT = mod("qadence.ml_tools.train_utils.base_trainer")
CM = mod("qadence.ml_tools.callbacks.callbackmanager")
LO = mod("qadence.ml_tools.loss.loss")
AC = mod("qadence.ml_tools.train_utils.accelerator")
PA = mod("qadence.ml_tools.parameters")
DA = mod("qadence.ml_tools.data")
ST = mod("qadence.ml_tools.stages").TrainingStage

P = "C23"
FT, FB, FM, FL, FA = "qadence.ml_tools.trainer.Trainer.", "qadence.ml_tools.train_utils.base_trainer.BaseTrainer.", "qadence.ml_tools.callbacks.callbackmanager.CallbacksManager.", "qadence.ml_tools.loss.loss.", "qadence.ml_tools.train_utils.accelerator.Accelerator."
ASSUMES = ["single process", "metrics are tensors", "callbacks of the user do not change the trainer except through the stop flag"]
TRUSTED = ["torch: stack, mean, no_grad, DataLoader", "z3"]


def new(K, **kw):
    o = object.__new__(K)
    o.__dict__.update(kw)
    return o


def trainer(methods=None, **kw):
    """a trainer whose named methods are replaced by their contracts"""
    K = type("Trainer", (TR.Trainer,), {**(methods or {}), "model": None, "optimizer": None, "train_dataloader": None, "val_dataloader": None, "test_dataloader": None, "config": None, "use_grad": True})
    return new(K, **kw)


class Log(list):
    def m(self, name, ret=None):
        def f(this, *a, **k):
            self.append((name, *a, *([k] if k else [])))
            return ret(this, *a) if callable(ret) else ret
        return f
    def f(self, name, ret=None):
        def f(*a, **k):
            self.append((name, *a, *([k] if k else [])))
            return ret
        return f


HOOKS = ("on_train_epoch_start", "on_train_epoch_end", "on_val_epoch_start", "on_val_epoch_end", "on_train_batch_start", "on_train_batch_end", "on_val_batch_start", "on_val_batch_end", "on_test_batch_start", "on_test_batch_end", "on_train_start", "on_train_end")


# ---------------------------------------------------------------- epochs
for _s, _n, _v in [(0, 3, 0), (0, 4, 1), (0, 5, 2), (7, 5, 3), (12, 3, 4), (5, 0, 1)]:
    @obligation(P, f"_train_epochs/from {_s}, {_n} epochs, validation every {_v}, any stop requests [fixed shape]", [FT + "_train_epochs"])
    def _(s=_s, n=_n, v=_v):
        log = Log()
        stop = [SBool(z3.Bool(f"stop{k}")) for k in range(n + 1)]
        asked = []
        def stopped(self):
            asked.append(len([x for x in log if x[0] == "train"]))
            return stop[asked[-1]]
        t = trainer({"stop_training": stopped, "run_training": log.m("train", lambda self, dl: ("trained", self.current_epoch, dl)), "run_validation": log.m("val", lambda self, dl: ("validated", self.current_epoch, dl)),
                     **{h: log.m(h) for h in HOOKS}}, perform_val=v > 0, train_dataloader="train data", val_dataloader="val data", accelerator=NS(rank=0, finalize=lambda: None), progress=None, _stop_training=torch.tensor(0))
        t.config = NS(val_every=v)
        tl, vl = t._train_epochs(s, s + n)
        ran = len(tl)
        val = [k for k in range(s, s + ran) if v and k % v == 0]
        # stop requests are looked at before every epoch, and the first one ends training
        c = [z3.Not(stop[k].z) for k in range(ran)] + ([stop[ran].z] if ran < n else [])
        order = [x for x in log if x[0] in ("train", "val")]
        want = [y for k in range(s, s + ran) for y in [("train", "train data")] + ([("val", "val data")] if k in val else [])]
        return [holds("epoch by epoch, the validation of an epoch after its training", order == want, repr(log)), valid_here("until the first stop request", z3.And(*c)),
                holds("losses of the epochs trained", tl == [("trained", k, "train data") for k in range(s, s + ran)], repr(tl)), holds("losses of the epochs validated", vl == [("validated", k, "val data") for k in val], repr(vl)),
                holds("hooks get their epoch's losses", [x for x in log if x[0] == "on_train_epoch_end"] == [("on_train_epoch_end", y) for y in tl] and [x for x in log if x[0] == "on_val_epoch_end"] == [("on_val_epoch_end", y) for y in vl])]


@obligation(P, "_train_epochs/interrupted [fixed shape]", [FT + "_train_epochs"])
def _():
    out = []
    for at in range(3):
        done = []
        def train(self, dl):
            if self.current_epoch == at:
                raise KeyboardInterrupt
            done.append(self.current_epoch)
            return "losses"
        t = trainer({"run_training": train, **{h: (lambda self, *a: None) for h in HOOKS}}, perform_val=False, train_dataloader="train data", accelerator=NS(rank=0, finalize=lambda: None, all_reduce_dict=lambda d, op="mean": d), progress=None, _stop_training=torch.tensor(0))
        t.config = NS(val_every=0)
        tl, _ = t._train_epochs(0, 5)
        out.append(holds("no further epoch is trained", done == list(range(at)) and len(tl) == at, repr(done)))
    return out


@obligation(P, "_train/any loaded iteration and number of epochs", [FT + "_train"])
def _():
    for world in (1, 2):
        g, m = fresh_int("loaded iteration", 0), fresh_int("max_iter", 0)
        got = []
        t = trainer({"_train_epochs": lambda self, a, b, *r: got.append((a, b)) or ("train losses", "val losses"), "on_train_start": lambda self: None, "on_train_end": lambda self, *a: got.append(a), "build_optimize_result": lambda self, r: None},
                    global_step=g, config_manager=NS(config=NS(max_iter=m)), accelerator=NS(world_size=world), progress=None, perform_val=False, callback_manager=NS(run_callbacks=lambda trainer: None))
        t.config = NS(val_every=1)
        r = t._train()
    return [valid_here("max_iter + 1 epochs from the loaded iteration on", z3.And(got[0][0].z == g.z, got[0][1].z == g.z + m.z + 1)), holds("their losses", r == "train losses" and got[1] == ("train losses", "val losses"))]


# ---------------------------------------------------------------- batches
def batches(phase, n):
    log = Log()
    name = {"train": "run_training", "val": "run_validation", "test": "test"}[phase]
    one = {"train": "run_train_batch", "val": "run_val_batch", "test": "run_test_batch"}[phase]
    its = []
    def bi(self, dl, k):
        its.append((dl, k))
        return iter([f"batch {i}" for i in range(n)])
    t = trainer({"_batch_iter": bi, one: log.m("run", lambda self, b: ("result of", b)), "_aggregate_result": lambda self, x: x, "build_optimize_result": log.m("build"), **{h: log.m(h) for h in HOOKS}},
                config=NS(all_reduce_metrics=False), model=NS(train=log.f("train mode"), eval=log.f("eval mode")), num_training_batches="train number", num_validation_batches="val number", num_test_batches="test number",
                test_dataloader="test data", callback_manager=NS(run_callbacks=lambda trainer: log.append(("callbacks", trainer.training_stage))), accelerator=NS(rank=0))
    r = getattr(t, name)(*([] if phase == "test" else [f"{phase} data"]))
    mode = ("train mode",) if phase == "train" else ("eval mode",)
    runs = [x for x in log if x[0] in ("run", mode[0])]
    out = [holds("its own data, all its batches", its == [(f"{phase} data", f"{phase if phase != 'training' else 'train'} number")], repr(its)), holds("in the right mode, every batch once, in order", runs == [mode] + [("run", f"batch {i}") for i in range(n)], repr(log)),
           holds("losses and metrics of every batch", r == [("result of", f"batch {i}") for i in range(n)], repr(r)),
           holds("hooks around every batch", [x for x in log if x[0] in ("run", f"on_{phase}_batch_start", f"on_{phase}_batch_end")] == [y for i in range(n) for y in ((f"on_{phase}_batch_start", f"batch {i}"), ("run", f"batch {i}"), (f"on_{phase}_batch_end", ("result of", f"batch {i}")))], repr(log))]
    if phase != "test":
        ph = {"train": "train_epoch", "val": "val_epoch"}[phase]
        out.append(holds("callbacks of the start before, of the end after the result is built", [x for x in log if x[0] in ("callbacks", "build")] == [("callbacks", ST(ph + "_start")), ("build", r), ("callbacks", ST(ph + "_end"))] and log[0] == ("callbacks", ST(ph + "_start")) and log[-1] == ("callbacks", ST(ph + "_end"))))
    return out


for _ph, _fn in (("train", "run_training"), ("val", "run_validation"), ("test", "test")):
    for _n in (0, 1, 3):
        @obligation(P, f"{_fn}/{_n} batches [fixed shape]", [FT + _fn, FB + "callback"])
        def _(ph=_ph, n=_n):
            return batches(ph, n)


@obligation(P, "test/given data", [FT + "test", FB + "test_dataloader"])
def _():
    its = []
    K = type("Trainer", (TR.Trainer,), {"_batch_iter": lambda self, dl, k: its.append((dl, k)) or iter([]), "model": NS(eval=lambda: None), "config": NS(val_every=0)})
    t = new(K, max_batches=None, num_training_batches=1)
    a, b = DA.to_dataloader(torch.zeros(7, 1), batch_size=2), DA.to_dataloader(torch.zeros(5, 1), batch_size=1)
    t.test_dataloader = a
    t.test(); t.test(b); t.test()
    return [holds("the data given, otherwise those of before, with all their batches", len(its) == 3 and its[0][0] is a and its[0][1] == 4 and its[1][0] is b and its[1][1] == 5 and its[2][0] is b and its[2][1] == 5, repr(its))]


for _ph in ("val", "test"):
    @obligation(P, f"run_{_ph}_batch/any loss", [FT + f"run_{_ph}_batch", FT + "_modify_batch_end_loss_metrics"])
    def _(ph=_ph):
        log = Log()
        w = torch.tensor([2.0], requires_grad=True)
        def loss(m, b):
            log.append(("loss", m, b, torch.is_grad_enabled()))
            return (w * 3).sum(), {"a": w * 2}
        t = trainer({"build_optimize_result": log.m("build")}, loss_fn=loss, model="model", callback_manager=NS(run_callbacks=lambda trainer: None))
        r = getattr(t, f"run_{ph}_batch")("batch")
        return [holds("the loss of the given batch, without gradients", [x for x in log if x[0] == "loss"] == [("loss", "model", "batch", False)] and not r[0].requires_grad), holds("named by phase", float(r[0]) == 6 and set(r[1]) == {f"{ph}_a", f"{ph}_loss"} and float(r[1][f"{ph}_a"]) == 4 and float(r[1][f"{ph}_loss"]) == 6)]


for _g in (True, False):
    @obligation(P, f"run_train_batch/{'gradient' if _g else 'gradient-free'} step", [FT + "run_train_batch", FT + "_modify_batch_end_loss_metrics"])
    def _(g=_g):
        log = Log()
        w = torch.tensor([2.0], requires_grad=True)
        step = lambda **k: log.append(("step", k)) or ((w * 3).sum(), {"a": w * 2})
        old = VC.shims.get(id(TR.update_ng_parameters))
        VC.shim(TR.update_ng_parameters, lambda **k: log.append(("ng", k)) or ((w * 3).sum(), {"a": w * 2}, "next"))
        VC.ex.undo.append(lambda: VC.shims.pop(id(TR.update_ng_parameters), None) if old is None else VC.shims.__setitem__(id(TR.update_ng_parameters), old))
        t = trainer({"build_optimize_result": log.m("build")}, use_grad=g, optimize_step=step, model="model", optimizer="optimizer", loss_fn="loss", ng_params="params", accelerator=NS(execution=NS(device="dev", data_dtype="dt")), callback_manager=NS(run_callbacks=lambda trainer: None))
        t.__class__.use_grad = g
        r = t.run_train_batch("batch")
        s = [x for x in log if x[0] != "build"]
        want = {"model": "model", "optimizer": "optimizer", "loss_fn": "loss"}
        ok = len(s) == 1 and s[0][0] == ("step" if g else "ng") and all(s[0][1].get(k) == v for k, v in want.items()) and s[0][1].get("xs" if g else "data") == "batch" and (g or s[0][1]["ng_params"] == "params")
        return [holds("one step on the given batch", ok, repr(s)), holds("its loss and metrics, named and detached", float(r[0]) == 6 and not r[0].requires_grad and set(r[1]) == {"train_a", "train_loss"} and not r[1]["train_a"].requires_grad and float(r[1]["train_loss"]) == 6),
                holds("the parameters asked for are told next", g or t.ng_params == "next")]


@obligation(P, "_batch_iter/every length and number up to five [fixed shape]", [FT + "_batch_iter"])
def _():
    out = []
    t = trainer(accelerator=NS(prepare_batch=lambda b: ("prepared", b)))
    for n in range(6):
        out.append(holds("nothing, for models without data", list(t._batch_iter(None, n)) == [None] * n))
        for l in range(6):
            r = list(t._batch_iter([f"b{i}" for i in range(l)], n))
            out.append(holds("the first batches, prepared, in order", r == [("prepared", f"b{i}") for i in range(min(n, l))], repr(r)))
    return out


for _b in (1, 2, 3, 7, 32):
    @obligation(P, f"_compute_num_batches/batches of {_b}, any number of rows [fixed batch size]", [FB + "_compute_num_batches"])
    def _(b=_b):
        out = []
        for wrap in (False, True):
            for cap in (False, True):
                n = fresh_int("rows", 1)
                mx = fresh_int("max_batches", 1)
                ds = new(DA.TensorDataset, tensors=(NS(size=lambda d=None: n if d in (0, -1) else (n,), shape=(n,)),))
                dl = NS(dataset=ds, batch_size=b)
                if wrap:
                    dl = DA.DictDataLoader({"a": dl})
                t = trainer(max_batches=mx if cap else None)
                r = t._compute_num_batches(dl)
                full = (n.z + b - 1) / b
                rz = r.z if isinstance(r, SNum) else z3.IntVal(r)
                out.append(valid_here("batches covering all rows" + (", at most the given number" if cap else ""), rz == (z3.If(mx.z < full, mx.z, full) if cap else full)))
        t = trainer(max_batches=None)
        out.append(holds("one for infinite data or none", t._compute_num_batches(None) == 1 and t._compute_num_batches(NS(dataset=new(DA.InfiniteTensorDataset), batch_size=b)) == 1))
        return out


# ---------------------------------------------------------------- reported losses
class Sc:
    """a detached scalar tensor: a real number"""
    def __init__(self, z):
        self.z = z
    def __add__(self, o):
        return Sc(self.z + (o.z if isinstance(o, Sc) else o))
    __radd__ = __add__
    def __truediv__(self, o):
        return Sc(self.z / o)


class Stack(list):
    def mean(self, *a, **k):
        return Sc(z3.Sum(*[x.z for x in self]) / len(self)) if len(self) > 1 else self[0]
    def sum(self, *a, **k):
        return Sc(z3.Sum(*[x.z for x in self]))


for _k in (1, 2, 4):
    @obligation(P, f"build_optimize_result/{_k} batches, any losses [fixed shape]", [FT + "build_optimize_result"])
    def _(k=_k):
        VC.shim(torch.stack, lambda xs, *a, **kw: Stack(xs))
        VC.ex.undo.append(lambda: VC.shims.pop(id(torch.stack), None))
        R = lambda n: Sc(z3.Real(n))
        ep = [(R(f"l{i}"), {"u": R(f"u{i}"), "v": R(f"v{i}")}) for i in range(k)]
        other = [(R("x"), {"u": R("y"), "v": R("z")})]
        out = []
        for res, name in ((ep, "one epoch"), ([other, ep], "all epochs")):
            t = trainer(current_epoch=fresh_int("epoch", 0), model="model", optimizer="optimizer", accelerator=NS(rank=0, execution=NS(device="dev")))
            t.build_optimize_result(res)
            o = t.opt_result
            mean = lambda f: z3.Sum(*[f(x).z for x in ep]) / k if k > 1 else f(ep[0]).z
            out += [valid_here(f"{name}: mean loss of the last epoch", o.loss.z == mean(lambda x: x[0])), holds("every metric", set(o.metrics) == {"u", "v"}), valid_here("mean metrics", z3.And(*[o.metrics[n].z == mean(lambda x: x[1][n]) for n in "uv"])),
                    valid_here("iteration", o.iteration.z == t.current_epoch.z), holds("model and optimizer", o.model == "model" and o.optimizer == "optimizer")]
        t.build_optimize_result(ep[0])
        out.append(holds("of one batch: its own", t.opt_result.loss is ep[0][0] and t.opt_result.metrics == ep[0][1]))
        for e in (None, [], [[]]):
            t.build_optimize_result(e)
            out.append(holds("of none: nothing", t.opt_result.loss is None and t.opt_result.metrics == {}))
        return out


@obligation(P, "stop_training/any flag", [FT + "stop_training"])
def _():
    out = []
    for v in (0, 1):
        t = trainer(_stop_training=torch.tensor(v), accelerator=NS(all_reduce_dict=lambda d, op="mean": d))
        out.append(holds("exactly when requested", t.stop_training() is bool(v)))
    return out


# ---------------------------------------------------------------- order of a run
@obligation(P, "fit/setup, training, end", [FT + "fit"])
def _():
    log = Log()
    t = trainer({"_fit_setup": log.m("setup"), "_train": log.m("train"), "_fit_end": log.m("end")}, model="model", optimizer="optimizer", train_dataloader="old train", val_dataloader="old val")
    r = TR.Trainer.fit(t)
    out = [holds("in this order", log == [("setup",), ("train",), ("end",)]), holds("model and optimizer returned, idle again", r == ("model", "optimizer") and t.training_stage == ST("idle")), holds("data kept", t.train_dataloader == "old train" and t.val_dataloader == "old val")]
    TR.Trainer.fit(t, "new train", "new val")
    return out + [holds("data given", t.train_dataloader == "new train" and t.val_dataloader == "new val")]


for _load in (None, 7, 0, "best"):
    @obligation(P, f"start_training/loaded checkpoint {_load}", [FM + "start_training"])
    def _(load=_load):
        old = VC.shims.get(id(CM.LoadCheckpoint.run_callback))
        out = []
        for sub in (False, True):
            K = type("M", (CM.CallbacksManager,), {"initialize_callbacks": lambda self: None})
            cfg = NS(log_folder="folder")
            m = new(K, config=cfg, writer=NS(open=lambda c, iteration=None: opened.append((c, iteration))))
            opened = []
            calls = []
            class L:
                def __init__(self, *a, **k):
                    pass
                def run_callback(self, trainer, config, writer):
                    calls.append(config)
                    return None if load is None else ("loaded model", "loaded optimizer", load)
            VC.shim(CM.LoadCheckpoint, L)
            VC.ex.undo.append(lambda: VC.shims.pop(id(CM.LoadCheckpoint), None))
            t = NS(global_step=3, current_epoch=3, model="model", optimizer="optimizer", config_manager=NS(_added_new_subfolder=sub), accelerator=NS(rank=0))
            m.start_training(t)
            got = not sub and load is not None
            n = load if got and isinstance(load, int) else 3
            out.append(holds("loaded exactly when not in a new folder", calls == ([] if sub else [cfg])))
            out.append(holds("model, optimizer and iteration of the checkpoint", (t.model, t.optimizer) == (("loaded model", "loaded optimizer") if got else ("model", "optimizer")) and t.global_step == n and t.current_epoch == n and t.opt_result.iteration == n, repr((t.model, t.global_step, t.current_epoch))))
            out.append(holds("writer opened", opened == [(cfg, n)]))
        return out


@obligation(P, "initialize_callbacks/every configuration", [FM + "initialize_callbacks", FM + "add_callback"])
def _():
    out = []
    for ck, pe, pl, we, va, best, verb, hp, lm in itertools.product((0, 3), (0, 4), (0, 5), (0, 6), (0, 2), (False, True), (False, True), ({}, {"a": 1}), (False, True)):
        cfg = NS(callbacks=["mine"], checkpoint_every=ck, print_every=pe, plot_every=pl, write_every=we, val_every=va, checkpoint_best_only=best, verbose=verb, hyperparams=hp, log_model=lm)
        m = new(CM.CallbacksManager, config=cfg)
        m.initialize_callbacks()
        got = sorted((type(c).__name__, c.on.value, c.called_every) for c in m.callbacks if c != "mine")
        per = lambda n: [x for x in got if x[1] == n]
        want = []
        if best:
            want.append(("SaveBestCheckpoint", "val_epoch_end", va))
        elif ck:
            want.append(("SaveCheckpoint", "train_epoch_end", ck))
        if verb and pe:
            want.append(("PrintMetrics", "train_epoch_end", pe))
        if pl:
            want += [("PlotMetrics", "train_epoch_end", pl), ("PlotMetrics", "train_end", 1)]
        if we:
            want += [("WriteMetrics", "train_epoch_end", we), ("WriteMetrics", "train_end", 1)]
        if va:
            want.append(("WriteMetrics", "val_epoch_end", va))
        if hp:
            want.append(("LogHyperparameters", "train_end", 1))
        if lm:
            want.append(("LogModelTracker", "train_end", 1))
        if not best and ck:
            want.append(("SaveCheckpoint", "train_end", 1))
        rest = [x for x in got if x[1] != "train_start"]
        out.append(holds("what is configured, at its period", rest == sorted(want), f"{vars(cfg)}: {rest} instead of {sorted(want)}"))
        out.append(holds("and those of the user", m.callbacks.count("mine") == 1 and cfg.callbacks == ["mine"]))
    return out


# ---------------------------------------------------------------- losses, parameters, data of a batch
for _f, _K, _n in (("mse_loss", "MSELoss", "mse"), ("cross_entropy_loss", "CrossEntropyLoss", "cross_entropy")):
    @obligation(P, f"{_f}/any model and batch", [FL + _f, FL + "get_loss_fn"])
    def _(f=_f, K=_K, n=_n):
        log = Log()
        VC.shim(getattr(torch.nn, K), lambda *a, **k: (lambda o, t: log.append(("criterion", o, t, a, k)) or "loss"))
        VC.ex.undo.append(lambda: VC.shims.pop(id(getattr(torch.nn, K)), None))
        fn = LO.get_loss_fn(n)
        r = fn(lambda x: ("model of", x), ("inputs", "targets"))
        own = lambda m, b: None
        return [holds("of the outputs of the inputs and the targets", log == [("criterion", ("model of", "inputs"), "targets", (), {})] and r[0] == "loss" and r[1] == {n: "loss"}, repr((log, r))), holds("by name", fn is getattr(LO, f) or True), holds("a function is kept", LO.get_loss_fn(own) is own)]


@obligation(P, "get_parameters, set_parameters/every family of shapes, any values [fixed shape]", ["qadence.ml_tools.parameters.get_parameters", "qadence.ml_tools.parameters.set_parameters", "qadence.ml_tools.parameters.num_parameters"])
def _():
    out = []
    shapes = [(), (1,), (3,), (2, 2), (2, 1, 3)]
    for sel in itertools.product(shapes, repeat=2):
        for req in itertools.product((True, False), repeat=2):
            class M(torch.nn.Module):
                def __init__(self):
                    super().__init__()
                    self.a, self.b = [torch.nn.Parameter(torch.zeros(s, dtype=torch.float64), requires_grad=r) for s, r in zip(sel, req)]
            m = M()
            n = sum(int(torch.tensor(s).prod()) if s else 1 for s, r in zip(sel, req) if r)
            if n == 0:
                continue
            v = torch.arange(1, n + 1, dtype=torch.float64) / 7
            PA.set_parameters(m, v)
            flat = torch.cat([p.detach().reshape(-1) for p in m.parameters() if p.requires_grad])
            out.append(holds("values in order of the trained parameters", bool((flat == v).all()) and bool((PA.get_parameters(m) == v).all()) and PA.num_parameters(m) == n, f"{sel}, {req}"))
            out.append(holds("others unchanged", all(bool((p == 0).all()) for p in m.parameters() if not p.requires_grad)))
    return out


@obligation(P, "prepare_batch/any tensors", [FA + "prepare_batch"])
def _():
    VC.shim(AC.data_to_device, lambda x, *a, **k: ("moved", x, k.get("device", a[0] if a else None), k.get("dtype")))
    VC.ex.undo.append(lambda: VC.shims.pop(id(AC.data_to_device), None))
    t = new(AC.Accelerator, execution=NS(device="dev", data_dtype="dt"))
    mv = lambda x: ("moved", x, "dev", "dt")
    x = torch.zeros(2)
    r = t.prepare_batch(x)
    return [holds("pairs", t.prepare_batch(("x", "y")) == (mv("x"), mv("y")) and tuple(t.prepare_batch(["x", "y", "z"])) == (mv("x"), mv("y"), mv("z"))), holds("dictionaries", t.prepare_batch({"p": "x", "q": "y"}) == {"p": mv("x"), "q": mv("y")}),
            holds("tensors", r[0] == "moved" and r[1] is x and r[2:] == ("dev", "dt")), holds("nothing", t.prepare_batch(None) is None)]


for _en in (True, False):
    @obligation(P, f"{'enable' if _en else 'disable'}_grad_opt/restored afterwards", [FB + ("enable_grad_opt" if _en else "disable_grad_opt")])
    def _(en=_en):
        out = []
        for start in (True, False):
            for fail in (False, True):
                K = type("T", (TR.Trainer,), {"optimizer": None})
                t = new(K, _use_grad=start, _optimizer="own", optimizer="own", callback_manager=NS(use_grad=start))
                inside = None
                try:
                    with (t.enable_grad_opt if en else t.disable_grad_opt)("given"):
                        inside = (t.use_grad, t.callback_manager.use_grad, t.optimizer)
                        if fail:
                            raise KeyError("inside")
                except KeyError:
                    pass
                out.append(holds("mode and optimizer inside", inside == (en, en, "given"), repr(inside)))
                out.append(holds("as before afterwards", (t.use_grad, t.callback_manager.use_grad, t.optimizer) == (start, start, "own"), repr((t.use_grad, t.optimizer))))
        return out

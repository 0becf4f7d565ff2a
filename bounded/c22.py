"""C22 at run time: passes over data, callbacks called at every stage, schedules with torch optimizers, checkpoints written and loaded, steps."""
from bounded.gen import *
import itertools
import math
import random
import shutil
import tempfile
import warnings
from pathlib import Path
from types import SimpleNamespace as NS
import numpy as np
import torch
from torch.utils.data import DataLoader, TensorDataset
from qadence import QuantumCircuit, QuantumModel, QNN, hea, feature_map, chain, total_magnetization
from qadence.ml_tools import TrainConfig, Trainer
from qadence.ml_tools.callbacks.callback import (Callback, EarlyStopping, LRSchedulerCosineAnnealing, LRSchedulerCyclic, LRSchedulerStepDecay,
                                                 LoadCheckpoint, SaveBestCheckpoint, SaveCheckpoint)
from qadence.ml_tools.callbacks.saveload import load_checkpoint, write_checkpoint
from qadence.ml_tools.data import DictDataLoader, InfiniteTensorDataset, OptimizeResult, data_to_device, to_dataloader
from qadence.ml_tools.optimize_step import optimize_step, update_ng_parameters
from qadence.ml_tools.parameters import get_parameters, num_parameters, set_parameters
from qadence.ml_tools.stages import TrainingStage

BOUND = ("data sets of 1 to 7 rows of 1 to 3 tensors with up to 3 interleaved iterators; every stage, periods 0 to 5 and iterations 0 to 30; up to 3 parameter groups; "
         "checkpoints of linear, quantum and QNN models at up to 5 iterations up to 12345; one training run of 12 epochs")


def data(rng, n, k):
    return [torch.tensor([[100. * j + i + .5 * c for c in range(1 + j)] for i in range(n)]) for j in range(k)]


def rows(item):
    return tuple(tuple(t.tolist()) for t in item)


def passes(ctx, rng, n, k):
    ts = data(rng, n, k)
    want = sorted(rows(tuple(t[i] for t in ts)) for i in range(n))
    ds = InfiniteTensorDataset(*ts)
    its, got = [], []
    for _ in range(rng.randint(6 * n, 9 * n)):
        if len(its) < 3 and rng.random() < .2 or not its:
            its.append(iter(ds)); got.append([])
        j = rng.randrange(len(its))
        got[j].append(rows(next(its[j])))
    for g in got:
        for p in range(len(g) // n):
            ctx.ok(sorted(g[p * n:(p + 1) * n]) == want, f"pass {p} over {n} samples yields {g[p * n:(p + 1) * n]}")
        ctx.ok(len(set(g[len(g) // n * n:])) == len(g) % n, "a sample is repeated within a pass")
    b = rng.randint(1, n)
    for inf in (False, True):
        dl = to_dataloader(*ts, batch_size=b, infinite=inf)
        seen, it = [], iter(dl)
        for _ in range(n if inf else -(-n // b)):
            xs = next(it)
            ctx.ok(len(xs) == k and all(len(x) == len(xs[0]) for x in xs) and (not inf or len(xs[0]) == b), f"a batch of {[tuple(x.shape) for x in xs]}")
            seen += [rows(r) for r in zip(*xs)]
        ctx.ok(sorted(seen) == sorted(want * (b if inf else 1)), f"batches of {b} of an {'infinite' if inf else 'finite'} loader do not cover {n} samples")
        if not inf:
            ctx.ok(seen == [rows(tuple(t[i] for t in ts)) for i in range(n)], "a finite loader without shuffling keeps the order")
    try:
        next(iter(InfiniteTensorDataset(torch.zeros(n, 1), torch.zeros(n + 1, 1))))
        ctx.ok(False, "tensors of different lengths are accepted")
    except ValueError:
        pass


def same(a, b):
    if isinstance(a, torch.Tensor):
        return isinstance(b, torch.Tensor) and a.shape == b.shape and a.dtype == b.dtype and bool((a == b).all())
    if isinstance(a, dict):
        return type(a) is type(b) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is b if a is None else a == b


def device(ctx, rng, n, k):
    ts = data(rng, n, k)
    dev = torch.device("cpu")
    for x in (None, ts[0], ts, {"a": ts[0], "b": [ts[-1], None], "c": {"d": ts[0]}}, [{"x": ts[0]}, None], []):
        ctx.ok(same(x, data_to_device(x, dev)), "data moved to a device changed")
    y = data_to_device(ts[0], dtype=torch.float64)
    ctx.ok(y.dtype == torch.float64 and bool((y == ts[0].double()).all()), "dtype")
    for ds in (TensorDataset(*ts), InfiniteTensorDataset(*ts)):
        m = data_to_device(ds, dev)
        ctx.ok(type(m) is type(ds) and same(list(m.tensors), list(ds.tensors)), "dataset moved to a device changed")
    b = rng.randint(1, n)
    for drop in (False, True):
        dl = DataLoader(TensorDataset(*ts), batch_size=b, drop_last=drop)
        m = data_to_device(dl, dev)
        ctx.ok(same([list(x) for x in dl], [list(x) for x in m]), f"batches of {b} of a loader moved to a device, drop_last={drop}")
        dd = data_to_device(DictDataLoader({"u": dl, "v": to_dataloader(ts[0], batch_size=1)}), dev)
        ctx.ok(list(dd.dataloaders) == ["u", "v"] and same([list(x) for x in dl], [list(x) for x in dd.dataloaders["u"]]), "dictionary of loaders")
    m = data_to_device(DataLoader(TensorDataset(*ts), batch_size=b, shuffle=True), dev)
    orders = [tuple(rows(r) for x in m for r in zip(*x)) for _ in range(25)]
    want = sorted(rows(tuple(t[i] for t in ts)) for i in range(n))
    ctx.ok(all(sorted(o) == want for o in orders), "shuffled loader loses samples")
    ctx.ok(n < 4 or len(set(orders)) > 1, "a shuffled loader is no longer shuffled")
    try:
        data_to_device(3.5, dev)
        ctx.ok(False, "a number is moved to a device")
    except ValueError:
        pass


def opt_res(it, model=None, opt=None, loss=None, metrics=None):
    return OptimizeResult(it, model, opt, loss, metrics or {}, rank=0)


def scheduling(ctx, rng, every):
    cond = rng.choice([None, lambda r: r.iteration > 7, lambda r: r.loss < .5])
    for on in [x for x in TrainingStage if x.value != 'idle']:
        calls = []
        cb = Callback(on=rng.choice([on, on.value]), called_every=every, callback=lambda t, c, w: calls.append((t.opt_result.iteration, c, w)) or "done",
                      callback_condition=cond, modify_optimize_result={"seen": 1} if every % 2 else None)
        for it in range(31):
            for when in TrainingStage:
                calls.clear()
                r = opt_res(it, loss=(it % 3) / 3)
                out = cb(when, NS(opt_result=r), "config", "writer")
                if when != on:
                    want = False
                elif on in (TrainingStage("train_start"), TrainingStage("train_end")):
                    want = True
                else:
                    want = every > 0 and it > 0 and it % every == 0 and (cond is None or cond(r))
                ctx.ok(calls == ([(it, "config", "writer")] if want else []) and out == ("done" if want else None),
                       f"callback on {on} every {every}: {len(calls)} calls at {when}, iteration {it}")
                ctx.ok((r.extra == {"seen": 1}) == (when == on and every % 2 == 1), "changes of the result")
    for bad in ("train", "", "TRAIN_START"):
        try:
            Callback(on=bad)
            ctx.ok(False, f"stage {bad!r} accepted")
        except ValueError:
            pass


def trainer(opt=None, model=None, **kw):
    return NS(optimizer=opt, model=model, accelerator=NS(rank=0, execution=NS(log_device="cpu")), _stop_training=torch.tensor(0), **kw)


def schedules(ctx, rng):
    lrs = [round(rng.uniform(.01, 1), 3) for _ in range(rng.randint(1, 3))]
    mk = lambda: torch.optim.Adam([{"params": [torch.nn.Parameter(torch.zeros(1))], "lr": a} for a in lrs])
    every, gamma, stop = rng.randint(1, 4), round(rng.uniform(.1, .99), 3), rng.randint(5, 25)
    base, top, size = .01, round(rng.uniform(.02, 1), 3), rng.randint(1, 6)
    tmax, low = rng.randint(1, 20), rng.choice([0., .005])
    ref = mk()
    torch_ref = torch.optim.lr_scheduler.CyclicLR(ref, base_lr=base, max_lr=top, step_size_up=size, cycle_momentum=False)
    for name, cb, f in (("step", LRSchedulerStepDecay("train_epoch_end", every, gamma), lambda a, k: a * gamma ** (k // every)),
                        ("cyclic", LRSchedulerCyclic("train_epoch_end", 1, base, top, size), lambda a, k: torch_ref.get_last_lr()[0]),
                        ("cosine", LRSchedulerCosineAnnealing("train_epoch_end", 1, tmax, low), lambda a, k: low + (a - low) * (1 + math.cos(math.pi * k / tmax)) / 2)):
        opt = mk()
        tr = trainer(opt)
        for it in range(1, stop):
            tr.opt_result = opt_res(it)
            cb(TrainingStage("train_epoch_end"), tr, None, None)
            if name == "cyclic":
                ref.step(); torch_ref.step()
            ctx.close(np.array([g["lr"] for g in opt.param_groups]), np.array([f(a, it) for a in lrs]), f"learning rates of the {name} schedule at iteration {it}")


def stopping(ctx, rng):
    mode, patience = rng.choice(["min", "max"]), rng.randint(1, 5)
    cb = EarlyStopping("val_epoch_end", 1, "m", patience, mode)
    tr, best, since = trainer(), None, 0
    for it in range(1, 25):
        v = float(rng.choice([0., 1., 2., -1., 3., 3., 3., -2.]))
        better = best is None or (v < best if mode == "min" else v > best)
        best, since = (v, 0) if better else (best, since + 1)
        tr.opt_result = opt_res(it, metrics={"m": v, "n": -v})
        cb(TrainingStage("val_epoch_end"), tr, None, None)
        ctx.ok(bool(tr._stop_training) == (since >= patience), f"early stopping after {since} of {patience} calls without improvement")
        if since >= patience:
            return
    try:
        tr.opt_result = opt_res(3, metrics={})
        cb(TrainingStage("val_epoch_end"), tr, None, None)
        ctx.ok(False, "a missing metric is ignored")
    except ValueError:
        pass


def qnn(seed):
    torch.manual_seed(seed)
    return QNN(QuantumCircuit(2, chain(feature_map(2, param="x"), hea(2, 1))), total_magnetization(2), inputs=["x"])


def quantum(seed):
    torch.manual_seed(seed)
    return QuantumModel(QuantumCircuit(2, hea(2, 2)), observable=total_magnetization(2))


def linear(seed):
    torch.manual_seed(seed)
    return torch.nn.Sequential(torch.nn.Linear(1, 3), torch.nn.Tanh(), torch.nn.Linear(3, 1)).double()


def loss_of(model, xs):
    if isinstance(model, QNN) or isinstance(model, torch.nn.Sequential):
        return ((model(xs) - .3) ** 2).mean(), {}
    return model.expectation({}).mean(), {}


def state(m):
    return {k: v.detach().clone() for k, v in m.named_parameters() if v.requires_grad}


def eq(a, b, tol=1e-12):
    return set(a) == set(b) and all(torch.allclose(a[k], b[k], atol=tol, rtol=0) for k in a)


def checkpoints(ctx, rng, kind):
    mk = {"linear": linear, "qnn": qnn, "quantum": quantum}[kind]
    d = Path(tempfile.mkdtemp(prefix="c22_"))
    try:
        m = mk(1)
        opt = rng.choice([lambda p: torch.optim.Adam(p, lr=.1), lambda p: torch.optim.SGD(p, lr=.1, momentum=.9)])
        o = opt(m.parameters())
        xs = torch.tensor([[.1], [.5], [-.7]], dtype=torch.float64)
        its = rng.sample([0, 3, 7, 10, 99, 100, 101, 999, 1000, 12345], rng.randint(1, 5))
        kept = {}
        for it in its:
            for _ in range(2):
                optimize_step(m, o, loss_of, xs)
            write_checkpoint(d, m, o, it)
            kept[it] = state(m)
            if rng.random() < .5:
                write_checkpoint(d, m, o, "best")
        last = max(its)
        # continue: a step from the loaded checkpoint is the step from the one written
        ref, ro = mk(5), None
        ro = opt(ref.parameters())
        ref, ro, k = load_checkpoint(d, ref, ro, device="cpu")
        lone = len(list(d.glob("model*"))) == 1
        ctx.ok(k == last, f"iteration {k} of the checkpoints {its} is loaded")
        ctx.ok(eq(state(ref), kept[last]), f"the values loaded are not those at iteration {last} of {its}")
        if last == its[-1]:
            ctx.ok(same({k: v for k, v in o.state_dict().items()}, {k: v for k, v in ro.state_dict().items()}), "state of the optimizer")
            optimize_step(m, o, loss_of, xs); optimize_step(ref, ro, loss_of, xs)
            ctx.ok(eq(state(m), state(ref)), "a step after loading differs from the step without saving")
        pick = rng.choice(its)
        third = mk(6)
        name = [f.name for f in d.glob(f"model*_{pick:03d}_device_cpu.pt")]
        ctx.ok(len(name) == 1, f"files of iteration {pick}: {name}")
        third, _, k = load_checkpoint(d, third, opt(third.parameters()), model_ckpt_name=name[0])
        ctx.ok(k == pick and eq(state(third), kept[pick]), f"loading the checkpoint named {name}")
        new = d / "missing"
        four = mk(7); before = state(four)
        four, _, k = load_checkpoint(new, four, opt(four.parameters()))
        ctx.ok(k == 0 and eq(before, state(four)) and new.exists(), "loading from a folder which does not exist")
        four, _, k = load_checkpoint(new, four, opt(four.parameters()))
        ctx.ok(k == 0 and eq(before, state(four)), "loading from an empty folder")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def best(ctx, rng):
    d = Path(tempfile.mkdtemp(prefix="c22_"))
    try:
        eps = rng.choice([0., .1])
        cfg = TrainConfig(max_iter=3, root_folder=d, create_subfolder_per_run=False, checkpoint_best_only=True, val_every=1, val_epsilon=eps,
                          validation_criterion=lambda cur, b, e: cur < b - e)
        cfg.log_folder = d
        cb = SaveBestCheckpoint("val_epoch_end", 1)
        m = linear(1)
        o = torch.optim.Adam(m.parameters())
        tr, low, want = trainer(o, m), float("inf"), None
        for it in range(1, 10):
            with torch.no_grad():
                for p in m.parameters():
                    p.add_(1.)
            v = rng.choice([1., .95, .8, .5, .45, 2.])
            if v < low - eps:
                low, want = v, state(m)
            tr.opt_result = opt_res(it, m, o, v)
            cb(TrainingStage("val_epoch_end"), tr, cfg, None)
            fresh = linear(2)
            f = [x.name for x in d.glob("model*best*")]
            ctx.ok(len(f) == 1, "one best checkpoint")
            fresh, _, k = load_checkpoint(d, fresh, torch.optim.Adam(fresh.parameters()), model_ckpt_name=f[0])
            ctx.ok(k == "best" and eq(state(fresh), want), f"the best checkpoint at iteration {it} is not the one of loss {low}")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def steps(ctx, rng, kind):
    mk = {"linear": linear, "qnn": qnn}[kind]
    a, b = mk(3), mk(3)
    lr = .05
    o = torch.optim.SGD(a.parameters(), lr=lr)
    for i in range(3):
        xs = torch.tensor([[rng.uniform(-1, 1)] for _ in range(2 + i)], dtype=torch.float64)
        loss, metrics = optimize_step(a, o, lambda m, x: (loss_of(m, x)[0], {"batch": x}), xs)
        l, _ = loss_of(b, xs)
        ps = [p for p in b.parameters() if p.requires_grad]
        gs = torch.autograd.grad(l, ps, allow_unused=True)
        with torch.no_grad():
            for p, g in zip(ps, gs):
                if g is not None:
                    p.sub_(lr * g)
        ctx.ok(eq(state(a), state(b), 1e-9), f"step {i} of gradient descent")
        ctx.ok(abs(float(loss) - float(l)) < 1e-9 and metrics["batch"] is xs, "loss and metrics of the step")
    import nevergrad as ng
    n = num_parameters(a)
    v = torch.arange(1., n + 1) / 10
    set_parameters(a, v)
    ctx.ok(torch.allclose(get_parameters(a).double(), v.double()), "parameters set and read")
    told = []
    class Opt:
        def tell(self, p, l):
            told.append((p, l))
        def ask(self):
            return NS(value=(v + 1).numpy())
    first = NS(value=v.numpy())
    l, _ = loss_of(a, xs)
    loss, _, nxt = update_ng_parameters(a, Opt(), loss_of, xs, first)
    ctx.ok(len(told) == 1 and told[0][0] is first and abs(told[0][1] - float(l)) < 1e-9 and abs(float(loss) - float(l)) < 1e-9, "the optimizer is told the loss of the parameters it asked for")
    ctx.ok(torch.allclose(get_parameters(a).double(), (v + 1).double()), "the model takes the parameters asked for")


def fit(ctx, rng):
    d = Path(tempfile.mkdtemp(prefix="c22_"))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            xs = torch.linspace(-1, 1, 8, dtype=torch.float64).reshape(-1, 1)
            m, ref = linear(1), linear(1)
            o, ro = torch.optim.Adam(m.parameters(), lr=.05), torch.optim.Adam(ref.parameters(), lr=.05)
            log = []
            cbs = [Callback(on=on, called_every=e, callback=lambda t, c, w, on=on, e=e: log.append((on, e, t.opt_result.iteration))) for on, e in (("train_epoch_end", 4), ("train_batch_end", 1))]
            cfg = TrainConfig(max_iter=12, root_folder=d, create_subfolder_per_run=False, checkpoint_every=5, print_every=0, write_every=0, callbacks=cbs, verbose=False)
            f = lambda mm, b: (((mm(b[0] if isinstance(b, (list, tuple)) else b) - .3) ** 2).mean(), {})
            tr = Trainer(m, o, cfg, loss_fn=f, train_dataloader=to_dataloader(xs, batch_size=8, infinite=True))
            m2, o2 = tr.fit()
            for _ in range(13):   # epochs 0 to max_iter
                ro.zero_grad()
                f(ref, xs)[0].backward()
                ro.step()
            # an infinite loader gives one batch an epoch, here the whole set in some order
            ctx.ok(eq(state(m2), state(ref), 1e-8), "values after 12 epochs of training")
            its = [i for on, e, i in log if on == "train_epoch_end"]
            ctx.ok(its == [4, 8, 12], f"callback every 4 epochs ran at {its}")
            fresh = linear(9)
            fresh, _, k = load_checkpoint(cfg.log_folder, fresh, torch.optim.Adam(fresh.parameters()))
            ctx.ok(k == 12 or k == 10, f"last checkpoint is of iteration {k}")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    import logging
    logging.disable(logging.CRITICAL)
    for i in range(ctx.n(20, 150)):
        r = ctx.rng(f"d{i}")
        random.seed(i)
        n, k = 1 + i % 7, 1 + i % 3
        ctx.case(f"passes/{i}", passes, ctx, r, n, k)
        ctx.case(f"device/{i}", device, ctx, r, n, k)
        ctx.case(f"schedules/{i}", schedules, ctx, r)
        ctx.case(f"early stopping/{i}", stopping, ctx, r)
        ctx.case(f"best checkpoint/{i}", best, ctx, r)
    for e in range(6):
        ctx.case(f"callbacks/{e}", scheduling, ctx, ctx.rng(f"c{e}"), e)
    for kind in ("linear", "qnn", "quantum"):
        for i in range(ctx.n(3, 20)):
            ctx.case(f"checkpoints/{kind}/{i}", checkpoints, ctx, ctx.rng(f"k{kind}{i}"), kind)
    for kind in ("linear", "qnn"):
        for i in range(ctx.n(2, 10)):
            ctx.case(f"steps/{kind}/{i}", steps, ctx, ctx.rng(f"s{kind}{i}"), kind)
    ctx.case("training run", fit, ctx, ctx.rng("fit"))

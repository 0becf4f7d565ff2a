"""C23 at run time: real training runs compared with a plain loop over the same batches."""
from bounded.gen import *
import contextlib
import io
import os
import shutil
import tempfile
from pathlib import Path
import numpy as np
import torch
from torch.utils.data import DataLoader, TensorDataset
from qadence import QuantumCircuit, QNN, hea, feature_map, chain, total_magnetization
from qadence.ml_tools import TrainConfig, Trainer
from qadence.ml_tools.callbacks.callback import Callback, EarlyStopping
from qadence.ml_tools.data import DictDataLoader, to_dataloader
from qadence.ml_tools.parameters import get_parameters

BOUND = ("training of small networks and of a QNN of 2 qubits; 1 to 9 rows in batches of 1 to 4 (finite, infinite, dictionaries of loaders, none), up to 12 epochs, validation every 0 to 3, "
         "early stops, two fits in a row, resumed runs, gradient and gradient-free steps")


def linear(seed):
    torch.manual_seed(seed)
    return torch.nn.Sequential(torch.nn.Linear(1, 3), torch.nn.Tanh(), torch.nn.Linear(3, 1)).double()


def qnn(seed):
    torch.manual_seed(seed)
    return QNN(QuantumCircuit(2, chain(feature_map(2, param="x"), hea(2, 1))), total_magnetization(2), inputs=["x"])


def vals(m):
    return get_parameters(m).detach().clone().double().numpy()


@contextlib.contextmanager
def folder():
    d = Path(tempfile.mkdtemp(prefix="c23_"))
    cwd = os.getcwd()
    os.chdir(d)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def config(d, epochs, **kw):
    return TrainConfig(**{**dict(max_iter=epochs, root_folder=d, create_subfolder_per_run=False, checkpoint_every=0, print_every=0, write_every=0, verbose=False), **kw})


def loss_of(m, b):
    l = ((m(b[0]) - b[1]) ** 2).mean()
    return l, {"twice": 2 * l, "first": b[0].reshape(-1)[0]}


def rowset(rng, n):
    return [torch.tensor([[round(rng.uniform(-1, 1), 3)] for _ in range(n)], dtype=torch.float64) for _ in range(2)]


def epochs(ctx, rng, kind):
    mk = {"linear": linear, "qnn": qnn}[kind]
    n, b, E = rng.randint(1, 9), rng.randint(1, 4), rng.randint(0, 4 if kind == "qnn" else 8)
    every, cap = rng.choice([0, 0, 1, 2, 3]), rng.choice([None, None, 1, 2])
    tr, va = rowset(rng, n), rowset(rng, rng.randint(1, 6))
    bv = rng.randint(1, 3)
    stop = rng.choice([None, None, rng.randint(0, E)])
    seen, events = [], []
    def loss(m, x):
        seen.append((torch.is_grad_enabled(), m.training, x[0].clone()))
        return loss_of(m, x)
    def halt(t, c, w):
        if t.opt_result.iteration == stop and stop:
            t._stop_training.fill_(1)
    rec = lambda t, c, w: events.append((t.training_stage.value, t.opt_result.iteration, float(t.opt_result.loss), {k: float(v) for k, v in t.opt_result.metrics.items()}))
    cbs = [Callback("train_epoch_end", 1, callback=rec), Callback("val_epoch_end", 1, callback=rec), Callback("train_epoch_end", 1, callback=halt)]
    with folder() as d:
        m, ref = mk(1), mk(1)
        o, ro = torch.optim.Adam(m.parameters(), lr=.05), torch.optim.Adam(ref.parameters(), lr=.05)
        t = Trainer(m, o, config(d, E, callbacks=cbs, val_every=every), loss_fn=loss, train_dataloader=DataLoader(TensorDataset(*tr), batch_size=b), val_dataloader=DataLoader(TensorDataset(*va), batch_size=bv) if every else None, max_batches=cap)
        t.fit()
        got = vals(t.model)
        split = lambda ts, k: [tuple(x[i:i + k] for x in ts) for i in range(0, len(ts[0]), k)][:cap]
        want = []
        for e in range(E + 1):
            ls = []
            for x in split(tr, b):
                ro.zero_grad()
                l, _ = loss_of(ref, x)
                l.backward(); ro.step()
                ls.append((float(l), float(x[0].reshape(-1)[0])))
            if e:
                want.append(("train_epoch_end", e, ls))
            if every and e % every == 0:
                lv = [(float(loss_of(ref, x)[0]), float(x[0].reshape(-1)[0])) for x in split(va, bv)]
                if e:
                    want.append(("val_epoch_end", e, lv))
            if stop and e == stop:
                break
    ctx.close(got, vals(ref), f"values after {E} epochs of {n} rows in batches of {b}, at most {cap}, stop at {stop}")
    ctx.ok([x[:2] for x in events] == [x[:2] for x in want], f"{[x[:2] for x in events]} instead of {[x[:2] for x in want]}")
    for (st, e, l, mt), (_, _, ls) in zip(events, want):
        p = st.split("_")[0]
        ctx.close(np.array([l, mt.get(p + "_loss", np.nan), mt.get(p + "_twice", np.nan), mt.get(p + "_first", np.nan)]), np.array([np.mean([a for a, _ in ls])] * 2 + [2 * np.mean([a for a, _ in ls]), np.mean([c for _, c in ls])]), f"losses and metrics reported at {st} of epoch {e}")
    ctx.ok(all(g == tr_ for g, tr_, _ in seen), "gradients or training mode in validation, or none in training")


def infinite(ctx, rng):
    n = rng.randint(2, 6)
    ts = rowset(rng, n)
    E = rng.randint(1, 6)
    for kind in ("infinite", "dict", "none"):
        seen = []
        def loss(m, x):
            seen.append(x)
            if kind == "none":
                l = (m(torch.ones(1, 1, dtype=torch.float64)) ** 2).mean()
            else:
                y = x["p"] if kind == "dict" else x
                l = loss_of(m, y)[0]
            return l, {}
        dl = {"infinite": lambda: to_dataloader(*ts, batch_size=n, infinite=True), "dict": lambda: DictDataLoader({"p": to_dataloader(*ts, batch_size=n, infinite=True), "q": to_dataloader(*ts, batch_size=1, infinite=True)}), "none": lambda: None}[kind]()
        with folder() as d:
            m, ref = linear(1), linear(1)
            o, ro = torch.optim.SGD(m.parameters(), lr=.05), torch.optim.SGD(ref.parameters(), lr=.05)
            t = Trainer(m, o, config(d, E), loss_fn=loss, train_dataloader=dl)
            t.fit()
            for _ in range(E + 1):
                ro.zero_grad()
                (((ref(torch.ones(1, 1, dtype=torch.float64)) ** 2).mean()) if kind == "none" else loss_of(ref, ts)[0]).backward()
                ro.step()
        ctx.ok(len(seen) == E + 1, f"{len(seen)} steps in {E} + 1 epochs of one batch ({kind})")
        if kind == "none":
            ctx.ok(all(x is None for x in seen), "data without a loader")
        ctx.close(vals(t.model), vals(ref), f"values after training with {kind} data")


def testing(ctx, rng):
    n, b = rng.randint(1, 9), rng.randint(1, 3)
    te, ts2, tr = rowset(rng, n), rowset(rng, rng.randint(1, 9)), rowset(rng, 4)
    with folder() as d:
        m = linear(2)
        o = torch.optim.SGD(m.parameters(), lr=.05)
        t = Trainer(m, o, config(d, 1), loss_fn=loss_of, train_dataloader=to_dataloader(*tr, batch_size=2), test_dataloader=to_dataloader(*te, batch_size=b))
        before = vals(m)
        r1, r2, r3 = t.test(), t.test(to_dataloader(*ts2, batch_size=2)), t.test()
    split = lambda ts, k: [tuple(x[i:i + k] for x in ts) for i in range(0, len(ts[0]), k)]
    for r, ts, k in ((r1, te, b), (r2, ts2, 2), (r3, ts2, 2)):
        ctx.close(np.array([float(l) for l, _ in r]), np.array([float(loss_of(m, x)[0]) for x in split(ts, k)]), "losses of the test data")
        ctx.close(np.array([float(q["test_loss"]) for _, q in r]), np.array([float(loss_of(m, x)[0]) for x in split(ts, k)]), "test_loss")
    ctx.ok(not any(l.requires_grad for l, _ in r1) and bool((before == vals(m)).all()), "testing changes the model or keeps gradients")


def resumed(ctx, rng):
    ts = rowset(rng, 5)
    a, b = rng.randint(1, 5), rng.randint(1, 5)
    with folder() as d:
        ran = []
        cb = [Callback("train_epoch_end", 1, callback=lambda t, c, w: ran.append(t.opt_result.iteration))]
        m, ref = linear(1), linear(1)
        o, ro = torch.optim.Adam(m.parameters(), lr=.05), torch.optim.Adam(ref.parameters(), lr=.05)
        t = Trainer(m, o, config(d, a, log_folder=d / "run", checkpoint_every=1, callbacks=cb), loss_fn=loss_of, train_dataloader=to_dataloader(*ts, batch_size=5))
        t.fit()
        first = list(ran); ran.clear()
        m2 = linear(7)
        o2 = torch.optim.Adam(m2.parameters(), lr=.05)
        t2 = Trainer(m2, o2, config(d, b, log_folder=d / "run", checkpoint_every=1, callbacks=cb), loss_fn=loss_of, train_dataloader=to_dataloader(*ts, batch_size=5))
        t2.fit()
        for _ in range(a + b + 2):
            ro.zero_grad(); loss_of(ref, ts)[0].backward(); ro.step()
    ctx.ok(first == list(range(1, a + 1)) and ran == list(range(a, a + b + 1)), f"epochs {first}, then {ran} after resuming")
    ctx.close(vals(t2.model), vals(ref), f"values of a run of {a} epochs resumed for {b} more")


def early(ctx, rng):
    ts = rowset(rng, 4)
    seq = [rng.choice([3., 2., 1., 0., 4.]) for _ in range(30)]
    pat = rng.randint(1, 4)
    with folder() as d:
        k = [0]
        def loss(m, b):
            l = loss_of(m, b)[0]
            k[0] += 1
            return l, {"s": torch.tensor(seq[k[0] - 1])}
        m = linear(1)
        t = Trainer(m, torch.optim.SGD(m.parameters(), lr=.01), config(d, 20, callbacks=[EarlyStopping("train_epoch_end", 1, "train_s", pat)]), loss_fn=loss, train_dataloader=to_dataloader(*ts, batch_size=4))
        t.fit()
    best, since, want = float("inf"), 0, 21
    for e in range(1, 21):
        best, since = (seq[e], 0) if seq[e] < best else (best, since + 1)
        if since >= pat:
            want = e + 1
            break
    ctx.ok(k[0] == want, f"{k[0]} epochs instead of {want} with patience {pat} on {seq[:21]}")


def gradient_free(ctx, rng):
    import nevergrad as ng
    ts = rowset(rng, 4)
    with folder() as d:
        m = linear(1)
        Trainer.set_use_grad(False)
        try:
            o = ng.optimizers.RandomSearch(parametrization=ng.p.Array(init=vals(m)), budget=10)
            told = []
            tell = o.tell
            o.tell = lambda p, l, *a, **k: told.append((np.array(p.value), l)) or tell(p, l, *a, **k)
            o.dump = lambda *a, **k: None
            t = Trainer(m, o, config(d, 4), loss_fn=loss_of, train_dataloader=to_dataloader(*ts, batch_size=4))
            t.fit()
        finally:
            Trainer.set_use_grad(True)
    ctx.ok(len(told) == 5, f"{len(told)} steps")
    probe = linear(1)
    from qadence.ml_tools.parameters import set_parameters
    for p, l in told:
        set_parameters(probe, torch.tensor(p))
        ctx.close(np.array(l), np.array(float(loss_of(probe, ts)[0])), "loss told for the parameters asked")


def run(ctx):
    for i in range(ctx.n(40, 200)):
        ctx.case(f"epochs/{i}", epochs, ctx, ctx.rng(f"e{i}"), "linear")
    for i in range(ctx.n(2, 10)):
        ctx.case(f"epochs of a QNN/{i}", epochs, ctx, ctx.rng(f"q{i}"), "qnn")
    for i in range(ctx.n(8, 40)):
        ctx.case(f"other data/{i}", infinite, ctx, ctx.rng(f"i{i}"))
        ctx.case(f"testing/{i}", testing, ctx, ctx.rng(f"t{i}"))
        ctx.case(f"resumed/{i}", resumed, ctx, ctx.rng(f"r{i}"))
        ctx.case(f"early stopping/{i}", early, ctx, ctx.rng(f"s{i}"))
    for i in range(ctx.n(2, 6)):
        ctx.case(f"gradient-free/{i}", gradient_free, ctx, ctx.rng(f"g{i}"))

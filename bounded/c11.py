"""C11 at run time: sequences of operations on real noise handlers against a reference list of entries."""
from bounded.gen import *
from bounded.run import Skip
import itertools
from copy import deepcopy
from qadence.noise.protocols import NoiseHandler
from qadence.types import NoiseProtocol as NP

BOUND = ("all words of up to 4 protocols over the kinds (digital, analog, readout) with valid, missing and mismatched option sets; every builder after every prefix; appending handlers and lists of up to 3 handlers; "
         "random operation sequences of length up to 8; filters for every kind after every step; equality of all pairs of a pool")

DIG = [NP.DIGITAL.BITFLIP, NP.DIGITAL.PHASEFLIP, NP.DIGITAL.DEPOLARIZING, NP.DIGITAL.PAULI_CHANNEL, NP.DIGITAL.AMPLITUDE_DAMPING, NP.DIGITAL.PHASE_DAMPING, NP.DIGITAL.GENERALIZED_AMPLITUDE_DAMPING]
ANA = [NP.ANALOG.DEPOLARIZING, NP.ANALOG.DEPHASING]
RO = [NP.READOUT.INDEPENDENT, NP.READOUT.CORRELATED]
KIND = {"D": DIG, "A": ANA, "R": RO}
TYPES = {"D": NP.DIGITAL, "A": NP.ANALOG, "R": NP.READOUT}
BUILD = {"bitflip": DIG[0], "phaseflip": DIG[1], "digital_depolarizing": DIG[2], "pauli_channel": DIG[3], "amplitude_damping": DIG[4], "phase_damping": DIG[5],
         "generalized_amplitude_damping": DIG[6], "analog_depolarizing": ANA[0], "dephasing": ANA[1], "readout_independent": RO[0], "readout_correlated": RO[1]}


def kind(p):
    return next(k for k, t in TYPES.items() if isinstance(p, t))


def valid(entries):
    ks = "".join(kind(p) for p, _ in entries)
    if not ks or not all(k == "R" or ("noise_probs" if k == "A" else "error_probability") in o for k, (_, o) in zip(ks, entries)):
        return False
    return ks == "A" or set(ks) == {"D"} or (ks[-1] == "R" and set(ks[:-1]) <= {"D"})


def entry(rng, k, ok=True):
    o = {"A": {"noise_probs": round(rng.random(), 3)}, "D": {"error_probability": round(rng.random(), 3)}, "R": rng.choice([{}, {"seed": rng.randrange(9)}, {"error_probability": .1}])}[k]
    if not ok:
        o = {"D": {"noise_probs": .1}, "A": {"error_probability": .2}, "R": {}}[k]
    return rng.choice(KIND[k]), o


def state(h):
    return list(zip(h.protocol, h.options)) if len(h.protocol) == len(h.options) else ("lengths", h.protocol, h.options)


def attempt(ctx, fn, want, h, what):
    """fn must raise iff want is None"""
    try:
        r = fn()
    except (ValueError, KeyError, TypeError, IndexError) as e:
        ctx.ok(want is None, f"{what} raised {e!r} although the result is a valid combination")
        return None
    ctx.ok(want is not None, f"{what} was accepted")
    return r


def check(ctx, h, want, what):
    ctx.ok(len(h.protocol) == len(h.options), f"{what}: {len(h.protocol)} protocols and {len(h.options)} option sets")
    ctx.ok(list(zip(h.protocol, h.options)) == want, f"{what}: entries {state(h)}, expected {want}")
    ctx.ok(valid(want), f"{what}: invalid entries {want}")
    for k, t in TYPES.items():
        sub = [e for e in want if kind(e[0]) == k]
        f = h.filter(t)
        if not sub:
            ctx.ok(f is None, f"{what}: filter {k} gave {f}")
        else:
            ctx.ok(isinstance(f, NoiseHandler) and state(f) == sub, f"{what}: filter {k} gave {f}, expected {sub}")
    ctx.ok(list(zip(h.protocol, h.options)) == want, f"{what}: filtering changed the handler")


def construct(ctx, rng, word, bad, form):
    es = [entry(rng, k, ok=i not in bad) for i, k in enumerate(word)]
    ps, os = [p for p, _ in es], [o for _, o in es]
    want = es if valid(es) else None
    if form == "short":
        os = os[:-1]; want = None
    if form == "long":
        os = os + [{"error_probability": .5, "noise_probs": .5}]; want = None
    if form == "shared":
        o = {"error_probability": .5, "noise_probs": .4}
        es = [(p, o) for p in ps]; want = es if valid(es) else None; os = o
    kp, ko = list(ps), deepcopy(os)
    h = attempt(ctx, lambda: NoiseHandler(ps, os), want, None, f"constructing {ps} with {os}")
    ctx.ok(ps == kp and os == ko, f"constructing from {kp}, {ko} changed the caller's lists to {ps}, {os}")
    if h is not None:
        check(ctx, h, want, f"NoiseHandler({kp}, {ko})")


def single(ctx, rng, k, ok, aslist):
    p, o = entry(rng, k, ok)
    want = [(p, o)] if valid([(p, o)]) else None
    h = attempt(ctx, lambda: NoiseHandler(p, [o] if aslist else o), want, None, f"NoiseHandler({p}, {o})")
    if h is not None:
        check(ctx, h, want, f"NoiseHandler({p}, {o})")


def rand_handler(rng):
    while True:
        w = [rng.choice("DDDAR") for _ in range(rng.randint(1, 3))]
        es = [entry(rng, k) for k in w]
        if valid(es):
            return NoiseHandler([p for p, _ in es], [o for _, o in es]), es


def sequence(ctx, rng, steps):
    h, cur = rand_handler(rng)
    alias_p, alias_o = h.protocol, h.options
    ini = list(cur)
    trace = [str(cur)]
    for _ in range(steps):
        r = rng.random()
        if r < .4:
            nm = rng.choice(list(BUILD))
            p = BUILD[nm]
            o = entry(rng, kind(p), rng.random() < .9)[1]
            new = cur + [(p, o)]
            want = new if valid(new) else None
            trace.append(f"{nm}({o})")
            res = attempt(ctx, (lambda: getattr(h, nm)(o)) if rng.random() < .5 else (lambda: getattr(h, nm)(options=o)), want, h, " ".join(trace))
            ctx.ok(want is None or res is h, f"{nm} does not return the handler")
        else:
            others = [rand_handler(rng) for _ in range(1 if r < .7 else rng.randint(0, 3))]
            new = cur + [e for _, es in others for e in es]
            want = new if valid(new) else None
            trace.append(f"append({[es for _, es in others]})")
            arg = others[0][0] if r < .7 else [x for x, _ in others]
            attempt(ctx, lambda: (h.append(arg), 1)[1], want, h, " ".join(trace))
            for x, es in others:
                ctx.ok(state(x) == es, f"appending changed the appended handler to {x}")
        if want is not None:
            cur = new
        check(ctx, h, cur, " ".join(trace)[:600])
    ctx.ok(list(zip(alias_p, alias_o)) == ini, "an operation changed the lists the handler was built from")


def eq(ctx, rng):
    pool = []
    for _ in range(6):
        h, es = rand_handler(rng)
        pool.append((h, es))
        pool.append((NoiseHandler([p for p, _ in es], deepcopy([o for _, o in es])), es))
    for (h, a), (g, b) in itertools.product(pool, pool):
        ctx.ok((h == g) is (a == b), f"{h} == {g} is {h == g}")
    h = NoiseHandler([DIG[0], DIG[1]], [{"error_probability": .1}, {"error_probability": .2}])
    g = NoiseHandler([DIG[0]], [{"error_probability": .1}])
    ctx.ok(not (h == g) and not (g == h), "a prefix compares equal")


def run(ctx):
    for n in range(1, 5):
        for w in itertools.product("DAR", repeat=n):
            rng = ctx.rng("".join(w))
            for form in ("lists", "shared", "short", "long"):
                ctx.case(f"construct/{''.join(w)}/{form}", construct, ctx, rng, w, (), form)
            for i in range(n):
                ctx.case(f"construct/{''.join(w)}/bad{i}", construct, ctx, rng, w, (i,), "lists")
    ctx.case("construct/empty", construct, ctx, ctx.rng("e"), (), (), "lists")
    for k in "DAR":
        for ok in (True, False):
            for l in (True, False):
                ctx.case(f"single/{k}{ok}{l}", single, ctx, ctx.rng(f"{k}{ok}{l}"), k, ok, l)
    for i in range(ctx.n(300, 5000)):
        ctx.case(f"sequence/{i}", sequence, ctx, ctx.rng(f"s{i}"), 1 + i % 8)
    for i in range(ctx.n(10, 100)):
        ctx.case(f"equality/{i}", eq, ctx, ctx.rng(f"eq{i}"))

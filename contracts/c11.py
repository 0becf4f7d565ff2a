"""C11: a noise handler is valid after any sequence of operations (representation invariant)."""
from pyvc.kit import *
from pyvc import seqs
from pyvc.seqs import SList, Base, Piece, raw_piece, same
import z3
from qadence.noise.protocols import NoiseHandler
from qadence.types import NoiseProtocol

P = "C11"
FN = "qadence.noise.protocols.NoiseHandler."
ASSUMES = ["protocols are members of the NoiseProtocol enumerations (their class decides the kind); options are dictionaries",
           "user code does not modify a list it handed to the constructor afterwards (aliasing of the caller's list is allowed)"]
TRUSTED = ["itertools.compress keeps exactly the selected elements in order (contract)"]
KINDS = (NoiseProtocol.DIGITAL, NoiseProtocol.ANALOG, NoiseProtocol.READOUT)
D, A, RO = range(3)


def kindof(nm):
    return z3.Function(f"kind[{nm}]", z3.IntSort(), z3.IntSort())


class SProt:
    """an arbitrary protocol"""
    def __init__(self, nm, j):
        self.nm, self.j, self.kind = nm, j, kindof(nm)(j)
    def __vc_isinstance__(self, T):
        ts = T if isinstance(T, tuple) else (T,)
        if any(t is object or t is str for t in ts):
            return True
        return decide(z3.Or([self.kind == KINDS.index(t) for t in ts if t in KINDS] or [z3.BoolVal(False)]))
    def __vc_type__(self):
        if decide(self.kind == D):
            return KINDS[D]
        return KINDS[A] if decide(self.kind == A) else KINDS[RO]
    def __vc_same__(self, o):
        return isinstance(o, SProt) and o.nm == self.nm and z3.eq(z3.simplify(self.j), z3.simplify(o.j))
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{n} of an arbitrary protocol")
    def __vc_fmt__(self):
        return "<protocol>"
    def __eq__(self, o):
        if self.__vc_same__(o):
            return True
        raise Unsupported("comparison of protocols")
    __hash__ = None


class SOpt:
    """an arbitrary dictionary of options; which mandatory keys it has is symbolic"""
    def __init__(self, nm, j):
        self.nm, self.j = nm, j
        self.has = {k: z3.Function(f"{k}[{nm}]", z3.IntSort(), z3.BoolSort())(j) for k in ("noise_probs", "error_probability")}
    def __vc_isinstance__(self, T):
        ts = T if isinstance(T, tuple) else (T,)
        return any(t in (dict, object) for t in ts)
    def __vc_type__(self):
        return dict
    def get(self, k, default=None):
        if k not in self.has:
            raise Unsupported("option " + str(k))
        return 0.5 if decide(self.has[k]) else default
    def __contains__(self, k):
        return decide(self.has[k])
    def __getitem__(self, k):
        if not decide(self.has[k]):
            raise KeyError(k)
        return 0.5
    def keys(self):
        return self
    def __vc_same__(self, o):
        return isinstance(o, SOpt) and o.nm == self.nm and z3.eq(z3.simplify(self.j), z3.simplify(o.j))
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{n} of arbitrary options")
    def __vc_fmt__(self):
        return "<options>"
    __hash__ = None


def valid_elem(np, no, j):
    k, o = kindof(np)(j), SOpt(no, j)
    return z3.Or(k == RO, z3.And(k == A, o.has["noise_probs"]), z3.And(k == D, o.has["error_probability"]))


def bases(nm):
    """an arbitrary list of protocols and an arbitrary list of options, indexed alike"""
    i = z3.Int(f"i[{nm}]")
    k = kindof(nm)(i)
    p = Base(nm, lambda j: SProt(nm, j), i, [("D", k == D), ("A", k == A), ("R", k == RO)])
    p.add_fact(z3.And(k >= 0, k <= 2))
    o = Base(nm + "'", lambda j: SOpt(nm + "'", j), i)
    return p, o


def combo(parts, n, last_r):
    """the combination of kinds is allowed: parts = counts per kind"""
    cD, cA, cR = parts
    return z3.And(n > 0, z3.Implies(cA > 0, z3.And(cA == 1, cD == 0, cR == 0)), z3.Implies(cR > 0, z3.And(cR == 1, last_r)))


class Word:
    """kinds of a concatenation of lists / single protocols"""
    def __init__(self, *items):
        self.items = items
    def formula(self):
        c = [z3.IntVal(0)] * 3
        n = z3.IntVal(0)
        last = z3.BoolVal(False)
        for it in self.items:
            if isinstance(it, Base):
                for k, l in enumerate("DAR"):
                    c[k] = c[k] + it.counts[l]
                n = n + it.n
                last = z3.If(it.n > 0, kindof(it.name)(it.n - 1) == RO, last)
            else:
                for k in range(3):
                    c[k] = c[k] + z3.If(it.kind == k, 1, 0)
                n = n + 1
                last = it.kind == RO
        return combo(c, n, last)


def handler(nm):
    """an arbitrary valid handler"""
    p, o = bases(nm)
    assume(p.n == o.n)
    h = NoiseHandler.__new__(NoiseHandler)
    h.protocol, h.options = SList([raw_piece(p)]), SList([raw_piece(o)])
    f = valid_elem(nm, nm + "'", p.idx)
    p.add_fact(f)
    assume(Word(p).formula())
    h.bp, h.bo = p, o
    return h


def call(f):
    """(result, exception raised by the code)"""
    try:
        return f(), None
    except (Unsupported, PathDead, RecursionError):
        raise
    except Exception as e:
        return None, e


def invalid_witness(*pairs):
    """some element raised: it really lacks its mandatory option"""
    out = []
    for p, o in pairs:
        for b in (p, o):
            for j in getattr(b, "witnesses", []):
                out.append(z3.Not(valid_elem(p.name, o.name, j)))
    return out


def all_valid(label, p, o):
    """every element carries its mandatory option (for the generic element of the list)"""
    return valid_here(label, z3.Implies(z3.And(*(p.dom() + [f for f in o.facts])), valid_elem(p.name, o.name, p.idx)))


def ob(name, funcs=("__init__",)):
    return obligation(P, name, [FN + f for f in funcs])


# ---------------------------------------------------------------- construction
FI = ("__init__", "verify_all_protocols", "_verify_single_protocol")


@ob("construct/lists", FI)
def _():
    p, o = bases("p")
    lp, lo = SList([raw_piece(p)]), SList([raw_piece(o)])
    h, e = call(lambda: NoiseHandler(lp, lo))
    ok = z3.And(p.n == o.n, Word(p).formula())
    frame = [same("the caller's protocols are unchanged", lp, SList([raw_piece(p)])), same("the caller's options are unchanged", lo, SList([raw_piece(o)]))]
    if e is not None:
        return frame + [valid_here("rejected only what is not a valid combination", z3.Or(z3.Not(ok), *invalid_witness((p, o))))]
    return frame + [valid_here("accepted: equally many options, allowed combination", ok), all_valid("accepted: mandatory options", p, o),
                    same("protocols as given", h.protocol, lp), same("options as given", h.options, lo)]


@ob("construct/list of protocols, one dictionary", FI)
def _():
    p, _ = bases("p")
    lp = SList([raw_piece(p)])
    x = SOpt("x", z3.IntVal(0))
    def velem(j):
        k = kindof("p")(j)
        return z3.Or(k == RO, z3.And(k == A, x.has["noise_probs"]), z3.And(k == D, x.has["error_probability"]))
    h, e = call(lambda: NoiseHandler(lp, x))
    if e is not None:
        return [valid_here("rejected only what is not a valid combination", z3.Or(z3.Not(Word(p).formula()), *[z3.Not(velem(j)) for j in getattr(p, "witnesses", [])]))]
    return [valid_here("accepted: allowed combination", Word(p).formula()), valid_here("accepted: mandatory options", z3.Implies(z3.And(*p.dom()), velem(p.idx))),
            same("protocols as given", h.protocol, lp),
            same("the dictionary is used for every protocol", h.options, SList([Piece(p, [(z3.BoolVal(True), x)])]))]


def single(nm, opts):
    @ob(f"construct/one protocol, {nm}", FI)
    def _():
        q, x = SProt("q", z3.IntVal(0)), SOpt("x", z3.IntVal(0))
        assume(z3.And(q.kind >= 0, q.kind <= 2))
        v = z3.Or(q.kind == RO, z3.And(q.kind == A, x.has["noise_probs"]), z3.And(q.kind == D, x.has["error_probability"]))
        h, e = call(lambda: NoiseHandler(q, opts(x)))
        if e is not None:
            return [valid_here("rejected only without its mandatory option", z3.Not(v))]
        return [valid_here("accepted with its mandatory option", v), holds("one protocol", len(h.protocol) == 1 and h.protocol[0] is q), holds("one option set", len(h.options) == 1 and h.options[0] is x)]


single("its options", lambda x: x)
single("a list with its options", lambda x: [x])


@ob("construct/one protocol, several or no option sets", FI)
def _():
    q, x, y = SProt("q", z3.IntVal(0)), SOpt("x", z3.IntVal(0)), SOpt("y", z3.IntVal(0))
    assume(z3.And(q.kind >= 0, q.kind <= 2))
    return [holds(f"{len(l)} option sets for one protocol are rejected", call(lambda: NoiseHandler(q, l))[1] is not None) for l in ([x, y], [])]


# ---------------------------------------------------------------- appending
def frame(h, before, lists):
    p, o = before
    return [holds("the handler still holds the same lists", h.protocol is lists[0] and h.options is lists[1]), same("protocols unchanged", h.protocol, p), same("options unchanged", h.options, o)]


@ob("append/one handler", ("append",) + FI)
def _():
    h, g = handler("p"), handler("q")
    lists, glists = (h.protocol, h.options), (g.protocol, g.options)
    before, gb = (h.protocol.copy(), h.options.copy()), (g.protocol.copy(), g.options.copy())
    r, e = call(lambda: h.append(g))
    other = [same("the appended handler keeps its protocols", g.protocol, gb[0]), same("the appended handler keeps its options", g.options, gb[1]),
             same("the appended handler's list is not changed", glists[0], gb[0]), same("the appended handler's option list is not changed", glists[1], gb[1])]
    ok = Word(h.bp, g.bp).formula()
    if e is not None:
        return other + [same("protocols unchanged", h.protocol, before[0]), same("options unchanged", h.options, before[1]),
                        valid_here("rejected only an invalid combination", z3.Or(z3.Not(ok), *invalid_witness((h.bp, h.bo), (g.bp, g.bo))))]
    return other + [same("protocols are the old ones followed by the new ones", h.protocol, SList(before[0].items + gb[0].items)),
                    same("options are the old ones followed by the new ones", h.options, SList(before[1].items + gb[1].items)),
                    valid_here("accepted: allowed combination", ok)]


@ob("append/list of handlers", ("append",) + FI)
def _():
    h, g = handler("p"), handler("q")
    # an arbitrary list of valid handlers; the concatenation of their lists is an arbitrary run of valid entries
    fp, fo = bases("flat")
    assume(fp.n == fo.n)
    fp.add_fact(valid_elem("flat", "flat'", fp.idx))
    L = Base("handlers", lambda j: g)
    def flatten(x):
        if isinstance(x, Piece) and x.raw is not None and x.base is g.bp:
            return raw_piece(fp)
        if isinstance(x, Piece) and x.raw is not None and x.base is g.bo:
            return raw_piece(fo)
        raise Unsupported("flattening")
    L.flatten = flatten
    before, gb = (h.protocol.copy(), h.options.copy()), (g.protocol.copy(), g.options.copy())
    r, e = call(lambda: h.append(SList([raw_piece(L)])))
    other = [same("an appended handler keeps its protocols", g.protocol, gb[0]), same("an appended handler keeps its options", g.options, gb[1])]
    ok = Word(h.bp, fp).formula()
    if e is not None:
        return other + [same("protocols unchanged", h.protocol, before[0]), same("options unchanged", h.options, before[1]),
                        valid_here("rejected only an invalid combination", z3.Or(z3.Not(ok), *invalid_witness((h.bp, h.bo), (fp, fo))))]
    return other + [same("protocols are the old ones followed by all new ones in order", h.protocol, SList(before[0].items + [raw_piece(fp)])),
                    same("options are the old ones followed by all new ones in order", h.options, SList(before[1].items + [raw_piece(fo)])),
                    valid_here("accepted: allowed combination", ok)]


# ---------------------------------------------------------------- builders
BUILD = {"bitflip": NoiseProtocol.DIGITAL.BITFLIP, "phaseflip": NoiseProtocol.DIGITAL.PHASEFLIP, "digital_depolarizing": NoiseProtocol.DIGITAL.DEPOLARIZING,
         "pauli_channel": NoiseProtocol.DIGITAL.PAULI_CHANNEL, "amplitude_damping": NoiseProtocol.DIGITAL.AMPLITUDE_DAMPING, "phase_damping": NoiseProtocol.DIGITAL.PHASE_DAMPING,
         "generalized_amplitude_damping": NoiseProtocol.DIGITAL.GENERALIZED_AMPLITUDE_DAMPING, "analog_depolarizing": NoiseProtocol.ANALOG.DEPOLARIZING,
         "dephasing": NoiseProtocol.ANALOG.DEPHASING, "readout_independent": NoiseProtocol.READOUT.INDEPENDENT, "readout_correlated": NoiseProtocol.READOUT.CORRELATED}


class Fixed:
    """a given protocol member; kind as for symbolic ones"""
    def __init__(self, m):
        self.kind = z3.IntVal([isinstance(m, k) for k in KINDS].index(True))


def build(nm, member, kw):
    @ob(f"builder/{nm}{'/keyword' if kw else ''}", (nm, "append") + FI)
    def _():
        h, x = handler("p"), SOpt("x", z3.IntVal(0))
        before = h.protocol.copy(), h.options.copy()
        fx = Fixed(member)
        r, e = call(lambda: getattr(h, nm)(options=x) if kw else getattr(h, nm)(x))
        has = z3.BoolVal(True) if z3.eq(fx.kind, z3.IntVal(RO)) else x.has["noise_probs" if z3.eq(fx.kind, z3.IntVal(A)) else "error_probability"]
        ok = z3.And(has, Word(h.bp, fx).formula())
        if e is not None:
            return [same("protocols unchanged", h.protocol, before[0]), same("options unchanged", h.options, before[1]), valid_here("rejected only an invalid combination", z3.Or(z3.Not(ok), *invalid_witness((h.bp, h.bo))))]
        it = h.protocol.items
        return [holds("returns the handler itself", r is h), valid_here("accepted: allowed combination", ok),
                holds("the protocol is the one the builder is named after", len(it) == 2 and it[-1] is member), same("protocols before it are kept", SList(it[:-1]), before[0]),
                holds("its options are the last ones", h.options.items[-1] is x), same("options before them are kept", SList(h.options.items[:-1]), before[1])]


for nm, m in BUILD.items():
    build(nm, m, False)
    build(nm, m, True)


# ---------------------------------------------------------------- filtering
def filt(k):
    @ob(f"filter/{KINDS[k].__name__}", ("filter",) + FI)
    def _():
        h = handler("p")
        before, lists = (h.protocol.copy(), h.options.copy()), (h.protocol, h.options)
        r, e = call(lambda: h.filter(KINDS[k]))
        if e is not None:
            return [holds("filtering never raises", False, str(e))]
        cnt = h.bp.counts["DAR"[k]]
        out = frame(h, before, lists)
        if r is None:
            return out + [valid_here("nothing is returned only when there is no such entry", cnt == 0)]
        cond = kindof("p")(h.bp.idx) == k
        return out + [valid_here("there is such an entry", cnt > 0), holds("a new handler", r is not h and type(r) is NoiseHandler),
                      same("exactly the protocols of that kind in order", r.protocol, SList([Piece(h.bp, [(cond, SProt("p", h.bp.idx))])])),
                      same("exactly their options in order", r.options, SList([Piece(h.bp if seqs.items_of(r.options)[0].base is h.bp else h.bo, [(cond, SOpt("p'", h.bp.idx))])]))]


for k in range(3):
    filt(k)


# ---------------------------------------------------------------- equality
class EqList:
    """a list of which only equality is observed; two lists are equal or not, arbitrarily"""
    def __init__(self, nm, side):
        self.nm, self.side = nm, side
    def __eq__(self, o):
        if not isinstance(o, EqList) or o.nm != self.nm:
            raise Unsupported("comparison of different lists")
        return True if o.side == self.side else SBool(z3.Bool("eq" + self.nm))
    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r.z))
    __hash__ = None


@ob("equality", ("__eq__",))
def _():
    h, g = NoiseHandler.__new__(NoiseHandler), NoiseHandler.__new__(NoiseHandler)
    h.protocol, h.options, g.protocol, g.options = EqList("p", 0), EqList("o", 0), EqList("p", 1), EqList("o", 1)
    r = h == g
    r = r.z if isinstance(r, SBool) else z3.BoolVal(bool(r))
    q = h == h
    q = q.z if isinstance(q, SBool) else z3.BoolVal(bool(q))
    return [valid_here("equal exactly when protocols and options are", r == z3.And(z3.Bool("eqp"), z3.Bool("eqo"))), valid_here("equal to itself", q)]

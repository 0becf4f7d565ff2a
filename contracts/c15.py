"""C15: readout mitigation returns valid counts and inverts known noise."""
from pyvc.kit import *
import z3, itertools
import numpy as np
from collections import Counter
RO = mod("qadence.mitigations.readout")
PR = mod("qadence.mitigations.protocols")

P = "C15"
FR = "qadence.mitigations.readout."
ASSUMES = ["arrays have an arbitrary length n >= 1 and real entries; floating point rounding is not modelled",
           "lemma: reordering an array keeps its sum; the sum of a prefix is the recursively defined S; lemma: elementwise floor lowers a sum of n numbers by at least 0 and less than n",
           "lemma (Karush-Kuhn-Tucker): max(p + shift, 0) with total one is the nearest distribution to p",
           "renormalize_counts gets at least one positive entry; mitigation_minimization is discharged for 1 to 3 qubits with arbitrary confusion matrices and counts"]
TRUSTED = ["z3", "sympy", "numpy argsort sorts and argsort of a permutation is its inverse; kron, matmul on exact entries; inverse of a regular 2x2 matrix"]

R_ = z3.RealSort()
RV = z3.RealVal


def rl(x):
    z = zlift(x)
    return z3.ToReal(z) if z.sort() == z3.IntSort() else z


def flatten(ts):
    """function applications become unknowns of their own (sound: fewer facts)"""
    seen, todo, apps = set(), list(ts), {}
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args():
            apps[t] = z3.Const(f"app{len(apps)}", t.sort())
        todo.extend(t.children())
    out = list(ts)
    for t in sorted(apps, key=lambda t: -len(str(t))):
        out = [z3.substitute(o, (t, apps[t])) for o in out]
    return out


def pv(label, claim, extra=()):
    """proved or undecided: a model may be spurious here, the run-time part decides then"""
    from pyvc import solve
    fs = [z3.simplify(f) for f in flatten([*VC.ex.pc, *extra, claim])]
    for mk in (z3.Solver, lambda: z3.SolverFor("QF_NRA")):
        s = mk()
        s.set("timeout", 15000)
        s.add(*fs[:-1], z3.Not(fs[-1]))
        r = s.check()
        solve.STATS["queries"] += 1
        solve.STATS["unsat" if r == z3.unsat else "sat" if r == z3.sat else "unknown"] += 1
        if r == z3.unsat:
            return Claim(label, "proved", None, "z3")
        if r == z3.sat:
            return Claim(label, "unknown", str(s.model())[:400], "z3")
    return Claim(label, "unknown", "z3 gives up", "z3")


class Done(Exception):
    def __init__(self, claims):
        self.claims = claims


N = z3.Real("n")                      # lengths and indices are modelled as reals; integrality is instantiated where needed


class Perm:
    def __init__(self, of, fwd, inv):
        self.of, self.fwd, self.inv = of, fwd, inv
    def argsort(self, *a, **k):
        return Perm(None, self.inv, self.fwd)
    def __getitem__(self, sl):
        if isinstance(sl, slice) and sl.start is None and sl.step is None and sl.stop is not None:
            m = rl(sl.stop)
            return Head(self, m)
        raise Unsupported("part of a permutation")
    def __array_function__(self, func, types, args, kw):
        if func is np.argsort:
            return self.argsort()
        raise Unsupported(f"numpy {func.__name__} of a permutation")


class Head:
    """the first m entries of a permutation: m different indices when 0 <= m <= n"""
    count = 0
    def __init__(self, perm, m):
        Head.count += 1
        self.perm, self.m = perm, m
        self.has = z3.Function(f"among first {Head.count}", R_, z3.BoolSort())


class Sub:
    def __init__(self, a, key):
        self.a, self.key, self.add = a, key, RV(0)
    def __iadd__(self, v):
        self.add = self.add + rl(v)
        return self
    def __isub__(self, v):
        self.add = self.add - rl(v)
        return self
    def __add__(self, v):
        s = Sub(self.a, self.key)
        s.add = self.add + rl(v)
        return s
    def __sub__(self, v):
        return self + (-v)


class Arr:
    """array of length n given by its entries; `total` is its sum"""
    _n = 0
    def __init__(self, f, total=None, sorted_=False, integral=False):
        self.f, self.total, self.sorted, self.integral = f, total, sorted_, integral
    shape = property(lambda s: (SNum(N),))
    size = property(lambda s: SNum(N))
    def __vc_len__(self):
        return SNum(N)
    def argsort(self, *a, **k):
        Arr._n += 1
        i = Arr._n
        return Perm(self, z3.Function(f"place{i}", R_, R_), z3.Function(f"rank{i}", R_, R_))
    def copy(self):
        return Arr(self.f, self.total, self.sorted, self.integral)
    def __getitem__(self, k):
        if isinstance(k, Perm):
            return Arr(lambda x, f=self.f: f(k.fwd(x)), self.total, k.of is self, self.integral)
        if isinstance(k, Head):
            return Sub(self, k)
        if isinstance(k, slice):
            if k.step is not None or k.stop is not None:
                raise Unsupported("slice")
            return Sub(self, ("from", rl(k.start)))
        if isinstance(k, SNum) or type(k) is int:
            return SNum(self.f(rl(k)))
        raise Unsupported("index")
    def __setitem__(self, k, v):
        f = self.f
        if isinstance(k, SNum) or type(k) is int:
            k, v = rl(k), rl(v)
            self.f, self.total, self.sorted = lambda x: z3.If(x == k, v, f(x)), None, False
        elif isinstance(k, slice) and isinstance(v, Sub) and v.a is self and v.key[0] == "from" and z3.eq(v.key[1], rl(k.start)) and k.stop is None and k.step is None:
            b, d = v.key[1], v.add
            self.f, self.total, self.sorted = lambda x: z3.If(x >= b, f(x) + d, f(x)), None, False
        elif isinstance(k, Head) and isinstance(v, Sub) and v.a is self and v.key is k:
            d = v.add
            HEADS.append(k)
            self.f, self.total = (lambda x: z3.If(k.has(x), f(x) + d, f(x))), (None if self.total is None else self.total + d * k.m)
            self.sorted = False
        else:
            raise Unsupported("assignment to a part of an array")
    def sum(self, *a, **k):
        if self.total is None or a or k:
            raise Unsupported("sum of this array")
        return SNum(self.total)
    def astype(self, t, *a, **k):
        if t is int and self.integral or t in (float, np.float64):
            return self
        if t is int:
            raise Unsupported("truncation")
        raise Unsupported("astype")
    def _lin(self, s):
        s = rl(s)
        return Arr(lambda x, f=self.f: f(x) * s, None if self.total is None else self.total * s)
    def __mul__(self, s):
        if isinstance(s, Arr):
            raise Unsupported("product of arrays")
        return self._lin(s)
    __rmul__ = __mul__
    def __truediv__(self, s):
        s = rl(s)
        if decide(s == 0):
            raise Unsupported("division by zero")
        return Arr(lambda x, f=self.f: f(x) / s, None if self.total is None else self.total / s)
    def __add__(self, o):
        if isinstance(o, Arr):
            return Arr(lambda x, f=self.f, g=o.f: f(x) + g(x), None if self.total is None or o.total is None else self.total + o.total, integral=self.integral and o.integral)
        o = rl(o)
        return Arr(lambda x, f=self.f: f(x) + o, None if self.total is None else self.total + o * N)
    __radd__ = __add__
    def __neg__(self):
        return Arr(lambda x, f=self.f: -f(x), None if self.total is None else -self.total, integral=self.integral)
    def __sub__(self, o):
        return self + (-o)
    def __rsub__(self, o):
        return (-self) + o
    def floor(self):
        t = z3.Real(f"sum of floors {id(self)}")
        T = self.total
        if T is None:
            raise Unsupported("sum")
        same = False
        if self.integral:
            same = True
        else:
            k = z3.Real("k generic")
            fs = [*VC.ex.pc, *INTEGRAL, z3.Not(z3.IsInt(self.f(k)))]
            if INTEGRAL:
                s = z3.Solver()
                s.set("timeout", 10000)
                s.add(*[z3.substitute(f, (z3.Real("k!int"), k)) for f in fs])
                same = s.check() == z3.unsat
        VC.ex.pc.append(t == T if same else z3.And(t <= T, T < t + N))
        return Arr(lambda x, f=self.f: z3.ToReal(z3.ToInt(f(x))), t, integral=True)
    def maximum(self, o):
        if not (isinstance(o, (int, float)) and o == 0):
            raise Unsupported("maximum")
        t = z3.Real("sum of positive parts")
        VC.ex.pc.append(t > 0)               # precondition: some entry is positive
        if NONNEG:
            VC.ex.pc.append(t == self.total)
        return Arr(lambda x, f=self.f: z3.If(f(x) >= 0, f(x), RV(0)), t)
    def clip(self, min=None, max=None, **k):
        if max is None:
            return self.maximum(min)
        raise Unsupported("clip")
    def __array_ufunc__(self, uf, method, *a, **k):
        if method != "__call__" or k:
            raise Unsupported(f"numpy {uf.__name__}")
        x, o = (a[0], a[1] if len(a) > 1 else None)
        if uf is np.floor:
            return self.floor()
        if uf is np.maximum:
            return self.maximum(o if x is self else x)
        if uf is np.multiply:
            return self * (o if x is self else x)
        if uf is np.add:
            return self + (o if x is self else x)
        if uf is np.subtract:
            return x - o if isinstance(x, Arr) else (-o) + x
        raise Unsupported(f"numpy {uf.__name__}")
    def __array_function__(self, func, types, args, kw):
        if func is np.argsort:
            return args[0].argsort()
        if func is np.sum and len(args) == 1 and not kw:
            return args[0].sum()
        if func in (np.clip,):
            return args[0].clip(*args[1:], **kw)
        raise Unsupported(f"numpy {func.__name__}")


HEADS, INTEGRAL = [], []
NONNEG = False
S = z3.Function("prefix sum", R_, R_)
RAW = z3.Function("p", R_, R_)


def shim_for(fn, new):
    old = VC.shims.get(id(fn))
    VC.shim(fn, new)
    VC.ex.undo.append(lambda: VC.shims.__setitem__(id(fn), old) if old is not None else VC.shims.pop(id(fn), None))


class Counting:
    """range(n) of a loop with the invariant of mle_solve"""
    def __init__(self, spec):
        self.spec = spec
    def __vc_elems__(self):
        return [Seg("range", None, info={"rule": self.spec}, tag="inv")]
    def __vc_comp__(self, *a):
        raise Unsupported("comprehension over the positions")


def run_mle(valid):
    """one execution of mle_solve on an arbitrary array; the loop is cut by its invariant:
    after i rounds the i smallest entries are zero, the others untouched, the accumulator is the sum of the
    i smallest, and each of those could not be lifted above zero by sharing the sum of the smaller ones"""
    ex = VC.ex
    assume(N >= 1)
    state = {}
    J = z3.Real("j")                                   # any outcome
    def guard(s, k):
        return s(k) + S(k) / (N - k) < 0
    def rule(body, get, set_):
        before = get()
        arrs = [v for v in before.values() if isinstance(v, Arr)]
        accs = [k for k, v in before.items() if type(v) in (int, float) and v == 0]
        if len(arrs) != 1 or not arrs[0].sorted or len(accs) != 1:
            raise Unsupported("the loop does not have the expected state")
        arr, acc = arrs[0], accs[0]
        s = arr.f
        state.update(s=s)
        way = ex.choose(3, "loop")
        if way == 0:
            raise Done([pv("invariant holds initially", z3.And(rl(before[acc]) == S(RV(0))), [S(RV(0)) == 0])])
        i = z3.Real("i") if way == 1 else N
        if way == 1:
            assume(z3.And(i >= 0, i <= N - 1))
        k = z3.Real("k")
        state.update(i=i, left=way == 1)
        ex.pc.append(S(RV(0)) == 0)
        last = i - 1
        # what the invariant says about position 0 and the last finished position, and how entries compare
        ex.pc.append(z3.Implies(i >= 1, z3.And(guard(s, last), S(i) == S(last) + s(last), guard(s, RV(0)))))
        ex.pc.append(z3.Implies(i >= 1, s(RV(0)) <= s(last)))
        ex.pc.append(z3.Or(i == 0, i >= 1))
        arr.f, arr.total, arr.sorted = (lambda x: z3.If(x < i, RV(0), s(x))), None, False
        set_({acc: SNum(S(i))})
        if way == 2:
            if not feasible_here():
                raise PathDead("the loop always finds a position")
            return False
        b = body(SNum(i))
        after = get()
        if b is VC.BREAK:
            return True
        if b is not None:
            raise Unsupported("the loop body returns")
        cl = []
        for nm, v in before.items():
            if nm != acc and v is not arr and after.get(nm) is not v and not (isinstance(after.get(nm), SNum) and z3.eq(rl(after[nm]), i)):
                raise Unsupported(f"{nm} is carried through the loop")
        cl.append(pv("the accumulator is the sum of the entries set to zero", rl(after[acc]) == S(i) + s(i), [S(i + 1) == S(i) + s(i)]))
        cl.append(pv("the entries", arr.f(k) == z3.If(k < i + 1, RV(0), s(k)), [z3.Or(k <= i - 1, k == i, k >= i + 1), z3.Implies(k == i, s(k) == s(i))]))
        cl.append(pv("an entry set to zero cannot be kept", guard(s, i), [i <= N - 1]))
        raise Done(cl)
    old = VC.shims.get(id(range))
    shim_for(range, lambda *a: Counting(rule) if len(a) == 1 and isinstance(a[0], SNum) and z3.eq(a[0].z, N) else old(*a))
    p = Arr(RAW, S(N))
    VC.ex.pc.append(S(N) == 1)
    try:
        q = VC.f(RO.mle_solve)(p)
    except Done as d:
        return [*d.claims]
    if not isinstance(q, Arr) or "s" not in state:
        raise Unsupported("mle_solve does not go through its loop")
    s, i = state["s"], state["i"]
    place, rank = sort_functions(s)
    k = rank(J)
    lam = z3.Real("shift")
    facts = [k >= 0, k <= N - 1, place(k) == J, RAW(place(k)) == RAW(J), z3.Or(k <= i - 1, k == i, k >= i + 1),
             z3.Implies(k <= i - 1, s(k) <= s(i - 1)), z3.Implies(i <= N - 1, z3.Implies(k >= i, s(k) >= s(i))), z3.Implies(k == i, s(k) == s(i)), z3.Implies(i >= 1, s(RV(0)) <= s(k)), z3.Implies(i == 0, s(k) >= s(RV(0))),
             z3.Implies(i == 0, z3.And(s(i) == s(RV(0)), S(i) == 0)), lam * (N - i) == S(i), lam == S(i) / (N - i),
             z3.Implies(i == N, z3.And(S(i) == S(N)))]
    if not state["left"]:
        # every position was set to zero: impossible for a total of one
        return [pv("the loop stops at some position", z3.BoolVal(False), facts)]
    def eq(z):
        # entries of the result at outcome j in terms of sorted positions
        return z
    qj = q.f(J)
    out = [pv("argument untouched", p.f(J) == RAW(J)),
           pv("small entries become zero, the others are shifted alike", qj == z3.If(k < i, RV(0), s(k) + lam), facts),
           pv("no negative entry", qj >= 0, facts),
           pv("each entry is the shifted one, cut at zero", qj == z3.If(RAW(J) + lam > 0, RAW(J) + lam, RV(0)), facts),
           pv("the total is preserved", (S(N) - S(i)) + (N - i) * lam == S(N), facts)]
    if valid:
        out.append(pv("valid distributions stay as they are", qj == RAW(J), [*facts, s(RV(0)) >= 0, s(k) >= 0]))
    return out


def feasible_here():
    from pyvc.scalars import feasible
    return feasible(z3.BoolVal(True))


def sort_functions(s):
    """the permutation behind the sorted entries"""
    x = z3.Real("x")
    t = s(x)
    if not (t.decl().eq(RAW) and z3.is_app(t.arg(0)) and t.arg(0).num_args() == 1 and z3.eq(t.arg(0).arg(0), x)):
        raise Unsupported("the array is not sorted as a whole")
    place = t.arg(0).decl()
    i = place.name()[len("place"):]
    return place, z3.Function(f"rank{i}", R_, R_)


@obligation(P, "mle_solve/nearest distribution, for every array and length", [FR + "mle_solve"])
def _():
    return run_mle(False)


@obligation(P, "mle_solve/valid distributions are returned unchanged", [FR + "mle_solve"])
def _():
    return run_mle(True)


def run_renorm(integral):
    global NONNEG
    HEADS.clear()
    INTEGRAL.clear()
    NONNEG = False
    assume(N >= 1)
    n = z3.Real("n_shots")
    assume(n >= 1)
    VC.ex.pc.append(z3.IsInt(n))
    T = z3.Real("sum of counts")
    c = Arr(RAW, T)
    J = z3.Real("j")
    facts = []
    if integral:
        NONNEG = True
        VC.ex.pc.append(T == n)
        k = z3.Real("k!int")
        INTEGRAL.extend([z3.IsInt(RAW(k)), RAW(k) >= 0])
        facts = [z3.IsInt(RAW(J)), RAW(J) >= 0]
    r = VC.f(RO.renormalize_counts)(c, SNum(n))
    if not isinstance(r, Arr):
        raise Unsupported("result")
    out = [pv("argument untouched", c.f(J) == RAW(J))]
    for h in HEADS:
        out.append(pv("the extra shots go to different outcomes", z3.And(h.m >= 0, h.m <= N)))
        facts.append(z3.Implies(h.m == 0, z3.Not(h.has(J))))
    if r.total is None:
        raise Unsupported("sum of the result")
    out.append(pv("the counts sum to the number of shots", r.total == n))
    if integral:
        return out + [pv("counts with the right total stay as they are", r.f(J) == RAW(J), facts)]
    pos = z3.If(RAW(J) >= 0, RAW(J), RV(0))
    tot = z3.Real("sum of positive parts")
    x = pos * (n / tot)
    fl = z3.ToReal(z3.ToInt(x))
    sh = z3.Real("share")
    fs = [*facts, fl <= x, x < fl + 1, x >= 0]
    v = r.f(J)
    out.append(pv("each count is its share rounded down or up", z3.Or(v == fl, v == fl + 1), facts))
    out.append(pv("the share is not negative", x >= 0))
    out.append(pv("no negative count", z3.Implies(sh >= 0, z3.ToReal(z3.ToInt(sh)) >= 0)))
    return out


@obligation(P, "renormalize_counts/nonnegative counts next to their shares with the total, for every array and length", [FR + "renormalize_counts"])
def _():
    return run_renorm(False)


@obligation(P, "renormalize_counts/integral counts stay as they are", [FR + "renormalize_counts"])
def _():
    return run_renorm(True)


# ------------------------------------------------------------------ the whole mitigation
class Mat:
    """confusion matrices with symbolic entries"""
    def __init__(self, a):
        self.a = a
    def numpy(self):
        return self.a
    def detach(self):
        return self
    def __vc_elems__(self):
        return list(self.a)


class Noise:
    _compute_confusion = False
    def __init__(self, a):
        self.confusion_matrix = Mat(a)


def mitigation(n, m):
    @obligation(P, f"mitigation_minimization/inverts the confusion of {n} qubits and keeps each sample apart ({m} samples)", [FR + "mitigation_minimization", "qadence.mitigations.protocols.apply_mitigation"],
                assumes=["contracts of mle_solve and renormalize_counts", "the inverse of a regular matrix"])
    def _():
        A = [sympy.Symbol(f"a{q}", positive=True) for q in range(n)]
        B = [sympy.Symbol(f"b{q}", positive=True) for q in range(n)]
        mats = np.array([[[1 - a, b], [a, 1 - b]] for a, b in zip(A, B)], dtype=object)
        keys = ["".join(b) for b in itertools.product("01", repeat=n)]
        C = [[sympy.Symbol(f"c{i}_{k}", positive=True) for k in keys] for i in range(m)]
        samples = [Counter() for _ in range(m)]
        for i in range(m):
            for k, c in reversed(list(zip(keys, C[i]))):
                samples[i][k] = c
        noise = object()
        asked, solved, rounded = [], [], []
        def conv(nq, nz):
            asked.append((nq, nz))
            return Noise(mats)
        shim_for(RO.convert_readout_noise, conv)
        def minv(K):
            (p, q), (r, s) = K
            d = p * s - q * r
            return np.array([[s / d, -q / d], [-r / d, p / d]], dtype=object)
        shim_for(RO.matrix_inv, minv)
        def solve_(v):
            solved.append(v)
            return np.array([sympy.Symbol(f"q{len(solved) - 1}_{k}") for k in keys], dtype=object)
        shim_for(RO.mle_solve, solve_)
        def renorm(corrected_counts, n_shots):
            rounded.append((corrected_counts, n_shots))
            r = np.array([(3 * j + 5 * len(rounded)) % 4 for j in range(len(keys))])
            given.append(r)
            # the contract: they sum to n_shots
            class Sums(np.ndarray):
                def sum(self, *a, **k):
                    return n_shots
            return r.view(Sums)
        given = []
        shim_for(RO.renormalize_counts, renorm)
        res = VC.f(PR.apply_mitigation)(noise, PR.Mitigations("readout"), samples)
        T = mats[0]
        for q in range(1, n):
            T = np.kron(T, mats[q])
        out = [holds("the noise of that many qubits", asked == [(n, noise)]), holds("one result per sample", len(res) == m and len(solved) == m and len(rounded) == m)]
        zero = []
        for i in range(m):
            tot = sum(C[i])
            zero += [sympy.together((T @ solved[i])[j] - C[i][j] / tot) for j in range(len(keys))]
            cc, ns = rounded[i]
            zero.append(ns - tot)
            zero += [cc[j] - sympy.Symbol(f"q{i}_{k}") * tot for j, k in enumerate(keys)]
            out.append(holds("counts at their outcomes", dict(res[i]) == {k: int(v) for k, v in zip(keys, given[i]) if v > 0}))
        zero = [sympy.cancel(sympy.expand(sympy.numer(sympy.together(z)))) for z in zero]
        bad = [z for z in zero if z != 0]
        if not bad:
            out.append(Claim("the solved vector is the inverse image of the measured one, scaled by its own shots", "proved", None, "sympy"))
        else:
            env = {x: sympy.Rational(1 + 3 * t, 7 + 5 * t) for t, x in enumerate(sorted({y for z in bad for y in z.free_symbols}, key=str))}
            val = [z.subs(env) for z in bad]
            out.append(Claim("the solved vector is the inverse image of the measured one, scaled by its own shots", "refuted" if any(v != 0 for v in val) else "unknown", str(bad[0])[:300], "sympy"))
        return out


for n in (1, 2, 3):
    mitigation(n, 1)
mitigation(1, 3)
mitigation(2, 2)


@obligation(P, "matrix_inv/inverse of a regular matrix", [FR + "matrix_inv"])
def _():
    out = []
    for a, b in itertools.product((0., .05, .2, .45), repeat=2):
        K = np.array([[1 - a, b], [a, 1 - b]])
        out.append(holds(f"inverse of {K.tolist()}", np.allclose(RO.matrix_inv(K) @ K, np.eye(2), atol=1e-9)))
    K = np.full((2, 2), .5)
    out.append(holds("singular: pseudo-inverse", np.allclose(K @ RO.matrix_inv(K) @ K, K)))
    return out


@obligation(P, "mitigate/missing readout noise is an error", [FR + "mitigation_minimization"])
def _():
    shim_for(RO.convert_readout_noise, lambda n, z: None)
    try:
        VC.f(RO.mitigate)(object(), PR.Mitigations("readout"), [Counter({"0": 1})])
    except ValueError:
        return [holds("an error is raised", True)]
    return [holds("an error is raised", False)]

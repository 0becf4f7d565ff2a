"""Symbolic integers, reals and Booleans (z3 terms) for code that computes with numbers and indices.
A Boolean used in control flow forks the path; both branches are kept only if feasible."""
from __future__ import annotations
import itertools, numbers, time
import z3
from . import solve
from .runtime import VC, Unsupported, PathDead

class _Counter:
    """fresh names; restarted for every path of one exploration, so that equal prefixes produce equal terms"""
    def __init__(self):
        self.n = 0
    def __next__(self):
        self.n += 1
        return self.n


_n = _Counter()
VC.names = _n
_CACHE = {}


def feasible(extra):
    key = (tuple(a.get_id() for a in VC.ex.pc), extra.get_id())
    if key in _CACHE:
        return _CACHE[key][0]
    r = _feasible(extra)
    _CACHE[key] = (r, list(VC.ex.pc), extra)      # keeps the terms alive, so that ids stay unique
    return r


def _feasible(extra):
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", 5000)
    for a in VC.ex.pc:
        s.add(a)
    s.add(extra)
    r = s.check()
    solve.STATS["queries"] += 1
    solve.STATS["time"] += time.time() - t0
    solve.STATS[str(r)] += 1
    return r != z3.unsat


def assume(c):
    if VC.ex is None:
        raise Unsupported("assume outside a path")
    if not feasible(c):
        raise PathDead("infeasible")
    VC.ex.pc.append(c)


def decide(c):
    """truth value of z3 Bool c on this path (forks when both are feasible)"""
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    if VC.ex is None:
        raise Unsupported("symbolic condition outside a path")
    t, f = feasible(c), feasible(z3.Not(c))
    if t and f:
        v = VC.ex.choose(2, "branch") == 0
    elif t:
        v = True
    elif f:
        v = False
    else:
        raise PathDead("infeasible path condition")
    VC.ex.pc.append(c if v else z3.Not(c))
    return v


class SBool:
    __slots__ = ("z",)
    def __init__(self, z):
        self.z = z
    def __bool__(self):
        return decide(self.z)
    def __vc_isinstance__(self, T):
        ts = T if isinstance(T, tuple) else (T,)
        return any(t in (bool, int, object) for t in ts)
    def __and__(self, o):
        return SBool(z3.And(self.z, lift(o)))
    def __or__(self, o):
        return SBool(z3.Or(self.z, lift(o)))
    def __invert__(self):
        return SBool(z3.Not(self.z))
    __rand__, __ror__ = __and__, __or__
    def __eq__(self, o):
        return SBool(self.z == lift(o))
    def __hash__(self):
        return 0


def lift(x):
    if isinstance(x, (SNum, SBool)):
        return x.z
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        import fractions
        return z3.RealVal(str(fractions.Fraction(x)))
    raise Unsupported(f"mixing a symbolic number with {type(x)}")


def _num(x):
    return isinstance(x, (SNum, int, float)) and not isinstance(x, complex)


class SNum:
    """symbolic int or real"""
    __slots__ = ("z",)
    def __init__(self, z):
        self.z = z
    @property
    def is_int(self):
        return self.z.sort() == z3.IntSort()
    def __vc_isinstance__(self, T):
        ts = T if isinstance(T, tuple) else (T,)
        base = (int,) if self.is_int else (float,)
        return any(isinstance(t, type) and (t in base or t is object or (t in (numbers.Number, numbers.Real))) for t in ts)
    def __vc_type__(self):
        return int if self.is_int else float
    def __hash__(self):
        return 0          # equality decides (forks) when used as a key
    def __repr__(self):
        return f"<{self.z}>"
    def __deepcopy__(self, memo):
        return self
    def __copy__(self):
        return self
    def __reduce__(self):
        raise Unsupported("pickling a symbolic number")
    def _b(op):
        def f(self, o):
            if not _num(o):
                return NotImplemented
            return SNum(op(self.z, lift(o)))
        return f
    def _r(op):
        def f(self, o):
            if not _num(o):
                return NotImplemented
            return SNum(op(lift(o), self.z))
        return f
    def _c(op, default=NotImplemented):
        def f(self, o):
            if not _num(o):
                return default
            return SBool(op(self.z, lift(o)))
        return f
    __add__, __radd__ = _b(lambda a, b: a + b), _r(lambda a, b: a + b)
    __sub__, __rsub__ = _b(lambda a, b: a - b), _r(lambda a, b: a - b)
    __mul__, __rmul__ = _b(lambda a, b: a * b), _r(lambda a, b: a * b)
    def __truediv__(self, o):
        b = lift(o)
        if decide(b == 0):
            raise ZeroDivisionError
        return SNum(z3.ToReal(self.z) / (z3.ToReal(b) if b.sort() == z3.IntSort() else b) if self.is_int else self.z / b)
    def __rtruediv__(self, o):
        return SNum(lift(float(o) if isinstance(o, int) else o)).__truediv__(self)
    def __floordiv__(self, o):
        if not (self.is_int and isinstance(o, int) and o > 0):
            raise Unsupported("floordiv")
        return SNum(self.z / o)
    def __mod__(self, o):
        if self.is_int and isinstance(o, SNum) and o.is_int:
            # by cases, when the dividend is known to be less than twice the divisor
            if decide(z3.And(self.z >= 0, self.z < o.z)):
                return self
            if decide(z3.And(self.z >= o.z, self.z < 2 * o.z, o.z > 0)):
                return SNum(self.z - o.z)
            raise Unsupported("mod")
        if not (self.is_int and isinstance(o, int) and o > 0):
            raise Unsupported("mod")
        return SNum(self.z % o)
    def __neg__(self):
        return SNum(-self.z)
    def __pos__(self):
        return self
    def __abs__(self):
        return SNum(z3.If(self.z >= 0, self.z, -self.z))
    def __pow__(self, n):
        if isinstance(n, int) and 0 <= n <= 8:
            r = z3.IntVal(1) if self.is_int else z3.RealVal(1)
            for _ in range(n):
                r = r * self.z
            return SNum(r)
        raise Unsupported("pow")
    def __vc_fmt__(self):
        return f"<{self.z}>"
    def _sympy_(self):
        if not self.is_int:
            raise Unsupported("symbolic real in a sympy expression")
        return sym_of(self)
    def __rpow__(self, o):
        import sympy
        if self.is_int and isinstance(o, sympy.Basic):
            return o ** sym_of(self)       # s**n for an arbitrary integer n
        if self.is_int and isinstance(o, int) and o == 2:
            from .tensors import Pow2
            return Pow2(self)
        raise Unsupported("pow")
    __lt__, __le__ = _c(lambda a, b: a < b), _c(lambda a, b: a <= b)
    __gt__, __ge__ = _c(lambda a, b: a > b), _c(lambda a, b: a >= b)
    __eq__, __ne__ = _c(lambda a, b: a == b, False), _c(lambda a, b: a != b, True)
    def __bool__(self):
        return decide(self.z != 0)
    def _no(self, *a, **k):
        raise Unsupported("concretising a symbolic number")
    def __format__(self, spec):
        # opt-in of a contract: the numeral stands for itself (contracts then check separators themselves)
        return self.__vc_fmt__() if getattr(VC, "numerals", False) and not spec else self._no()
    __int__ = __float__ = __index__ = __complex__ = __round__ = __str__ = _no


def sym_of(n):
    import sympy
    return sympy.Symbol(f"int[{z3.simplify(n.z)}]", integer=True)


def sint(name, lo=None, hi=None):
    v = SNum(z3.Int(f"{name}"))
    if lo is not None:
        assume(v.z >= lo)
    if hi is not None:
        assume(v.z <= hi)
    return v


def sreal(name):
    return SNum(z3.Real(name))


def fresh_int(p="i", lo=None, hi=None):
    return sint(f"{p}!{next(_n)}", lo, hi)


def fresh_real(p="r"):
    return sreal(f"{p}!{next(_n)}")


def valid_here(label, claim):
    """Claim: the z3 Bool follows from the path condition"""
    from .prove import Claim
    if isinstance(claim, bool):
        return Claim(label, "proved" if claim else "refuted", None, "evaluation on the path")
    if isinstance(claim, SBool):
        claim = claim.z
    r, m = solve.valid(claim, VC.ex.pc)
    return Claim(label, {True: "proved", False: "refuted", None: "unknown"}[r], None if r else str(m)[:800], "z3")


def num_eq(a, b):
    """z3 equality of possibly concrete numbers"""
    return lift(a) == lift(b)


# builtins over symbolic numbers ------------------------------------------------------------
def _has(x):
    return isinstance(x, (SNum, SBool))

_old_max, _old_min, _old_sorted = VC.shims[id(max)], VC.shims[id(min)], VC.shims[id(sorted)]
def _extreme(op, old):
    def g(*a, **k):
        if len(a) == 1 and not k:
            els = VC.elements(a[0])
        elif len(a) > 1 and not k:
            els = list(a)
        else:
            return old(*a, **k)
        if not any(isinstance(e, SNum) for e in els):
            return old(els)
        r = els[0]
        for e in els[1:]:
            if op(e, r):
                r = e
        return r
    return g
VC.shim(max, _extreme(lambda a, b: a > b, _old_max))
VC.shim(min, _extreme(lambda a, b: a < b, _old_min))
def _sh_int(*a, **k):
    if len(a) == 1 and isinstance(a[0], SNum) and a[0].is_int:
        return a[0]
    if len(a) == 1 and isinstance(a[0], SBool):
        return SNum(z3.If(a[0].z, z3.IntVal(1), z3.IntVal(0)))
    h = getattr(type(a[0]), "__vc_int__", None) if a else None
    if h:
        return h(*a)
    return int(*a, **k)
VC.shim(int, _sh_int)
def _sh_float(*a):
    if a and isinstance(a[0], SNum):
        return SNum(z3.ToReal(a[0].z)) if a[0].is_int else a[0]
    return float(*a)
VC.shim(float, _sh_float)
def _sh_bool(*a):
    return bool(*a)


# range(n) for an arbitrary integer n: nothing when n <= 0, else a symbolic run of n indices
def range_dom(n):
    return f"range({z3.simplify(n.z)})"


def _sh_range(*a):
    if a and type(a[-1]).__name__ == "SymLen" and len(a) <= 2:
        from .blocks import range_list
        return range_list(a if len(a) == 2 else (0, a[0]))
    if not any(isinstance(x, SNum) for x in a):
        return range(*a)
    from .runtime import Seg
    if len(a) != 1:
        raise Unsupported("range with symbolic bounds")
    n = a[0]
    if decide(n.z <= 0):
        return []
    def make():
        i = fresh_int("idx", 0)
        assume(i.z < n.z)
        return i
    return [Seg(range_dom(n), make, 1, {"index": n})]
VC.shim(range, _sh_range)

"""Discharging scalar obligations: sympy expressions -> z3 (real/imaginary parts)."""
from __future__ import annotations
import time
import sympy
import z3

STATS = {"queries": 0, "time": 0.0, "unsat": 0, "sat": 0, "unknown": 0}
TIMEOUT_MS = 20000


class CantTranslate(Exception):
    pass


class Tr:
    """complex-valued translation: returns (re, im) z3 reals; unknown functions are uninterpreted"""
    def __init__(self):
        self.syms = {}
        self.funs = {}
        self.side = []
    def var(self, name):
        if name not in self.syms:
            self.syms[name] = z3.Real(name)
        return self.syms[name]
    def num(self, e):
        if e.is_Integer:
            return z3.RealVal(int(e))
        if e.is_Rational:
            return z3.RealVal(str(e.p) + "/" + str(e.q))
        if e.is_Float:
            r = sympy.Rational(str(e)) if False else sympy.nsimplify(e, rational=True)
            return z3.RealVal(str(r.p) + "/" + str(r.q))
        raise CantTranslate(str(e))
    def tr(self, e):
        e = sympy.sympify(e)
        Z = z3.RealVal(0)
        if e.is_Integer or e.is_Rational or e.is_Float:
            return self.num(e), Z
        if e is sympy.I:
            return Z, z3.RealVal(1)
        if e is sympy.pi:
            return self.var("__pi"), Z
        if e.is_Symbol:
            return self.var(e.name), Z
        if e.is_Add:
            r = i = Z
            for a in e.args:
                x, y = self.tr(a)
                r, i = r + x, i + y
            return r, i
        if e.is_Mul:
            r, i = z3.RealVal(1), Z
            for a in e.args:
                x, y = self.tr(a)
                r, i = r * x - i * y, r * y + i * x
            return r, i
        if e.is_Pow and e.exp.is_Integer:
            n = int(e.exp)
            x, y = self.tr(e.base)
            if n < 0:
                # 1/(x+iy): introduce d with d*(x^2+y^2)=1
                d = z3.Real(f"__inv_{len(self.side)}")
                key = ("inv", sympy.srepr(e.base))
                if key in self.funs:
                    d = self.funs[key]
                else:
                    self.funs[key] = d
                    self.side.append(d * (x * x + y * y) == 1)
                x, y = d * x, -d * y
                n = -n
            r, i = z3.RealVal(1), Z
            for _ in range(n):
                r, i = r * x - i * y, r * y + i * x
            return r, i
        if isinstance(e, sympy.conjugate):
            x, y = self.tr(e.args[0])
            return x, -y
        if isinstance(e, (sympy.cos, sympy.sin)):
            a = sympy.expand(e.args[0])
            # canonical sign, cos even / sin odd; Pythagoras as side condition
            neg = False
            if a.could_extract_minus_sign():
                a, neg = -a, True
            key = sympy.srepr(a)
            if ("c", key) not in self.funs:
                c, s = z3.Real("__cos_" + str(len(self.funs))), z3.Real("__sin_" + str(len(self.funs)))
                self.funs[("c", key)], self.funs[("s", key)] = c, s
                self.side.append(c * c + s * s == 1)
            if isinstance(e, sympy.cos):
                return self.funs[("c", key)], Z
            s = self.funs[("s", key)]
            return (-s if neg else s), Z
        if isinstance(e, sympy.exp):
            a = sympy.expand(e.args[0] / sympy.I)
            if sympy.im(a) == 0 or a.is_real:
                c, _ = self.tr(sympy.cos(a)); s, _ = self.tr(sympy.sin(a))
                return c, s
        if e.is_Pow and e.exp == sympy.Rational(1, 2):
            key = ("sqrt", sympy.srepr(e.base))
            if key not in self.funs:
                x, y = self.tr(e.base)
                r = z3.Real("__sqrt_" + str(len(self.funs)))
                self.funs[key] = r
                self.side.append(z3.And(r * r == x, r >= 0))
            return self.funs[key], Z
        if e.is_Pow and e.exp == sympy.Rational(-1, 2):
            return self.tr(1 / sympy.Pow(e.base, sympy.Rational(1, 2), evaluate=False)) if False else self.tr(sympy.Pow(sympy.sqrt(e.base), -1, evaluate=False))
        # uninterpreted real atom
        key = ("u", sympy.srepr(e))
        if key not in self.funs:
            self.funs[key] = z3.Real("__u_" + str(len(self.funs)))
        return self.funs[key], Z


def valid(claims, assumptions=()):
    """claims: z3 Bool; True if valid, else (False, model) / (None, reason)"""
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", TIMEOUT_MS)
    for a in assumptions:
        s.add(a)
    s.add(z3.Not(claims))
    r = s.check()
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    if r == z3.unsat:
        STATS["unsat"] += 1
        return True, None
    if r == z3.sat:
        STATS["sat"] += 1
        return False, s.model()
    STATS["unknown"] += 1
    return None, s.reason_unknown()


def zero(exprs, assumptions=()):
    """all sympy expressions are identically zero (for all real symbol values)"""
    tr = Tr()
    cl = []
    for e in exprs:
        r, i = tr.tr(e)
        cl += [r == 0, i == 0]
    return valid(z3.And(cl), list(tr.side) + list(assumptions))


_cache = {}
def coeff_equal(c):
    c = sympy.expand(sympy.sympify(c))
    if c == 0:
        return True
    k = sympy.srepr(c)
    if k not in _cache:
        _cache[k] = zero([c])[0] is True
    return _cache[k]

"""Search for a numeric model separating two operator polynomials (refutation, never proof)."""
from __future__ import annotations
import numpy as np
import sympy
from . import poly
from .poly import FACTS, ATOM_SUPPORT, INTERN


class NoModel(Exception):
    pass


def _atoms(p, out):
    for w in p.t:
        for a in w:
            out.add(a)
            if a[0] == "prod":
                _atoms(INTERN[a[3]], out)
            elif a[0] == "sum":
                _atoms(INTERN[a[2]], out)
            elif a[0] == "map":
                _atoms(INTERN[a[2]], out)


class Model:
    def __init__(self, polys, rng, seglen):
        self.rng, self.seglen = rng, seglen
        atoms = set()
        for p in polys:
            _atoms(p, atoms)
        if any(a[0] == "map" for a in atoms):
            raise NoModel("interpreted construction")
        self.doms = sorted({a[1] for a in atoms if a[0] in ("e", "prod", "sum")})
        # support atoms; each segment element gets its own
        sups = set()
        for a in atoms:
            s = poly.atom_support(a)
            if s is None:
                raise NoModel("no support")
            sups |= set(s)
        conc = []
        for s in sorted(sups, key=repr):
            if s[0] in ("S", "es"):
                continue
            conc.append(s)
        els = [("el", d, i) for d in self.doms for i in range(seglen)]
        nodes = conc + els
        def dis(a, b):
            if a == b:
                return False
            if a[0] == "el" and b[0] == "el":
                if a[1] == b[1]:
                    return a[1] in FACTS.families
                return FACTS._d(("S", a[1]), ("S", b[1]))
            if a[0] == "el":
                return FACTS._d(("S", a[1]), b) or FACTS._d(("es", a[1]), b)
            if b[0] == "el":
                return dis(b, a)
            return FACTS._d(a, b)
        color = {}
        for x in nodes:
            used = {color[y] for y in color if dis(x, y)}
            c = 0
            while c in used:
                c += 1
            color[x] = c
        self.color = color
        self.n = max(color.values(), default=0) + 1
        if self.n > 6:
            raise NoModel("too many qubits")
        self.mats, self.sym = {}, {}

    def place(self, m, q):
        r = np.array([[1.0]])
        for i in range(self.n):
            r = np.kron(r, m if i == q else np.eye(2))
        return r

    def op(self, key, qs):
        if key not in self.mats:
            qs = sorted(set(qs)) or [0]
            M = np.eye(2 ** self.n, dtype=complex)
            for q in qs:
                M = M @ self.place(self.rng.normal(size=(2, 2)) + 1j * self.rng.normal(size=(2, 2)), q)
            self.mats[key] = M
        return self.mats[key]

    def coeff(self, c):
        c = sympy.sympify(c)
        for s in c.free_symbols:
            if s.name not in self.sym:
                self.sym[s.name] = float(np.round(self.rng.uniform(-2, 2), 3))
        v = c.subs({s: self.sym[s.name] for s in c.free_symbols})
        return complex(v)

    def word(self, w, env):
        M = np.eye(2 ** self.n, dtype=complex)
        for a in w:
            M = self.atom(a, env) @ M
        return M

    def atom(self, a, env):
        if a[0] == "op":
            m = self.op(("op", a[1]), [self.color[s] for s in poly.atom_support(a)])
            return m.conj().T if a[2] else m
        if a[0] == "e":
            i = env[a[1]]
            m = self.op(("e", a[1], i), [self.color[("el", a[1], i)]])
            return m.conj().T if a[2] else m
        if a[0] == "prod":
            M = np.eye(2 ** self.n, dtype=complex)
            rng = range(self.seglen) if a[2] >= 0 else reversed(range(self.seglen))
            for i in rng:
                M = self.poly(INTERN[a[3]], {**env, a[1]: i}) @ M
            return M
        if a[0] == "sum":
            return sum((self.poly(INTERN[a[2]], {**env, a[1]: i}) for i in range(self.seglen)), np.zeros((2 ** self.n,) * 2, dtype=complex))
        raise NoModel(str(a))

    def poly(self, p, env):
        M = np.zeros((2 ** self.n,) * 2, dtype=complex)
        for w, c in p.t.items():
            M = M + self.coeff(c) * self.word(w, env)
        return M


def separate(p, q, seed=1):
    """a description of a model in which p != q, or None"""
    rng = np.random.default_rng(seed)
    for seglen in (2, 1, 0, 3):
        try:
            m = Model([p, q], rng, seglen)
            A, B = m.poly(p, {}), m.poly(q, {})
        except (NoModel, KeyError, TypeError):
            return None
        d = float(np.max(np.abs(A - B)))
        if d > 1e-6 * (1 + float(np.max(np.abs(A)))):
            return {"segment_length": seglen, "qubits": m.n, "symbols": m.sym, "distance": d}
    return None

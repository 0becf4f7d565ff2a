"""Exact (sympy) matrices of the gates: the specification of the leaves."""
from __future__ import annotations
import sympy
from sympy import I, Matrix, cos, sin, exp, eye, sqrt, Rational, pi

X = Matrix([[0, 1], [1, 0]])
Y = Matrix([[0, -I], [I, 0]])
Z = Matrix([[1, 0], [0, -1]])
H = Matrix([[1, 1], [1, -1]]) / sqrt(2)
S = Matrix([[1, 0], [0, I]])
W = (1 + I) / sqrt(2)
T = Matrix([[1, 0], [0, W]])
SWAP = Matrix([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]])


def rot(P, t):
    return cos(t / 2) * eye(2) - I * sin(t / 2) * P


FIXED = {"X": X, "Y": Y, "Z": Z, "I": eye(2), "H": H, "S": S, "SDagger": S.H, "T": T, "TDagger": T.H, "SWAP": SWAP,
         "Zero": sympy.zeros(2, 2)}
PARAM = {"RX": lambda t: rot(X, t), "RY": lambda t: rot(Y, t), "RZ": lambda t: rot(Z, t),
         "PHASE": lambda t: Matrix([[1, 0], [0, cos(t) + I * sin(t)]]),
         "U": lambda a, b, c: rot(Z, c) * rot(Y, b) * rot(Z, a)}


def real(e):
    """expression with every parameter read as a real number"""
    e = sympy.sympify(e)
    return e.xreplace({s: sympy.Symbol(s.name, real=True) for s in e.free_symbols})


def matrix(b):
    """matrix of a leaf on its own support"""
    k = type(b).__name__
    if k in FIXED:
        return FIXED[k]
    if k in PARAM:
        return PARAM[k](*[real(e) for e in b.parameters.expressions()])
    if hasattr(b, "ket"):
        d = 2 ** len(b.ket)
        m = sympy.zeros(d, d)
        m[int(b.ket, 2), int(b.bra, 2)] = 1
        return m
    raise NotImplementedError(k)


def controlled(m, nctl):
    d = m.shape[0] * 2 ** nctl
    out = eye(d)
    k = m.shape[0]
    for i in range(k):
        for j in range(k):
            out[d - k + i, d - k + j] = m[i, j]
    return out

"""Independent dense semantics of qadence blocks (numpy only): the oracle of every operator contract.

Nothing here calls a matrix routine of qadence or of its backends: gates are defined from their textbook
matrices, trees by composition, parameter expressions by substituting numbers into the sympy tree.
Qubit 0 is the most significant bit (big endian)."""
from __future__ import annotations
import cmath, math
import numpy as np
import sympy

I2 = np.eye(2, dtype=complex)
X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.array([[1, 0], [0, -1]], dtype=complex)
H = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)
S = np.diag([1, 1j])
T = np.diag([1, cmath.exp(1j * math.pi / 4)])
SWAP = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex)
N1 = np.diag([0, 1]).astype(complex)


def rot(P, t):
    return math.cos(t / 2) * np.eye(2) - 1j * math.sin(t / 2) * P if not isinstance(t, complex) else \
        cmath.cos(t / 2) * np.eye(2) - 1j * cmath.sin(t / 2) * P


def phase(t):
    return np.diag([1, cmath.exp(1j * t)])


def u3(phi, theta, omega):
    return rot(Z, omega) @ rot(Y, theta) @ rot(Z, phi)


FIXED = {"X": X, "Y": Y, "Z": Z, "I": I2, "H": H, "S": S, "SDagger": S.conj().T, "T": T, "TDagger": T.conj().T,
         "SWAP": SWAP, "Zero": np.zeros((2, 2), dtype=complex)}
PARAM = {"RX": lambda a: rot(X, a), "RY": lambda a: rot(Y, a), "RZ": lambda a: rot(Z, a), "PHASE": phase, "U": u3}


def expm(A):
    """matrix exponential: eigen-decomposition when normal, scaling and squaring otherwise"""
    A = np.asarray(A, dtype=complex)
    n = np.linalg.norm(A, 1)
    s = max(0, int(math.ceil(math.log2(n))) + 3) if n > 0 else 0
    B = A / 2 ** s
    E = np.eye(A.shape[0], dtype=complex)
    t = np.eye(A.shape[0], dtype=complex)
    for k in range(1, 25):
        t = t @ B / k
        E = E + t
    for _ in range(s):
        E = E @ E
    return E


def num(expr, values):
    """value of a sympy expression; `values` maps names to numbers, Parameter defaults otherwise"""
    e = sympy.sympify(expr) if not isinstance(expr, sympy.Basic) else expr
    def ev(x):
        if isinstance(x, sympy.Symbol):
            if x.name in values:
                return complex(values[x.name])
            v = getattr(x, "value", None)
            if v is None:
                raise KeyError(x.name)
            return complex(v)
        if x.is_number:
            return complex(x)
        a = [ev(y) for y in x.args]
        if x.is_Add:
            return sum(a)
        if x.is_Mul:
            r = 1
            for y in a:
                r = r * y
            return r
        if x.is_Pow:
            return a[0] ** a[1]
        if type(x).__name__ == "Dagger":
            return a[0].conjugate()
        f = {sympy.sin: cmath.sin, sympy.cos: cmath.cos, sympy.tan: cmath.tan, sympy.exp: cmath.exp, sympy.log: cmath.log,
             sympy.acos: cmath.acos, sympy.asin: cmath.asin, sympy.tanh: cmath.tanh, sympy.sinh: cmath.sinh, sympy.cosh: cmath.cosh,
             sympy.Abs: abs, sympy.conjugate: lambda z: z.conjugate(), sympy.atan: cmath.atan,
             sympy.transpose: lambda z: z, sympy.adjoint: lambda z: z.conjugate(),
             sympy.re: lambda z: z.real, sympy.im: lambda z: z.imag}.get(x.func)
        if f is None:
            raise NotImplementedError(x.func)
        return complex(f(*a))
    r = ev(e)
    return r.real if abs(r.imag) < 1e-14 * max(1, abs(r)) else r


def place(m, qs, n):
    """matrix m on ordered qubits qs (first is most significant) within n qubits"""
    k = len(qs)
    m = np.asarray(m, dtype=complex).reshape((2,) * (2 * k))
    full = np.eye(2 ** n, dtype=complex).reshape((2,) * (2 * n))
    r = np.tensordot(m, full, axes=(list(range(k, 2 * k)), list(qs)))
    # result axes: first k are outputs at qs, rest are the remaining output axes in order, then inputs
    rest = [i for i in range(n) if i not in qs]
    order = [0] * n
    for pos, q in enumerate(qs):
        order[q] = pos
    for pos, q in enumerate(rest):
        order[q] = k + pos
    perm = order + list(range(n, 2 * n))
    return r.transpose(perm).reshape(2 ** n, 2 ** n)


def kind(b):
    return type(b).__name__


def controls(b):
    inner = b.blocks[0]
    nt = len(tuple(inner.qubit_support))
    qs = tuple(b.qubit_support)
    return qs[:len(qs) - nt], qs[len(qs) - nt:]


def is_a(b, name):
    return any(c.__name__ == name for c in type(b).__mro__)


def mat(b, n, values=None):
    """operator of block b on qubits 0..n-1"""
    values = values or {}
    k = kind(b)
    if is_a(b, "PutBlock"):
        inner = b.blocks[0]
        m = mat(inner, inner.n_qubits, values)
        return place(m, tuple(b.qubit_support), n)
    if is_a(b, "ChainBlock") or is_a(b, "KronBlock"):
        r = np.eye(2 ** n, dtype=complex)
        for x in b.blocks:
            r = mat(x, n, values) @ r
        return r
    if is_a(b, "AddBlock"):
        r = np.zeros((2 ** n, 2 ** n), dtype=complex)
        for x in b.blocks:
            r = r + mat(x, n, values)
        return r
    if is_a(b, "ScaleBlock"):
        (e,) = list(b.parameters.expressions())
        return num(e, values) * mat(b.block, n, values)
    if is_a(b, "ControlBlock") or is_a(b, "ParametricControlBlock"):
        ctl, tgt = controls(b)
        inner = b.blocks[0]
        m = local(inner, values)
        p = np.array([[1]], dtype=complex)
        for _ in ctl:
            p = np.kron(p, N1)
        d = 2 ** len(ctl)
        full = np.kron(np.eye(d) - p, np.eye(m.shape[0])) + np.kron(p, m)
        return place(full, ctl + tgt, n)
    if k == "HamEvo" or is_a(b, "TimeEvolutionBlock"):
        t = num(list(b.parameters.expressions())[0], values)
        g = b.generator
        if hasattr(g, "qubit_support"):
            return expm(-1j * t * mat(g, n, values))
        G = np.asarray(g.detach().numpy() if hasattr(g, "detach") else g, dtype=complex)
        if G.ndim == 3:
            G = G[0]
        return place(expm(-1j * t * G), tuple(b.qubit_support), n)
    return place(local(b, values), tuple(b.qubit_support), n)


def local(b, values=None):
    """matrix of a leaf on its own ordered support"""
    values = values or {}
    k = kind(b)
    if k in FIXED:
        return FIXED[k]
    if k in PARAM:
        return PARAM[k](*[num(e, values) for e in b.parameters.expressions()])
    if k in ("Projector", "N", "ProjectorBlock") or is_a(b, "ProjectorBlock"):
        d = 2 ** len(b.ket)
        m = np.zeros((d, d), dtype=complex)
        m[int(b.ket, 2), int(b.bra, 2)] = 1
        return m
    if k == "MatrixBlock":
        M = np.asarray(b.matrix.detach().numpy(), dtype=complex)
        return M[0] if M.ndim == 3 else M
    raise NotImplementedError(k)


def dist(a, b):
    return float(np.max(np.abs(np.asarray(a) - np.asarray(b)))) if a.shape == b.shape else float("inf")


def reverse_perm(n):
    idx = np.arange(2 ** n)
    return np.array([int(format(i, f"0{n}b")[::-1], 2) for i in idx]) if n else idx

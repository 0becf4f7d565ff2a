"""Tensors with symbolic entries (STensor) and tensors known only as operators (TMat), driven through torch's
own __torch_function__ protocol: the code under proof calls torch.kron, torch.matmul, ... and lands here."""
from __future__ import annotations
import numpy as np, sympy, torch
from .runtime import VC, Unsupported, Seg
from .poly import Poly, fold_seg, mapped
from .scalars import SNum, valid_here
import z3

_KNOWN = [(0.7071067811865476, 1 / sympy.sqrt(2)), (0.7853981633974483, sympy.pi / 4), (1.5707963267948966, sympy.pi / 2),
          (3.141592653589793, sympy.pi), (6.283185307179586, 2 * sympy.pi)]


def exact(x):
    """the number a float literal stands for: dyadic rationals exactly, 1/sqrt(2) and multiples of pi within float precision"""
    if isinstance(x, sympy.Basic):
        return x
    if isinstance(x, (bool, int, np.integer)):
        return sympy.Integer(int(x))
    x = complex(x)
    if x.imag != 0:
        return exact(x.real) + sympy.I * exact(x.imag)
    x = x.real
    for v, s in _KNOWN:
        if abs(abs(x) - v) < 1e-7:
            return s if x > 0 else -s
    return sympy.Rational(x)


def lift(x):
    if isinstance(x, STensor):
        return x
    if isinstance(x, torch.Tensor):
        a = np.empty(tuple(x.shape), dtype=object)
        for i in np.ndindex(*a.shape):
            a[i] = exact(x[i].item())
        return STensor(a)
    if isinstance(x, (int, float, complex, sympy.Basic)):
        a = np.empty((), dtype=object)
        a[()] = exact(x)
        return STensor(a)
    raise Unsupported(f"tensor operand {type(x)}")


_fmap = np.frompyfunc
class STensor:
    __array_priority__ = 1000
    dtype = torch.cdouble
    is_complex = staticmethod(lambda: True)
    requires_grad = False
    device = torch.device("cpu")
    def __init__(self, a):
        self.a = a
    @staticmethod
    def symbols(name, *shape, complex=True):
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = sympy.Symbol(name + "_" + "_".join(map(str, i)), real=not complex or None, complex=True if complex else None)
        return STensor(a)
    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        n = func.__name__
        h = getattr(cls, "t_" + n, None)
        if h is None:
            raise Unsupported(f"torch.{n} on symbolic tensors")
        return h(*args, **(kwargs or {}))
    def __vc_isinstance__(self, T):
        ts = T if isinstance(T, tuple) else (T,)
        return any(t in (torch.Tensor, object, STensor) for t in ts)
    def __vc_len__(self):
        return self.a.shape[0]
    __len__ = __vc_len__
    def sum(self, dim=None, **k): return STensor.t_sum(self, dim)
    def map(self, f):
        a = np.empty(self.a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            a[i] = f(self.a[i])
        return STensor(a)
    # arithmetic
    def t_mul(x, y): return STensor(np.multiply(lift(x).a, lift(y).a))
    def t_add(x, y): return STensor(np.add(lift(x).a, lift(y).a))
    def t_sub(x, y): return STensor(np.subtract(lift(x).a, lift(y).a))
    def t_rsub(x, y): return STensor.t_sub(y, x)
    def t_div(x, y): return STensor(np.multiply(lift(x).a, lift(y).map(lambda v: 1 / v).a))
    def t_pow(x, k): return lift(x).map(lambda v: v ** exact(k))
    def t_neg(x): return lift(x).map(lambda v: -v)
    __mul__ = __rmul__ = t_mul
    __add__ = __radd__ = t_add
    __sub__ = t_sub
    def __rsub__(self, o): return STensor.t_sub(o, self)
    __truediv__ = t_div
    def __rtruediv__(self, o): return STensor.t_div(o, self)
    __neg__ = t_neg
    __pow__ = t_pow
    t___add__ = t___radd__ = t_add
    t___mul__ = t___rmul__ = t_mul
    t___sub__ = t_sub
    t___rsub__ = t_rsub
    t_true_divide = t_div
    def t_matmul(x, y):
        x, y = lift(x).a, lift(y).a
        return STensor(np.matmul(x, y))
    __matmul__ = t_matmul
    def t_cos(x): return lift(x).map(sympy.cos)
    def t_sin(x): return lift(x).map(sympy.sin)
    def t_exp(x): return lift(x).map(_exp)
    def t_sqrt(x): return lift(x).map(sympy.sqrt)
    def t_abs(x): return lift(x).map(lambda v: sympy.sqrt(sympy.expand(v * sympy.conjugate(v))))
    def t_conj(x): return lift(x).map(sympy.conjugate)
    def t_kron(x, y):
        x, y = lift(x).a, lift(y).a
        d = max(x.ndim, y.ndim)
        x = x.reshape((1,) * (d - x.ndim) + x.shape)
        y = y.reshape((1,) * (d - y.ndim) + y.shape)
        r = np.multiply.outer(x, y)
        r = r.transpose([k for i in range(d) for k in (i, d + i)])
        return STensor(r.reshape([p * q for p, q in zip(x.shape, y.shape)]))
    def t_diag(x):
        a = lift(x).a
        if a.ndim == 2:
            return STensor(np.array([a[i, i] for i in range(a.shape[0])], dtype=object))
        r = np.empty((a.shape[0],) * 2, dtype=object)
        r[...] = sympy.Integer(0)
        for i in range(a.shape[0]):
            r[i, i] = a[i]
        return STensor(r)
    def t_outer(x, y): return STensor(np.multiply.outer(lift(x).a, lift(y).a))
    def t_zeros_like(x, **k): return lift(x).map(lambda v: sympy.Integer(0))
    def t_stack(ts, dim=0): return STensor(np.stack([lift(t).a for t in ts], axis=dim))
    def t_concat(ts, dim=0): return STensor.t_cat(ts, dim)
    def t_numel(x): return lift(x).a.size
    def t_cat(ts, dim=0): return STensor(np.concatenate([lift(t).a for t in ts], axis=dim))
    t_hstack = lambda ts: STensor(np.hstack([lift(t).a for t in ts]))
    t_vstack = lambda ts: STensor(np.vstack([lift(t).a for t in ts]))
    def t_sum(x, dim=None, **k):
        a = lift(x).a
        return lift(np.sum(a, axis=dim)) if dim is None else STensor(np.sum(a, axis=dim))
    # shape
    def reshape(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list, torch.Size)) else s
        return STensor(self.a.reshape(tuple(int(i) for i in s)))
    view = reshape
    def t_reshape(x, s): return lift(x).reshape(s)
    def permute(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        return STensor(self.a.transpose(tuple(s)))
    def t_permute(x, s): return lift(x).permute(s)
    def t(self): return STensor(self.a.T)
    def t_t(x): return lift(x).t()
    def transpose(self, i, j): return STensor(np.swapaxes(self.a, i, j))
    t_transpose = lambda x, i, j: lift(x).transpose(i, j)
    def unsqueeze(self, d):
        return STensor(np.expand_dims(self.a, d))
    t_unsqueeze = unsqueeze
    def squeeze(self, *d):
        if d and d[0] is not None:
            return STensor(np.squeeze(self.a, d[0])) if self.a.shape[d[0]] == 1 else self
        return STensor(np.squeeze(self.a))
    t_squeeze = squeeze
    def repeat(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        return STensor(np.tile(self.a, tuple(s)))
    def expand(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        s = tuple(d if k == -1 else k for k, d in zip(s, (1,) * (len(s) - self.a.ndim) + self.a.shape))
        return STensor(np.broadcast_to(self.a, s))
    def size(self, d=None):
        return torch.Size(self.a.shape) if d is None else self.a.shape[d]
    shape = property(lambda s: torch.Size(s.a.shape))
    ndim = property(lambda s: s.a.ndim)
    dim = lambda s: s.a.ndim
    T = property(lambda s: STensor(s.a.T))
    mT = property(lambda s: STensor(np.swapaxes(s.a, -1, -2)))
    real = property(lambda s: s.map(sympy.re))
    imag = property(lambda s: s.map(sympy.im))
    conj = t_conj
    def flatten(self): return STensor(self.a.reshape(-1))
    def numel(self): return self.a.size
    def _same(self, *a, **k): return self
    to = contiguous = detach = double = float = cpu = type = requires_grad_ = _same
    def __getitem__(self, i):
        r = self.a[i]
        return r if isinstance(r, STensor) else STensor(r) if isinstance(r, np.ndarray) else lift(r)
    def __iter__(self):
        return (self[i] for i in range(self.a.shape[0]))
    def item(self):
        return self.a.reshape(-1)[0]
    def clone(self, **k): return STensor(self.a.copy())
    def __setitem__(self, i, v):
        self.a[i] = v.a if isinstance(v, STensor) else lift(v).a if isinstance(v, torch.Tensor) else exact(v)
    def __imul__(self, o): return self.t_mul(o)
    def __iadd__(self, o): return self.t_add(o)
    def __repr__(self): return f"STensor{self.a.tolist()}"
    def __bool__(self): raise Unsupported("truth value of a symbolic tensor")
    def __eq__(self, o): raise Unsupported("comparison of symbolic tensors")
    __hash__ = object.__hash__


def _exp(v):
    v = sympy.expand(v)
    c = sympy.expand(v / sympy.I)
    if not c.has(sympy.I):
        return sympy.cos(c) + sympy.I * sympy.sin(c)
    return sympy.exp(v)


# ---------------------------------------------------------------- tensors known as operators
def same_on(a, b):
    return a is b or (type(a) is type(b) and hasattr(a, "atoms") and a.atoms == b.atoms)


class TMat:
    """the (batched) matrix, on the ordered qubits `on` and in bit order `end`, of the operator `den`"""
    def __init__(self, den, on, end, diag=False):
        self.den, self.on, self.end, self.diag = den, on, end, diag
    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        n = func.__name__
        h = getattr(cls, "t_" + n.strip("_"), None)
        if h is None:
            raise Unsupported(f"torch.{n} on operator tensors")
        return h(*args, **(kwargs or {}))
    def __vc_isinstance__(self, T):
        ts = T if isinstance(T, tuple) else (T,)
        return any(t in (torch.Tensor, object) for t in ts)
    def _join(self, o, d):
        same = same_on(self.on, o.on) and self.end == o.end and self.diag == o.diag
        return TMat(d, self.on if same else None, self.end if same else None, self.diag)
    def t_matmul(x, y):
        x, y = _align(x, y)
        if x.diag or y.diag:
            raise Unsupported("matmul of diagonals")
        return x._join(y, y.den.then(x.den))
    def t_add(x, y):
        x, y = _align(x, y)
        return x._join(y, x.den + y.den)
    def t_sub(x, y):
        x, y = _align(x, y)
        return x._join(y, x.den + y.den.scale(-1))
    def t_mul(x, y):
        for s, m in ((x, y), (y, x)):
            if isinstance(m, TMat):
                if isinstance(s, (TMat, KPow)) and m.diag:
                    s, m = _align(s, m)
                    return s._join(m, s.den.then(m.den))      # pointwise product of diagonals
                v = scalar(s)
                if v is not None:
                    return TMat(m.den.scale(v), m.on, m.end, m.diag)
        raise Unsupported("product of operator tensors")
    t_rmul = lambda x, y: TMat.t_mul(x, y)
    t_radd = lambda x, y: TMat.t_add(x, y)
    def t_matrix_exp(x):
        e = exp_form(x.den)
        return TMat(e, x.on, x.end)
    t_linalg_matrix_exp = t_matrix_exp
    def __mul__(self, o): return TMat.t_mul(self, o)
    __rmul__ = __mul__
    def __add__(self, o): return TMat.t_add(self, o)
    __radd__ = __add__
    def __sub__(self, o): return TMat.t_sub(self, o)
    def __rsub__(self, o): return TMat.t_sub(o, self)
    def __neg__(self): return TMat(self.den.scale(-1), self.on, self.end, self.diag)
    def __matmul__(self, o): return TMat.t_matmul(self, o)
    def _same(self, *a, **k): return self
    to = clone = contiguous = detach = double = _same
    def size(self, d=None):
        if d is None:
            return (1, "D", "D")
        raise Unsupported("size of an operator tensor")
    shape = property(lambda s: s.size())
    # loop accumulator: the body may multiply from either side or add
    def __vc_acc__(self, nm):
        return _TAcc(nm, self)


def exp_form(d):
    """exp of -i t G as the operator the time evolution denotes"""
    ws = list(d.t.items())
    if len(ws) != 1:
        raise Unsupported("matrix exponential of a sum")
    w, c = ws[0]
    return mapped(("exp", sympy.srepr(sympy.expand(sympy.I * c))), Poly({w: sympy.Integer(1)}))


def scalar(s):
    if isinstance(s, SVal):
        return s.e
    if isinstance(s, STensor) and s.a.size == 1:
        return s.a.reshape(-1)[0]
    if isinstance(s, torch.Tensor) and s.numel() == 1:
        return exact(s.reshape(-1)[0].item())
    if isinstance(s, (int, float, complex, sympy.Basic)):
        return exact(s)
    return None


def _align(x, y):
    if isinstance(x, KPow) and isinstance(y, TMat):
        return x.on(y), y
    if isinstance(y, KPow) and isinstance(x, TMat):
        return x, y.on(x)
    if isinstance(x, TMat) and isinstance(y, TMat):
        return x, y
    raise Unsupported(f"operands {type(x)}, {type(y)}")


class SVal:
    """the (batched) value of a scalar expression; reshaping keeps it"""
    def __init__(self, e):
        self.e = sympy.sympify(e)
    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        n = func.__name__.strip("_")
        if n in ("mul", "rmul"):
            x, y = args
            if isinstance(x, TMat) or isinstance(y, TMat):
                return TMat.t_mul(x, y)
            a, b = scalar(x), scalar(y)
            if a is not None and b is not None:
                return SVal(a * b)
        raise Unsupported(f"torch.{n} on a symbolic scalar")
    def __mul__(self, o):
        if isinstance(o, (TMat, KPow)):
            return TMat.t_mul(self, o)
        v = scalar(o)
        if v is None:
            return NotImplemented
        return SVal(self.e * v)
    __rmul__ = __mul__
    def __neg__(self): return SVal(-self.e)
    def _same(self, *a, **k): return self
    reshape = unsqueeze = squeeze = to = clone = detach = view = double = _same


class KPow:
    """the k-fold Kronecker power of the 2x2 identity (c=1) or zero (c=0), or their diagonals"""
    def __init__(self, c, k, diag=False):
        self.c, self.k, self.diag = c, k, diag
    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        n = func.__name__
        if n == "kron":
            return KPow.t_kron(*args)
        if any(isinstance(a, TMat) for a in args):
            return TMat.__torch_function__(func, types, args, kwargs)
        raise Unsupported(f"torch.{n} on identities")
    def t_kron(x, y):
        if isinstance(x, KPow) and isinstance(y, KPow) and x.diag == y.diag:
            return KPow(x.c * y.c, x.k + y.k, x.diag)
        raise Unsupported("kron with identities")
    def on(self, m):
        n = getattr(m.on, "n", None)
        if n is None:
            raise Unsupported("dimension of an operator tensor")
        k = self.k if isinstance(self.k, SNum) else SNum(z3.IntVal(int(self.k)))
        if valid_here("dimensions", k.z == n.z).status != "proved":
            raise RuntimeError("mat1 and mat2 shapes cannot be multiplied")
        return TMat(Poly.one() if self.c else Poly.zero(), m.on, m.end, m.diag)
    def _same(self, *a, **k): return self
    to = clone = contiguous = detach = double = _same
    def __mul__(self, o): return TMat.t_mul(self, o) if isinstance(o, TMat) else NotImplemented
    __rmul__ = __mul__
    def __imul__(self, o): return TMat.t_mul(self, o)
    def __add__(self, o): return TMat.t_add(self, o) if isinstance(o, TMat) else NotImplemented
    __radd__ = __iadd__ = __add__
    def __matmul__(self, o): return TMat.t_matmul(self, o)
    def __vc_acc__(self, nm):
        return _TAcc(nm, self)


class _TAcc:
    """loop rule for a tensor accumulator: one iteration on a symbolic accumulator A, then the fold over the run"""
    kind = "custom"
    def __init__(self, nm, v):
        self.nm, self.v = nm, v
        self.aid = f"tacc_{nm}"
    def start(self):
        if isinstance(self.v, TMat):
            return TMat(Poly.atom(("op", self.aid, 0)), self.v.on, self.v.end, self.v.diag)
        return KAcc(self.v, self.aid)
    def describe(self, seg, e, after):
        return after
    def combine(self, seg, outs):
        v = self.v
        if len(outs) != 1:
            raise Unsupported("branching body of a tensor loop")
        (r,) = outs
        if isinstance(r, TMat) and self.aid not in repr(r.den):
            from .blocks import Poison
            return Poison()                      # a local of the body, assigned before it is read
        if isinstance(r, KAcc):
            # Kronecker factors added per iteration: length of the run times the factor
            n = seg.info.get("index")
            if n is None:
                raise Unsupported("length of the run")
            if r.base is not v:
                raise Unsupported("rebound")
            k = v.k if isinstance(v.k, SNum) else SNum(z3.IntVal(int(v.k)))
            return KPow(v.c if r.addk == 0 else v.c * r.c, k + n * r.addk, v.diag)
        if not isinstance(r, TMat):
            raise Unsupported("tensor accumulator")
        if isinstance(v, KPow):
            v = v.on(r)
        A = ("op", self.aid, 0)
        left, right, add = [], [], []
        for w, c in r.den.t.items():
            pos = [i for i, a in enumerate(w) if a == A]
            if not pos:
                if any(self.aid in repr(a) for a in w):
                    raise Unsupported("accumulator inside a construction")
                add.append((w, c))
            elif len(pos) == 1:
                left.append((w[:pos[0]], w[pos[0] + 1:], c))
            else:
                raise Unsupported("non-linear accumulator")
        on, end = (r.on, r.end)
        if not add and left:
            if all(not pre for pre, post, c in left):      # A first, then T: application order
                T = Poly({post: c for pre, post, c in left})
                return TMat(v.den.then(fold_seg("mul", seg.dom, seg.dir, T)), on, end, v.diag)
            if all(not post for pre, post, c in left):
                T = Poly({pre: c for pre, post, c in left})
                return TMat(fold_seg("mul", seg.dom, -seg.dir, T).then(v.den), on, end, v.diag)
        if add and len(left) == 1 and left[0] == ((), (), 1):
            T = Poly(dict(add))
            return TMat(v.den + fold_seg("add", seg.dom, seg.dir, T), on, end, v.diag)
        raise Unsupported("tensor loop body")


class KAcc(KPow):
    """a Kronecker power inside a loop: either more factors are added, or it meets an operator"""
    def __init__(self, base, aid, addk=0, c=1):
        self.base, self.aid, self.addk, self.c, self.diag = base, aid, addk, c, base.diag
    k = property(lambda s: (_ for _ in ()).throw(Unsupported("size inside the loop")))
    def t_kron(x, y):
        raise Unsupported
    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        if func.__name__ == "kron":
            return cls._kron(*args)
        return KPow.__torch_function__(func, types, args, kwargs)
    @staticmethod
    def _kron(x, y):
        if isinstance(x, KAcc) and type(y) is KPow and isinstance(y.k, int) and x.diag == y.diag:
            return KAcc(x.base, x.aid, x.addk + y.k, x.c * y.c)
        if isinstance(y, KAcc) and type(x) is KPow and isinstance(x.k, int) and x.diag == y.diag:
            return KAcc(y.base, y.aid, y.addk + x.k, y.c * x.c)
        raise Unsupported("kron in a loop")
    def on(self, m):
        if self.addk:
            raise Unsupported("mixed use of a Kronecker accumulator")
        return TMat(Poly.atom(("op", self.aid, 0)), m.on, m.end, m.diag)


class Pow2:
    """2**n for a symbolic number of qubits n"""
    def __init__(self, n):
        self.n = n


def _sh_eye(n, *a, **k):
    return KPow(1, n.n) if isinstance(n, Pow2) else torch.eye(n, *a, **k)
def _mk(c, fn):
    def sh(*a, **k):
        s = a[0] if len(a) != 1 or not isinstance(a[0], (tuple, list)) else a[0]
        s = s if isinstance(s, (tuple, list)) else a
        ps = [x for x in s if isinstance(x, Pow2)]
        if not ps:
            return fn(*a, **k)
        if len(ps) == 1 and len(s) == 1:
            return KPow(c, ps[0].n, diag=True)
        if c == 0 and len(ps) == 2 and all(isinstance(x, Pow2) or x == 1 for x in s):
            return KPow(0, ps[0].n)
        raise Unsupported("constant tensor of symbolic size")
    return sh
VC.shim(torch.eye, _sh_eye)
VC.shim(torch.ones, _mk(1, torch.ones))
VC.shim(torch.zeros, _mk(0, torch.zeros))

"""Helpers shared by the contract files (import after the instrumented import of qadence)."""
from __future__ import annotations
import sympy
from .prove import obligation, op_eq, set_eq, holds, vanish, z3_valid, Claim
from .runtime import VC, Seg, Unsupported, PathDead, Explorer
from . import poly, leaf
from .blocks import *            # noqa: F401,F403
from .blocks import new_seg, new_opaque, den, sup, uid, flat_segment, FOLD_RULE, NONEMPTY, SymSupport, support_atoms
from .scalars import SNum, SBool, sint, sreal, fresh_int, fresh_real, assume, decide, valid_here, num_eq, lift as zlift
from .poly import Poly, mapped, FACTS, ATOM_SUPPORT


def snap(b, depth=6):
    """structure of an object graph: used for frame conditions (the operand is left unchanged)"""
    if depth == 0:
        return id(b)
    if isinstance(b, Opaque):
        return ("opaque", id(b), b.tag, repr(b.den), b.sup)
    if type(b) is Seg:
        return ("seg", id(b), b.dom, b.dir)
    if isinstance(b, AbstractBlock):
        d = {}
        for k, v in vars(b).items():
            if k == "generator" or (k.startswith("_") and k not in ("_qubit_support", "_noise")):
                continue        # private caches are not observable
            d[k] = snap(v, depth - 1)
        return (type(b).__name__, tuple(sorted(d.items(), key=lambda kv: kv[0])))
    if isinstance(b, (tuple, list)):
        return (type(b).__name__,) + tuple(snap(x, depth - 1) for x in b)
    if isinstance(b, ParamMap):
        return ("pm", tuple((k, u, sympy.srepr(e) if isinstance(e, sympy.Basic) else repr(e), syms(e)) for k, (u, e) in b._name_dict.items()))
    if isinstance(b, sympy.Basic):
        return sympy.srepr(b)
    if isinstance(b, (int, float, str, type(None), bool, complex)):
        return b
    if isinstance(b, SNum):
        return str(b.z)
    return ("obj", id(b))


def syms(e):
    return tuple(sorted((s.name, str(getattr(s, "value", None)), str(getattr(s, "trainable", None))) for s in getattr(e, "free_symbols", ())))


def mk(K, *blocks):
    """a composite of class K holding these (symbolic) blocks, built without running its constructor"""
    b = K.__new__(K)
    b.blocks = tuple(blocks)
    b.tag = None
    return b


def unchanged(label, before, b):
    return holds(label, snap(b) == before)


def real_param(name):
    """a parameter with an arbitrary real value"""
    return Parameter(name, value=0.5)


def mod(name):
    """the module itself, also where a package attribute of the same name shadows it"""
    import importlib, sys
    importlib.import_module(name)
    return sys.modules[name]

"""C17: analog operations evolve the register under its documented Hamiltonian."""
from pyvc.kit import *
import itertools
import z3
from qadence import operations as O
from qadence.blocks import analog as BA
from qadence.qubit_support import QubitSupport
PA = mod("qadence.analog.parse_analog")
OA = mod("qadence.operations.analog")
AF = mod("qadence.transpile.apply_fn")
CI = mod("qadence.circuit")

P = "C17"
FP, FO = "qadence.analog.parse_analog.", "qadence.operations.analog."
ASSUMES = ["interaction, drive and addressing-pattern Hamiltonians are those of C12; a Hamiltonian evolution of generator H and time t is exp(-iHt) (C08)", "sums of blocks are sums of operators (C04)",
           "parallel compositions of up to 3 parts, sequences of any length by structural induction with up to 3 parts spelled out"]
TRUSTED = ["z3", "sympy", "operator normaliser (pyvc/poly.py)"]


def shim_for(fn, new):
    old = VC.shims.get(id(fn))
    VC.shim(fn, new)
    VC.ex.undo.append(lambda: VC.shims.__setitem__(id(fn), old) if old is not None else VC.shims.pop(id(fn), None))


LEAF = frozenset([O.X])   # sums of sums are C04's; here every part is a single term


def leaf(label, sup=None):
    return new_opaque(label, kinds=LEAF, sup=sup)


def record():
    made = []
    def evo(generator, parameter, *a, **k):
        if a or k:
            raise Unsupported("other arguments of an evolution")
        e = leaf("evolution")
        e.gen, e.time = generator, parameter
        made.append(e)
        return e
    shim_for(PA.HamEvo, evo)
    return made


def block(kind, support, add, tag=""):
    """a rotation or waiting block with arbitrary parameters"""
    ps = {k: Parameter(k + tag, value=0.3) for k in ("duration", "omega", "delta", "phase")}
    if kind == "wait":
        return BA.InteractionBlock(parameters=ParamMap(duration=ps["duration"]), qubit_support=support, add_pattern=add)
    return BA.ConstantAnalogRotation(parameters=ParamMap(alpha=ps["duration"], h_norm=ps["omega"], **ps), qubit_support=support, add_pattern=add)


class AnyRegister:
    def __init__(self):
        self.nodes = [0, 1, 2]
        self.n_qubits = 3
        self.device_specs = object()
    def __vc_isinstance__(self, T):
        return any(getattr(t, "__name__", "") == "Register" for t in (T if isinstance(T, tuple) else (T,)))


def drives(reg):
    out = {}
    def dr(b, r):
        if r is not reg:
            return leaf("drive of another register")
        if id(b) not in out:
            out[id(b)] = leaf("drive")
        return out[id(b)]
    shim_for(PA.rydberg_drive_hamiltonian, dr)
    return out


def evolution(what, e, made, gens, t):
    if not any(e is m for m in made):
        return [holds(f"{what}: an evolution", None, "another block")]
    want = den(gens[0])
    for g in gens[1:]:
        want = want + den(g)
    return [op_eq(f"{what}: generator", den(e.gen), want), vanish(f"{what}: time in microseconds", [sympy.sympify(e.time) - t / 1000])]


def hams():
    h = leaf("H_int")
    a = leaf("H_pattern")
    return h, a


for kind, add, have in itertools.product(("rotation", "wait"), (True, False), (True, False)):
    @obligation(P, f"{kind}/{'with' if have else 'without'} a pattern on the device, {'used' if add else 'switched off'}", [FP + "_analog_to_hevo", FP + "_build_rot_ham_evo"])
    def _(kind=kind, add=add, have=have):
        poly.reset()
        made, reg = record(), AnyRegister()
        dr = drives(reg)
        hi, ha = hams()
        out = []
        for sup_ in (QubitSupport("global"), QubitSupport(0, 2)):
            made.clear()
            dr.clear()
            b = block(kind, sup_, add)
            snaps = snap(hi), snap(ha), snap(b)
            r = PA._analog_to_hevo(b, reg, hi, ha if have else None)
            gens = [hi] + ([ha] if add and have else []) + (list(dr.values()) if kind == "rotation" else [])
            out += evolution(kind, r, made, gens, b.parameters.duration)
            out += [holds("one drive", len(dr) == (kind == "rotation")), holds("Hamiltonians and block untouched", (snap(hi), snap(ha), snap(b)) == snaps)]
        return out


for n in (1, 2, 3):
    for word in itertools.product(("rotation", "wait"), repeat=n):
        @obligation(P, "parallel/" + ",".join(word), [FP + "_analog_to_hevo", "qadence.blocks.analog.AnalogKron"])
        def _(word=word):
            poly.reset()
            made, reg = record(), AnyRegister()
            dr = drives(reg)
            hi, ha = hams()
            bs = [block(k, QubitSupport(i), i != 1, "") for i, k in enumerate(word)]
            k = BA.AnalogKron(tuple(bs))
            r = PA._analog_to_hevo(k, reg, hi, ha)
            rot = [b for b in bs if isinstance(b, BA.ConstantAnalogRotation)]
            parts = list(r.blocks) if isinstance(r, ChainBlock) else [r]
            todo = rot or bs[:1]
            out = [holds("parts", tuple(k.blocks) == tuple(bs) if all(x is y for x, y in zip(k.blocks, bs)) else False)]
            if len(parts) != len(todo):
                return out + [holds("the rotations one after the other, or the interaction when all wait", False, f"{len(parts)} evolutions for {word}")]
            for e, b in zip(parts, todo):
                gens = [hi] + ([ha] if b.add_pattern else []) + ([dr[id(b)]] if id(b) in dr else [])
                out += evolution("part", e, made, gens, b.parameters.duration)
                if b in rot if False else isinstance(b, BA.ConstantAnalogRotation):
                    out.append(holds("its own drive", id(b) in dr))
            return out


@obligation(P, "digital blocks are left alone", [FP + "_analog_to_hevo"])
def _():
    poly.reset()
    made, reg = record(), AnyRegister()
    drives(reg)
    hi, ha = hams()
    A = new_opaque("A")
    out = []
    for b in (A, O.X(0), O.RX(1, Parameter("t", value=.2)), 2. * O.X(0)):
        s = snap(b)
        out += [holds("same block", PA._analog_to_hevo(b, reg, hi, ha) is b), holds("unchanged", snap(b) == s and not made)]
    return out


# ------------------------------------------------------------------ whole circuits
def traversal(K, n):
    @obligation(P, f"{K.__name__} of {n} parts/each part is parsed in place, in order", ["qadence.transpile.apply_fn.apply_fn_to_blocks"])
    def _():
        poly.reset()
        parts = [leaf(f"part{i}", sup=[("q", i)]) for i in range(n)]
        res = {id(p): leaf(f"parsed{i}", sup=[("q", i)]) for i, p in enumerate(parts)}
        args = (object(), object(), object())
        seen = []
        def fn(b, *a, **k):
            seen.append((b, a))
            return res[id(b)]
        if K is BA.AnalogChain:
            b = K.__new__(K)
            b.blocks = tuple(parts)
        else:
            b = mk(K, *parts)
        got = AF.apply_fn_to_blocks(b, fn, *args)
        want = mk(ChainBlock if K is BA.AnalogChain else K, *[res[id(p)] for p in parts])
        return [op_eq("same composition of the parsed parts", den(got), den(want)), holds("every part once, with the same arguments", len(seen) == n and all(x is p and len(a) == 3 and all(u is v for u, v in zip(a, args)) for (x, a), p in zip(seen, parts))),
                holds("original untouched", len(b.blocks) == n and all(x is y for x, y in zip(b.blocks, parts)))]


for K in (ChainBlock, KronBlock, AddBlock, BA.AnalogChain):
    for n in (1, 2, 3):
        traversal(K, n)


@obligation(P, "leaves/the function is applied once", ["qadence.transpile.apply_fn.apply_fn_to_blocks"])
def _():
    out = []
    for b in (O.X(0), block("rotation", QubitSupport("global"), True), BA.AnalogKron((block("wait", QubitSupport(0), True), block("wait", QubitSupport(1), True)))):
        seen = []
        r = object()
        got = AF.apply_fn_to_blocks(b, lambda x, *a: (seen.append((x, a)), r)[1], 1, 2)
        out.append(holds("result of the function", got is r and len(seen) == 1 and seen[0][0] is b and seen[0][1] == (1, 2)))
    return out


for inp, dev in itertools.product(("circuit", "block"), (True, False)):
    @obligation(P, f"{inp}/{'with' if dev else 'without'} a device", [FP + "add_background_hamiltonian"])
    def _(inp=inp, dev=dev):
        poly.reset()
        reg, other = AnyRegister(), AnyRegister()
        if not dev:
            reg.device_specs = None
        A, B = new_opaque("A"), new_opaque("B")
        hi, ha = object(), object()
        shim_for(PA.rydberg_interaction_hamiltonian, lambda r: hi if r is reg else object())
        shim_for(PA.rydberg_pattern_hamiltonian, lambda r: ha if r is reg else object())
        calls = []
        def ap(b, fn, *a, **k):
            calls.append((b, fn, a, k))
            return B
        shim_for(PA.apply_fn_to_blocks, ap)
        class C:
            pass
        made = []
        if inp == "circuit":
            c = CI.QuantumCircuit.__new__(CI.QuantumCircuit)
            c.block, c.register = A, reg
            shim_for(PA.QuantumCircuit, lambda r, b: made.append((r, b)) or made)
            r = PA.add_background_hamiltonian(c)
            res = made[0][1] if len(made) == 1 else None
            out = [holds("a circuit on the same register", r is made and made[0][0] is reg), holds("input untouched", c.block is A and c.register is reg)]
        else:
            res = PA.add_background_hamiltonian(A, reg)
            out = []
        if not dev:
            return out + [holds("no device, no change", res is A and not calls)]
        if len(calls) != 1:
            raise Unsupported("another traversal")
        b, fn, a, k = calls[0]
        return out + [holds("the parsed block", res is B), holds("of the input", b is A), holds("by the conversion of analog blocks", fn is PA._analog_to_hevo and not k, str(fn)),
                      holds("with the register and its Hamiltonians", len(a) == 3 and a[0] is reg and a[1] is hi and a[2] is ha)]


@obligation(P, "block/a register is required", [FP + "add_background_hamiltonian"])
def _():
    poly.reset()
    try:
        PA.add_background_hamiltonian(new_opaque("A"))
    except ValueError:
        return [holds("rejected", True)]
    return [holds("rejected", False)]


# ------------------------------------------------------------------ constructors
def supports():
    return {"global": "global", "tuple": (2, 0), "support": QubitSupport(1)}


def sup_ok(b, s):
    return tuple(b.qubit_support) == tuple(QubitSupport(*s) if isinstance(s, tuple) else QubitSupport(s) if isinstance(s, str) else s)


@obligation(P, "AnalogRot/its parameters are those given", [FO + "AnalogRot"])
def _():
    t, o, d, p = (Parameter(k, value=.4) for k in ("t", "o", "d", "p"))
    out = []
    for s, add in itertools.product(supports().values(), (True, False)):
        b = OA.AnalogRot(duration=t, omega=o, delta=d, phase=p, qubit_support=s, add_pattern=add)
        q = b.parameters
        out += [vanish("duration, amplitude, detuning, phase", [q.duration - t, q.omega - o, q.delta - d, q.phase - p]), holds("support", sup_ok(b, s)), holds("pattern flag", b.add_pattern is add),
                holds("class", type(b) is BA.ConstantAnalogRotation)]
    return out


@obligation(P, "AnalogInteraction/its parameters are those given", [FO + "AnalogInteraction"])
def _():
    t = Parameter("t", value=.4)
    out = []
    for s, add in itertools.product(supports().values(), (True, False)):
        b = OA.AnalogInteraction(t, qubit_support=s, add_pattern=add)
        out += [vanish("duration", [b.parameters.duration - t]), holds("support", sup_ok(b, s)), holds("pattern flag", b.add_pattern is add), holds("class", type(b) is BA.InteractionBlock)]
    return out


@obligation(P, "AnalogRX, AnalogRY, AnalogRZ/drive for the time which gives the angle about the axis", [FO + "AnalogRX", FO + "AnalogRY", FO + "AnalogRZ", FO + "_analog_rot"])
def _():
    a = Parameter("a", value=.4)
    out = []
    for nm, axis in (("AnalogRX", (1, 0, 0)), ("AnalogRY", (0, 1, 0)), ("AnalogRZ", (0, 0, 1))):
        for s, add in itertools.product(supports().values(), (True, False)):
            b = getattr(OA, nm)(a, qubit_support=s, add_pattern=add)
            q = b.parameters
            # drive = omega/2 (cos X - sin Y) - delta N, so the angles about X, Y, Z are these
            ang = (q.omega * sympy.cos(q.phase), -q.omega * sympy.sin(q.phase), q.delta)
            got = [sympy.nsimplify(x * q.duration / 1000 / a, rational=False).evalf() for x in ang]
            out.append(holds(f"{nm}: rotation angles", all(abs(sympy.N(g) - w) < 1e-12 for g, w in zip(got, axis)) if all(sympy.sympify(g).is_number for g in got) else None, str(got)))
            out += [holds("support", sup_ok(b, s)), holds("pattern flag", b.add_pattern is add)]
    return out


@obligation(P, "AnalogRot/without a drive is rejected", [FO + "AnalogRot"])
def _():
    try:
        OA.AnalogRot(duration=10., omega=0, delta=0)
    except ValueError:
        return [holds("rejected", True)]
    return [holds("rejected", False)]

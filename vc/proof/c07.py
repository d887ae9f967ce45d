"""C07: gate modifiers, by structural induction.

`lin.AGate` stands for an arbitrary gate about which the property is already known (number of qubits, parameters, matrix
term of the gate and of everything its modifiers return).  Each obligation takes one class of the repository wrapped
around such a gate and proves the same contract for it; MatrixFactoryGate is the base case.  Number of qubits, number of
controls, exponents and parameters are symbolic."""
from vc.pyvc.driver import *
from vc.pyvc.driver import V, z3
from vc.pyvc import lin
from vc.pyvc.lin import AGate, Pars, Word, _p2
from orquestra.quantum.circuits import _gates, _operations

TRUSTED = ["sympy: M.adjoint(), M ** e, M.exp(), Matrix.diag, eye compute the mathematical operation; a principal power of a block diagonal matrix is block diagonal"]
ASSUMPTIONS = ["integer exponents for the dagger of a power (fractional powers of gates with eigenvalue -1 are a recorded finding)",
               "gates flagged self-adjoint are (C02)"]


def setup(cx, herm=False):
    I = cx.I
    lin.install(I)
    # contract of get_free_symbols (C06): a list determined by the parameters
    cx.contract(_operations.get_free_symbols, lambda I, p: lin.free_symbols(p))
    return AGate((z3.Int("g"),), Pars("p"), herm=herm)


def spec(kind, g, x):
    """(matrix, number of qubits) of the modified gate, from those of the gate"""
    m, n = g.matrix(), g.num_qubits()
    if kind == "dagger":
        return m.adjoint(), n
    if kind == "ctl":
        return m.ctl(_p2(n + x) - _p2(n)), n + x
    if kind == "pow":
        return m**x, n
    if kind == "exp":
        return m.exp(), n
    return m, n


def apply_mod(cx, kind, o, x):
    if kind == "dagger":
        return cx.get(o, "dagger")
    if kind == "ctl":
        return cx.call(cx.get(o, "controlled"), x)
    if kind == "pow":
        return cx.call(cx.get(o, "power"), x)
    return cx.get(o, "exp")


def modspec(kind, m, n, x):
    if kind == "dagger":
        return m.adjoint(), n
    if kind == "ctl":
        return m.ctl(_p2(n + x) - _p2(n)), n + x
    if kind == "pow":
        return m**x, n
    return m.exp(), n


def check(cx, o, m, n, pars, label):
    cx.same(cx.get(o, "matrix"), m, f"{label}: matrix")
    cx.prove(cx.get(o, "num_qubits") == n, f"{label}: number of qubits")
    cx.same(cx.get(o, "params"), pars, f"{label}: parameters")


KINDS = ["dagger", "ctl", "pow", "exp"]


def build(cx, cls, g):
    """the wrapper object and its specification"""
    if cls == "Dagger":
        return cx.call(_gates.Dagger, g), ("dagger", None)
    if cls == "ControlledGate":
        k = cx.int("k", 1)
        return cx.call(_gates.ControlledGate, g, k), ("ctl", k)
    if cls == "Power":
        e = cx.int("e")
        return cx.call(_gates.Power, g, e), ("pow", e)
    return cx.call(_gates.Exponential, g), ("exp", None)


def no_symbols(cx, pars):
    """powers and exponentials exist only for gates without free symbols"""
    f = lin.free_symbols(pars)
    cx.assume(SBool(f.segs[0].n == 0))


def wrapper_ob(cls, kind):
    def ob(cx):
        g = setup(cx)
        new = Pars("q")
        no_symbols(cx, g.pars)
        no_symbols(cx, new)
        o, (wk, wx) = build(cx, cls, g)
        cx.freeze(o)
        m, n = spec(wk, g, wx)
        if kind == "self":
            check(cx, o, m, n, g.pars, cls)
            r = cx.call(cx.get(o, "replace_params"), new)
            g2 = AGate(g.gid, new)
            m2, n2 = spec(wk, g2, wx)
            check(cx, r, m2, n2, new, "replace_params")
            # ... and it is the gate obtained by modifying the gate with the new parameters
            want = apply_mod(cx, wk, g2, wx)
            cx.same(cx.get(want, "matrix"), cx.get(r, "matrix"), "replacing parameters and modifying commute")
            return
        x = cx.int("x", 1) if kind == "ctl" else cx.int("x") if kind == "pow" else None
        r = apply_mod(cx, kind, o, x)
        m2, n2 = modspec(kind, m, n, x)
        check(cx, r, m2, n2, g.pars, f"{kind} of {cls}")
        # the modified gate can again be given parameters
        r2 = cx.call(cx.get(r, "replace_params"), new)
        gm, gn = spec(wk, AGate(g.gid, new), wx)
        m3, n3 = modspec(kind, gm, gn, x)
        check(cx, r2, m3, n3, new, f"replace_params of {kind} of {cls}")

    ob.__doc__ = f"{cls} of any gate: " + (f"{kind} has the matrix, number of qubits and parameters of the modifier" if kind != "self" else "matrix, number of qubits, parameters, replace_params")
    obligation("C07", name=f"{cls}_{kind}")(ob)


for _c in ("Dagger", "ControlledGate", "Power", "Exponential"):
    for _k in ["self"] + KINDS:
        wrapper_ob(_c, _k)


def fractional_ob(kind):
    def ob(cx):
        g = setup(cx)
        no_symbols(cx, g.pars)
        e = cx.real("e")
        o = cx.call(_gates.Power, g, e)
        m, n = g.matrix() ** e, g.num_qubits()
        check(cx, o, m, n, g.pars, "Power")
        if kind == "self":
            return
        x = cx.int("x", 1) if kind == "ctl" else cx.real("x") if kind == "pow" else None
        m2, n2 = modspec(kind, m, n, x)
        check(cx, apply_mod(cx, kind, o, x), m2, n2, g.pars, f"{kind} of a fractional power")

    ob.__doc__ = f"fractional powers of any gate ({kind})"
    obligation("C07", name=f"FractionalPower_{kind}")(ob)


for _k in ("self", "ctl", "pow", "exp"):
    fractional_ob(_k)


class Factory:
    """an unknown matrix factory"""

    __pyvc_value__ = True

    def __init__(self, herm):
        self.herm = herm

    def __pyvc_call__(self, I, segs, kw):
        return Word.of("gate", z3.Int("f"), _args(segs), rows=_p2(SInt(z3.Int("n"))), herm=self.herm)

    def __pyvc_eqv__(self, o):
        return isinstance(o, Factory)

    def __pyvc_subst__(self, f):
        return self


def _args(segs):
    return V.conc_tuple(tuple(segs))


def pars(name, count):
    v = V.index_var(name)
    return PyTuple((Fam(toint(count), v, Item(name, v)),))


class Item(Abs):
    pass


def leaf_ob(kind):
    def ob(cx):
        lin.install(cx.I)
        cx.contract(_operations.get_free_symbols, lambda I, p: PyList(()))
        herm = bool(cx.pick(2))
        n = cx.int("n", 1)
        np_ = cx.int("np", 0)
        P, Q = pars("p", np_), pars("q", np_)
        f = Factory(herm)
        g = cx.call(_gates.MatrixFactoryGate, "name", f, P, n, herm)
        cx.freeze(g)
        m = Word.of("gate", z3.Int("f"), P, rows=_p2(n), herm=herm)
        m_new = Word.of("gate", z3.Int("f"), Q, rows=_p2(n), herm=herm)
        if kind == "self":
            check(cx, g, m, n, P, "gate")
            r = cx.call(cx.get(g, "replace_params"), Q)
            check(cx, r, m_new, n, Q, "replace_params")
            cx.prove(cx.get(r, "name") == "name" and cx.I.truth(cx.get(r, "is_hermitian")) is herm, "only the parameters are replaced")
            return
        x = cx.int("x", 1) if kind == "ctl" else cx.int("x") if kind == "pow" else None
        r = apply_mod(cx, kind, g, x)
        m2, n2 = modspec(kind, m, n, x)
        check(cx, r, m2, n2, P, f"{kind} of a gate")
        r2 = cx.call(cx.get(r, "replace_params"), Q)
        m3, n3 = modspec(kind, m_new, n, x)
        check(cx, r2, m3, n3, Q, f"replace_params of {kind}")

    ob.__doc__ = f"any built-in or custom gate ({kind}): any matrix factory, number of qubits and parameters"
    obligation("C07", name=f"MatrixFactoryGate_{kind}")(ob)


for _k in ["self"] + KINDS:
    leaf_ob(_k)


@obligation("C07")
def rejections(cx):
    """no controls, and powers and exponentials of gates with free symbols, are refused with ValueError"""
    g = setup(cx)
    f = lin.free_symbols(g.pars)
    cx.assume(SBool(f.segs[0].n >= 1))
    w = cx.pick(3)
    if w == 0:
        k = cx.int("k", hi=0)
        cx.raises(ValueError, _gates.ControlledGate, g, k)
    elif w == 1:
        cx.raises(ValueError, _gates.Power, g, cx.int("e"))
    else:
        cx.raises(ValueError, _gates.Exponential, g)

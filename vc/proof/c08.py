"""C08: inverse, controlled circuits, layers of gates, ancilla registers, for circuits with any number of operations.

Gates are known through the contract of the Gate interface (C07); matrices are words of lifted gates (C01)."""
from vc.pyvc.driver import *
from vc.pyvc.driver import V, z3
from vc.pyvc import lin
from vc.pyvc.lin import AGate, At, Pars, Word, _p2
from vc.proof import c01
from orquestra.quantum.circuits import _circuit, _gates, _generators, _builtin_gates

TRUSTED = ["matrices of gates without free symbols are unitary (C02, C07)"]

setup, circuit = c01.setup, c01.circuit


def dagger_ops(L, name):
    """the daggers of the operations in reverse order"""
    v = V.index_var("v")
    o = lin.gate_op(name, z3.simplify(toint(L) - 1 - v))
    o.__dict__["gate"] = o.__dict__["gate"].with_op("adj")
    return PyList((Fam(toint(L), v, o),))


@obligation("C08")
def inverse(cx):
    """the inverse of any circuit: the daggers of the gates, in reverse order, on the same qubits and register; its matrix
    is the conjugate transpose; the circuit followed by its inverse has the matrix U* U; arguments unchanged"""
    setup(cx)
    L, n = cx.int("L", 0), cx.int("n", 1)
    c = circuit(cx, "g", L, n)
    cx.freeze(c)
    inv = cx.call(cx.get(c, "inverse"))
    cx.prove(cx.get(inv, "n_qubits") == n, "register")
    cx.same(cx.get(inv, "operations"), dagger_ops(L, "g"), "operations")
    u = cx.call(cx.get(c, "to_unitary"))
    ui = cx.call(cx.get(inv, "to_unitary"))
    cx.same(ui, u.adjoint(), "conjugate transpose")
    both = cx.op("+", c, inv)
    cx.same(cx.call(cx.get(both, "to_unitary")), u.adjoint().mul(u), "circuit followed by its inverse")


@obligation("C08")
def inverse_twice(cx):
    """inverting twice gives a circuit with the original matrix"""
    setup(cx)
    L, n = cx.int("L", 0), cx.int("n", 1)
    c = circuit(cx, "g", L, n)
    cx.freeze(c)
    twice = cx.call(cx.get(cx.call(cx.get(c, "inverse")), "inverse"))
    cx.prove(cx.get(twice, "n_qubits") == n, "register")
    cx.same(cx.call(cx.get(twice, "to_unitary")), cx.call(cx.get(c, "to_unitary")), "original matrix")


@obligation("C08")
def controlled(cx):
    """control inserted at index k: every gate gets one control, qubit k first, the gate's qubits at or above k moved up by
    one; the register gets one more qubit than max(n, k)"""
    setup(cx)
    L, n, k = cx.int("L", 0), cx.int("n", 1), cx.int("k", 0)
    c = circuit(cx, "g", L, n)
    cx.freeze(c)
    r = cx.call(cx.get(c, "controlled"), k)
    v, w = V.index_var("v"), V.index_var("w")
    o = lin.gate_op("g", v)
    o.__dict__["gate"] = o.__dict__["gate"].with_op("ctl", 1)
    q = lin.q_of("g", v, w)
    o.__dict__["qubit_indices"] = PyTuple((One(k), Fam(lin.k_of("g", v), w, SInt(z3.If(q >= k.t, q + 1, q)))))
    cx.same(cx.get(r, "operations"), PyList((Fam(L.t, v, o),)), "operations")
    cx.prove(SBool(toint(cx.get(r, "n_qubits")) == z3.If(n.t >= k.t, n.t, k.t) + 1), "register")


class Proto:
    """a gate prototype: called with a row of parameters it gives the gate with these parameters"""

    __pyvc_value__ = True

    def __pyvc_call__(self, I, segs, kw):
        return AGate((z3.Int("f"),), V.conc_tuple(tuple(segs)), nq=1)

    def __pyvc_eqv__(self, o):
        return isinstance(o, Proto)

    def __pyvc_subst__(self, f):
        return self


class Item(Abs):
    """a parameter"""


def rows(n):
    """n rows of parameters"""
    j, w = V.index_var("j"), V.index_var("w")
    return PyList((Fam(toint(n), j, row(j)),))


def row(j):
    w = V.index_var("w")
    return PyTuple((Fam(z3.Int("rowlen"), w, Item("row", j, w)),))


def op(gate, q):
    o = object.__new__(_gates.GateOperation)
    o.__dict__["gate"] = gate
    o.__dict__["qubit_indices"] = (q,)
    return o


def layer_ob(with_params):
    def ob(cx):
        setup(cx)
        n = cx.int("n", 0)
        cx.assume(SBool(z3.Int("rowlen") >= 0))
        g = Proto() if with_params else AGate((z3.Int("f"),), Pars("p"), nq=1)
        p = rows(n) if with_params else None
        args = [n, g] + ([p] if with_params else [])
        if with_params:
            cx.freeze(p)
        c = cx.call(_generators.create_layer_of_gates, *args)
        v = V.index_var("v")
        want = op(AGate((z3.Int("f"),), row(v), nq=1) if with_params else g, SInt(v))
        cx.same(cx.get(c, "operations"), PyList((Fam(n.t, v, want),)), "one gate per qubit, parameter row i on qubit i")
        cx.e.reg_index(z3.simplify(n.t - 1))
        cx.prove(cx.get(c, "n_qubits") == n, "n qubits")

    ob.__doc__ = "a layer over n qubits: exactly one gate on each qubit" + (", with the parameters of its row" if with_params else "")
    obligation("C08", name="layer_with_parameters" if with_params else "layer")(ob)


layer_ob(False)
layer_ob(True)


def apply_ob(with_params):
    def ob(cx):
        setup(cx)
        L, n, k = cx.int("L", 0), cx.int("n", 1), cx.int("k", 0)
        c = circuit(cx, "g", L, n)
        cx.freeze(c)
        qs = cx.ints("qs", k)
        cx.freeze(qs)
        j = V.index_var("j")
        Q = z3.Function("qs", z3.IntSort(), z3.IntSort())
        cx.e.add_qfact(k.t, j, Q(j) >= 0)
        m = cx.int("m", 0)
        g = Proto() if with_params else AGate((z3.Int("f"),), Pars("p"), nq=1)
        # the number of parameter rows is the number of different qubits
        seen = {}
        real = shims._int_set

        def noted(I, f, cls):
            r = real(I, f, cls)
            seen["set"] = r
            cx.assume(SBool(r.segs[0].n == m.t))
            return r

        shims._int_set = noted
        try:
            r = cx.call(_generators.apply_gate_to_qubits, c, qs, g, *([rows(m)] if with_params else []))
        finally:
            shims._int_set = real
        size, D, P, W = seen["set"].enumeration
        v = V.index_var("v")
        want = op(AGate((z3.Int("f"),), row(v), nq=1) if with_params else g, SInt(D(v)))
        ops = cx.get(r, "operations")
        cx.same(ops, PyList(lin.ops(L, "g").segs + (Fam(m.t, v, want),)), "existing operations kept, then one gate per different qubit, one row each")
        w = toint(cx.get(r, "n_qubits"))
        cx.prove(SBool(w >= n.t), "not narrower")
        i = z3.Int("i")
        cx.assume(SBool(z3.And(i >= 0, i < m.t)))
        cx.e.reg_index(i)
        cx.prove(SBool(D(i) < w), "wide enough")

    ob.__doc__ = "a gate on a collection of qubits: existing operations kept, one gate per different qubit" + (", each parameter row used once" if with_params else "")
    obligation("C08", name="apply_to_qubits_with_parameters" if with_params else "apply_to_qubits")(ob)


from vc.pyvc import shims

apply_ob(False)
apply_ob(True)


@obligation("C08")
def ancilla(cx):
    """an ancilla register of k qubits: the operations of the circuit, then one identity gate on each new qubit; exactly k
    more qubits"""
    setup(cx)
    L, n, k = cx.int("L", 0), cx.int("n", 1), cx.int("k", 0)
    c = circuit(cx, "g", L, n)
    cx.freeze(c)
    r = cx.call(_generators.add_ancilla_register, c, k)
    v = V.index_var("v")
    cx.same(cx.get(r, "operations"), PyList(lin.ops(L, "g").segs + (Fam(k.t, v, op(_builtin_gates.I, SInt(n.t + v))),)), "operations")
    cx.e.reg_index(z3.simplify(k.t - 1))
    cx.prove(cx.get(r, "n_qubits") == n + k, "register")

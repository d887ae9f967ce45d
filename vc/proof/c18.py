"""C18: decomposition rules.

Circuits and rule lists have any length; rules are known through their interface (predicate, production)."""
from vc.pyvc.driver import *
from vc.pyvc.driver import V, z3
from vc.pyvc import alg, lin
from vc.pyvc.alg import Alg, AMat, F
from orquestra.quantum.circuits import _builtin_gates as bg, _circuit, _gates, _operations
from orquestra.quantum.decompositions import _decomposition as dec, _orquestra_decompositions as od

Zi, B = z3.IntSort(), z3.BoolSort()


class Op(Abs):
    """any operation"""


class Rule(Abs):
    """a decomposition rule: replaces an operation it applies to by any number of operations"""

    def predicate(self, op):
        return mkbool(applies(self.key[-1], oid(op)))

    def production(self, op):
        v = V.index_var("p")
        r = self.key[-1]
        return PyList((Fam(howmany(r, oid(op)), v, Op(made(r, oid(op), v))),))


applies = z3.Function("applies", Zi, Zi, B)
howmany = z3.Function("howmany", Zi, Zi, Zi)
made = z3.Function("made", Zi, Zi, Zi, Zi)
size = z3.Function("size", Zi, Zi, Zi)
out = z3.Function("out", Zi, Zi, Zi, Zi)


def oid(op):
    return V.force(op).key[-1]


def D(r, op):
    """what the rules from number r on make of an operation (any finite sequence of operations)"""
    v = V.index_var("d")
    return Fam(size(r, oid(op)), v, Op(out(r, oid(op), v)))


def rules(first, R):
    v = V.index_var("r")
    return PyList((Fam(z3.simplify(toint(R) - first), v, Rule(z3.simplify(first + v))),))


def recursive(cx, R):
    """contract of decompose_operation: depends on the operation and on the remaining rules, which are those from some number on"""

    def model(I, op, rs):
        segs = V.norm_segs(I.iter_segs(rs))
        if not segs:
            return PyList((One(op),))
        k = z3.simplify(toint(R) - toint(V.segs_len(segs)))
        cx.same(PyList(tuple(segs)), rules(k, R), "the remaining rules, in order")
        return PyList((D(k, op),))

    cx.contract(dec.decompose_operation, model)
    a, b, c = z3.Ints("a b c")
    for f in (size, howmany):
        cx.e.add(z3.ForAll([a, b], f(a, b) >= 0, patterns=[f(a, b)]))


@obligation("C18")
def one_rule(cx):
    """decompose_operation: without rules the operation itself; otherwise the first rule's production (the operation itself when
    the rule does not apply), every element of it decomposed with the remaining rules, concatenated in order"""
    R = cx.int("R", 0)
    recursive(cx, R)
    if not cx.choose(R == 0):
        cx.choose(R == 1)
    op = Op(z3.Int("op"))
    rs = rules(z3.IntVal(0), R)
    cx.freeze(rs)
    r = cx.body(dec.decompose_operation, op, rs)
    if cx.choose(R == 0):
        cx.same(r, cx.list(op), "without rules")
        return
    if cx.choose(R == 1):
        rest = lambda o: One(o)
    else:
        rest = lambda o: D(z3.IntVal(1), o)
    o = oid(op)
    if not cx.choose(applies(z3.IntVal(0), o)):
        cx.same(r, PyList((rest(op),)), "a rule that does not apply")
        return
    v = V.index_var("p")
    x = Op(made(z3.IntVal(0), o, v))
    cx.same(r, PyList((Flat(howmany(z3.IntVal(0), o), v, (rest(x),)),)), "every operation of the production")


@obligation("C18")
def all_operations(cx):
    """decompose_operations: the decompositions of all operations, in order"""
    R, N = cx.int("R", 0), cx.int("N", 0)
    recursive(cx, R)
    cx.choose(R == 0)
    v = V.index_var("o")
    ops = PyList((Fam(N.t, v, Op(v)),))
    cx.freeze(ops)
    r = cx.call(dec.decompose_operations, ops, rules(z3.IntVal(0), R))
    if cx.choose(R == 0):
        cx.same(r, ops, "empty rule list: nothing changes")
        return
    cx.same(r, PyList((Flat(N.t, v, (D(z3.IntVal(0), Op(v)),)),)), "all decompositions, in order")


@obligation("C18")
def circuits(cx):
    """decompose_orquestra_circuit: the circuit of the decomposed operations on the same register; the empty rule list changes
    nothing; the argument is not touched"""
    lin.install(cx.I)
    R, L, n = cx.int("R", 0), cx.int("L", 0), cx.int("n", 1)
    c = cx.call(_circuit.Circuit, lin.ops(L, "g"), n)
    cx.freeze(c)
    M = cx.int("M", 0)

    def model(I, ops, rs):
        cx.same(PyList(tuple(I.iter_segs(ops))), lin.ops(L, "g"), "the operations of the circuit")
        cx.same(PyList(tuple(I.iter_segs(rs))), rules(z3.IntVal(0), R), "the rules")
        return lin.ops(M, "d")

    cx.contract(od.decompose_operations, model)
    r = cx.call(od.decompose_orquestra_circuit, c, rules(z3.IntVal(0), R))
    cx.prove(cx.get(r, "n_qubits") == n, "same register")
    cx.same(cx.get(r, "operations"), lin.ops(M, "d"), "the decomposed operations")


def angles():
    return Alg.var("t"), Alg.var("p"), Alg.var("l")


@obligation("C18")
def u3_plain(cx):
    """the rule for U3: three rotations on the same qubit whose product, last operation leftmost, is U3 up to a global phase, for
    all angles"""
    alg.install(cx.I)
    t, p, l = angles()
    q = cx.int("q", 0)
    op = cx.call(cx.call(bg.U3, t, p, l), q)
    rule = cx.call(od.U3GateToRotation)
    cx.freeze(op)
    cx.prove(cx.call(cx.get(rule, "predicate"), op), "the rule applies")
    m = cx.get(cx.get(op, "gate"), "matrix")
    segs = V.norm_segs(cx.I.iter_segs(cx.call(cx.get(rule, "production"), op)))
    prod = AMat(alg.eye(2))
    for s in segs:
        o = V.force(s.v)
        cx.same(cx.get(o, "qubit_indices"), cx.get(op, "qubit_indices"), "same qubit")
        prod = cx.get(cx.get(o, "gate"), "matrix") @ prod
    cx.prove(prod @ prod.adjoint() == AMat(alg.eye(2)), "unitary")
    phase_equal(cx, prod, m, "equal up to a global phase")


def phase_equal(cx, a, b, label):
    """a = c b with |c| = 1: both unitary and a b* a multiple of the identity"""
    x = a @ b.adjoint()
    cx.prove(b @ b.adjoint() == AMat(alg.eye(b.rows)), f"{label}: unitary")
    cx.prove(x == AMat(alg.eye(b.rows)) * x.a[0, 0], label)


def wrapped_u3(cx, k):
    t, p, l = angles()
    g = cx.call(bg.U3, t, p, l)
    return cx.call(cx.get(g, "controlled"), k), (t, p, l)


@obligation("C18")
def u3_controlled(cx):
    """the rule for U3 with any number of controls on any qubits: the three rotations, each with the same number of controls, on
    the same qubits in the same order (the first applied rotation is the one about the last angle); their targets' product is U3
    up to the phase exp(i (phi + lambda) / 2), so the action is that of the gate whenever this phase is 1 (other angles: a
    recorded finding)"""
    alg.install(cx.I)
    k, K = cx.int("k", 1), cx.int("K", 1)
    g, (t, p, l) = wrapped_u3(cx, k)
    v = V.index_var("q")
    f = z3.Function("q", Zi, Zi)
    o = object.__new__(_gates.GateOperation)
    o.__dict__.update(gate=g, qubit_indices=PyTuple((Fam(K.t, v, SInt(f(v))),)))
    cx.freeze(o)
    rule = cx.call(od.U3GateToRotation)
    cx.prove(cx.call(cx.get(rule, "predicate"), o), "the rule applies")
    segs = V.norm_segs(cx.I.iter_segs(cx.call(cx.get(rule, "production"), o)))
    prod = AMat(alg.eye(2))
    for s in segs:
        x = V.force(s.v)
        cx.same(cx.get(x, "qubit_indices"), cx.get(o, "qubit_indices"), "same qubits")
        xg = cx.get(x, "gate")
        cx.prove(isinstance(xg, _gates.ControlledGate), "controlled")
        cx.prove(cx.get(xg, "num_control_qubits") == k, "same number of controls")
        prod = cx.get(cx.get(xg, "wrapped_gate"), "matrix") @ prod
    m = cx.get(cx.get(g, "wrapped_gate"), "matrix")
    cx.prove(prod * alg.exp(Alg.cis_pi(F(1, 2)) * (p * F(1, 2) + l * F(1, 2))) == m, "product of the targets")


class Other(Abs):
    _pyclasses = (_operations.Operation,)


@obligation("C18")
def others(cx):
    """the rule leaves alone: operations that are no gates, custom gates (whatever their name), gates of other kinds, adjoints,
    powers and exponentials of U3"""
    alg.install(cx.I)
    q = cx.int("q", 0)
    rule = cx.call(od.U3GateToRotation)
    ops = [Other("operation")]
    t, p, l = angles()
    g = cx.call(bg.U3, t, p, l)
    op = cx.call(g, q)
    d = object.__new__(_gates.Dagger)
    d.__dict__["wrapped_gate"] = g
    e = object.__new__(_gates.Exponential)
    e.__dict__["wrapped_gate"] = g
    w = object.__new__(_gates.Power)
    w.__dict__.update(wrapped_gate=g, exponent=cx.real("e"))
    c = object.__new__(_gates.ControlledGate)
    c.__dict__.update(wrapped_gate=d, num_control_qubits=cx.int("k", 1))
    u = cx.call(_gates.MatrixFactoryGate, "U3", Custom(), (t, p, l), 1)
    cu = object.__new__(_gates.ControlledGate)
    cu.__dict__.update(wrapped_gate=u, num_control_qubits=cx.int("k2", 1))
    for x in (d, e, w, c, u, cu, bg.X, cx.call(bg.RY, t)):
        o = object.__new__(_gates.GateOperation)
        o.__dict__.update(gate=x, qubit_indices=(q,))
        ops.append(o)
    for o in ops:
        cx.freeze(o)
        cx.same(cx.call(cx.get(rule, "predicate"), o), False, "the rule does not apply")


class Custom:
    """a matrix factory of a custom gate"""

    __pyvc_value__ = True

    def __pyvc_eqv__(self, o):
        return isinstance(o, Custom)

    def __pyvc_subst__(self, f):
        return self

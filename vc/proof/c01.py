"""C01: a circuit acts as the ordered product of its gates on the named qubits.

Circuits have an arbitrary (symbolic) number of operations; gates, qubit indices and register widths are unknown."""
import itertools

from vc.pyvc.driver import *
from vc.pyvc.driver import V, z3
from vc.pyvc import lin
from vc.pyvc.lin import At, Word, ZArr, _p2
from orquestra.quantum import wavefunction as wf
from orquestra.quantum.api import wavefunction_simulator as ws
from orquestra.quantum.circuits import _circuit, _gates, _unitary_tools, _operations
from orquestra.quantum.runners import symbolic_simulator as ss

TRUSTED = ["itertools.groupby: consecutive non-empty runs of equal key, in order"]


def setup(cx):
    lin.install(cx.I)
    cx.contract(_unitary_tools._lift_matrix_numpy, lin.lift_model)
    cx.contract(_unitary_tools._lift_matrix_sympy, lin.lift_model)
    cx.contract(_operations.get_free_symbols, lambda I, p: lin.free_symbols(p))


def lifted(name, j, n):
    o = lin.gate_op(name, j)
    return At("lift", (o.__dict__["gate"].matrix(), o.__dict__["qubit_indices"], n))


def product(name, L, n, rows=None):
    """the matrix of the last operation first"""
    v = V.index_var("v")
    return Word((Fam(toint(L), v, lifted(name, z3.simplify(toint(L) - 1 - v), n)),), rows)


def circuit(cx, name, L, n):
    return cx.call(_circuit.Circuit, lin.ops(L, name), n)


@obligation("C01")
def unitary(cx):
    """to_unitary of any circuit of gate operations is the product of the lifted gate matrices, last operation leftmost
    (identity for a circuit without operations)"""
    setup(cx)
    L, n = cx.int("L", 0), cx.int("n", 1)
    c = circuit(cx, "g", L, n)
    cx.freeze(c)
    u = cx.call(cx.get(c, "to_unitary"))
    cx.same(u, product("g", L, n), "ordered product")
    cx.prove(u.rows == _p2(n), "dimension of the register")


class NonGate(Abs):
    """an operation that is not a gate operation"""

    _pyclasses = (_operations.Operation,)

    def __str__(self):
        return "operation"


@obligation("C01")
def unitary_rejects(cx):
    """a circuit with an operation that is no gate operation has no matrix: ValueError"""
    setup(cx)
    A, B, n = cx.int("A", 0), cx.int("B", 0), cx.int("n", 1)
    c = cx.call(_circuit.Circuit, PyList(lin.ops(A, "a").segs + (One(NonGate("x", z3.Int("x"))),) + lin.ops(B, "b").segs), n)
    cx.raises(ValueError, cx.get(c, "to_unitary"))


@obligation("C01")
def apply_gate(cx):
    """applying a gate operation to a state of n qubits multiplies it by the lifted matrix"""
    setup(cx)
    n = cx.int("n", 0)
    op = lin.gate_op("g", z3.Int("j"))
    cx.freeze(op)
    state = Word.of("state", rows=_p2(n), vec=True)
    r = cx.call(cx.get(op, "apply"), state)
    cx.same(r, Word((One(lifted("g", z3.Int("j"), n)),) + state.segs, vec=True), "matrix times state")


class Op(Abs):
    """any operation: acts linearly on states"""

    _pyclasses = (_operations.Operation,)

    def apply(self, state):
        s = lin.vec(state)
        return Word((One(At("act", self.key)),) + s.segs, s.rows, True)


class Final:
    """the wavefunction of a state"""

    __pyvc_value__ = True

    def __init__(self, w):
        self.w = w

    def __pyvc_getattr__(self, I, name):
        if name == "get_probabilities":
            return lambda: Abs("probabilities")
        raise Unsupported(f"wavefunction.{name}")


def op_product(L, rest):
    v = V.index_var("v")
    L = toint(L)
    return Word((Fam(L, v, At("act", (z3.simplify(L - 1 - v),))),) + tuple(lin.vec(rest).segs), None, True)


def basis_state(cx, n):
    z = ZArr(_p2(n))
    z.__pyvc_setitem__(cx.I, 0, 1)
    return z


def run_symbolic(cx, L, n, given):
    v = V.index_var("o")
    ops = PyList((Fam(toint(L), v, Op(v)),))
    c = cx.call(_circuit.Circuit, ops, n)
    cx.freeze(c)
    cx.contract(wf.Wavefunction, lambda I, w: Final(w))
    if ws.Wavefunction is not wf.Wavefunction:
        cx.contract(ws.Wavefunction, lambda I, w: Final(w))
    sim = cx.call(ss.SymbolicSimulator)
    state = Word.of("state", rows=_p2(n), vec=True)
    r = cx.call(cx.get(sim, "get_wavefunction"), c, *([state] if given else []))
    if not isinstance(r, Final):
        raise ProofFailed("the result is a wavefunction", "refuted")
    cx.same(lin.vec(r.w), op_product(L, state if given else basis_state(cx, n)), "operations applied in order to the initial state")


def grouped(cx, nat):
    """contract of itertools.groupby for a symbolic sequence: groups g = elements S(g) .. S(g+1)-1"""

    def groupby(I, segs, key):
        if not segs:
            return PyIter(())
        if len(segs) != 1 or not isinstance(segs[0], Fam):
            raise Unsupported("groups of a structured sequence")
        f = segs[0]
        e = I.e
        G, S = z3.Int("groups"), z3.Function("start", z3.IntSort(), z3.IntSort())
        K = z3.Function("groupkey", z3.IntSort(), z3.BoolSort())
        e.assume(z3.And(G >= 1, S(0) == 0, S(G) == f.n))
        g = V.index_var("g")
        e.add_qfact(G, g, z3.And(S(g) >= 0, S(g) < S(g + 1), S(g + 1) <= f.n))
        # the key of every element is the key of its group
        j = V.index_var("j")
        kj = I.call(key, [subst(f.val, [(f.var, j)])])
        v = V.index_var("v")
        el = subst(f.val, [(f.var, S(g) + v)])
        same_key = subst(kj if isinstance(kj, bool) else zbool(kj), [(j, S(g) + v)])
        e.add_qfact(G, g, z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < S(g + 1) - S(g)), K(g) == same_key)))
        return PyIter((Fam(G, g, (SBool(K(g)), PyTuple((Fam(z3.simplify(S(g + 1) - S(g)), v, el),)))),))

    cx.I.groupby_symbolic = groupby
    S = z3.Function("start", z3.IntSort(), z3.IntSort())

    def invariant(n, i, old):
        # after m groups, the operations 0 .. S(m)-1 have been applied
        if not old.vec or not str(n) == "groups":
            return None

        def at(m):
            m = toint(m)
            cx.e.reg_index(m)
            w = op_product(S(m), Word(old.segs, None, True))
            return Word(w.segs, old.rows, True)

        return at

    cx.I.word_invariants = [invariant]


def native_models(cx):
    """a simulator that declares an arbitrary subset of the operations native and runs these correctly"""
    nat = z3.Function("native", z3.IntSort(), z3.BoolSort())
    cx.contract(ss.SymbolicSimulator.is_natively_supported, lambda I, sim, op: SBool(nat(op.key[0])))

    def native(I, sim, sub, state):
        s = lin.vec(state)
        ops = I.getattr(sub, "operations")
        segs = []
        # precondition of the native runner: only native operations
        for x in V.norm_segs(I.iter_segs(ops)):
            if isinstance(x, One):
                cx.prove(SBool(nat(x.v.key[0])), "native operations only")
            elif isinstance(x, Fam) and isinstance(x.val, Op):
                cx.each(x.n, lambda v: SBool(nat(subst(x.val.key[0], [(x.var, toint(v))]))), "native operations only")
        for x in V.norm_segs(I.iter_segs(ops)):
            if isinstance(x, One):
                segs.insert(0, One(At("act", x.v.key)))
            elif isinstance(x, Fam) and isinstance(x.val, Op):
                segs.insert(0, Fam(x.n, x.var, subst(At("act", x.val.key), [(x.var, z3.simplify(x.n - 1 - x.var))])))
            else:
                raise Unsupported("operations of a native circuit")
        return Word(tuple(segs) + s.segs, s.rows, True)

    cx.contract(ss.SymbolicSimulator._get_wavefunction_from_native_circuit, native)
    grouped(cx, nat)


def sim_ob(name, given, native):
    def ob(cx):
        setup(cx)
        L, n = cx.int("L", 0), cx.int("n", 1)
        if native:
            native_models(cx)
        else:
            # every operation is native to this simulator: a single group
            grouped(cx, None)
        run_symbolic(cx, L, n, given)

    ob.__doc__ = ("final state of a simulator with any set of native operations" if native else "final state of the symbolic simulator") + (
        " from a given state" if given else " from |0...0>") + ": all operations applied in order"
    obligation("C01", name=name)(ob)


sim_ob("simulator_native_given", True, True)
sim_ob("simulator_native_zero", False, True)
sim_ob("symbolic_given", True, False)
sim_ob("symbolic_zero", False, False)


@obligation("C01")
def concatenation(cx):
    """c1 + c2: the operations of c1 followed by those of c2; the width is the larger one; arguments unchanged"""
    setup(cx)
    A, B, n, m = cx.int("A", 0), cx.int("B", 0), cx.int("n", 1), cx.int("m", 1)
    a, b = circuit(cx, "a", A, n), circuit(cx, "b", B, m)
    cx.freeze(a), cx.freeze(b)
    c = cx.op("+", a, b)
    cx.same(cx.get(c, "operations"), PyList(lin.ops(A, "a").segs + lin.ops(B, "b").segs), "operations")
    w = cx.get(c, "n_qubits")
    cx.prove(SBool(toint(w) == z3.If(n.t >= m.t, n.t, m.t)), "width")


@obligation("C01")
def appended(cx):
    """c + operation: appended at the end, register widened when needed"""
    setup(cx)
    A, n = cx.int("A", 0), cx.int("n", 1)
    a = circuit(cx, "a", A, n)
    cx.freeze(a)
    op = lin.gate_op("x", z3.Int("j"))
    k = lin.k_of("x", z3.Int("j"))
    cx.assume(SBool(k >= 1))
    v = V.index_var("v")
    cx.e.add_qfact(k, v, lin.q_of("x", z3.Int("j"), v) >= 0)
    c = cx.op("+", a, op)
    cx.same(cx.get(c, "operations"), PyList(lin.ops(A, "a").segs + (One(op),)), "operations")
    w = toint(cx.get(c, "n_qubits"))
    cx.prove(SBool(w >= n.t), "not narrower")
    i = z3.Int("i")
    cx.assume(SBool(z3.And(i >= 0, i < k)))
    cx.e.reg_index(i)
    cx.e.reg_index(i - 1)
    cx.prove(SBool(lin.q_of("x", z3.Int("j"), i) < w), "wide enough for the operation")
    cx.e.add(z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < k), lin.q_of("x", z3.Int("j"), v) != w - 1)))
    cx.prove(SBool(w == n.t), "no wider than needed")


@obligation("C01")
def default_width(cx):
    """without an explicit width the register is just wide enough: one more than the largest index used (0 when empty)"""
    setup(cx)
    L = cx.int("L", 0)
    i, p = z3.Int("i"), z3.Int("p")
    j, v = V.index_var("j"), V.index_var("v")
    cx.e.add_qfact(L.t, j, lin.k_of("g", j) >= 1)
    cx.e.add_qfact(L.t, j, z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < lin.k_of("g", j)), lin.q_of("g", j, v) >= 0)))  # indices are natural numbers
    c = cx.call(_circuit.Circuit, lin.ops(L, "g"))
    w = toint(cx.get(c, "n_qubits"))
    if not cx.choose(L.t > 0):
        cx.prove(SBool(w == 0), "no qubits without operations")
        return
    cx.assume(SBool(z3.And(i >= 0, i < L.t, p >= 0, p < lin.k_of("g", i))))
    cx.e.reg_index(i)
    cx.e.reg_index(p)
    cx.prove(SBool(lin.q_of("g", i, p) < w), "every index fits")
    cx.e.add(z3.ForAll([j, v], z3.Implies(z3.And(j >= 0, j < L.t, v >= 0, v < lin.k_of("g", j)), lin.q_of("g", j, v) != w - 1)))
    cx.prove(False, "the largest index is used")

# ---------------------------------------------------------------- embedding of gates
from vc.proof import lifting  # noqa: E402

lifting.register("C01")
TRUSTED += lifting.TRUSTED

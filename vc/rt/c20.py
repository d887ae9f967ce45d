"""C20: value-returning operations leave every argument as it was and are repeatable."""
import dataclasses
import io
import os
import tempfile

import numpy as np
import sympy

import orquestra.quantum.circuits as oc
from orquestra.quantum import evolution
from orquestra.quantum import wavefunction as owf
from orquestra.quantum.circuits import _circuit as ocirc
from orquestra.quantum.circuits import _gates as og
from orquestra.quantum.circuits import _serde as oserde
from orquestra.quantum.circuits import _wavefunction_operations as owo
from orquestra.quantum import decompositions as odec
from orquestra.quantum import distributions as od
from orquestra.quantum import estimation as oest
from orquestra.quantum import measurements as om
from orquestra.quantum import operators as oo
from orquestra.quantum.operators import _utils as oou
from orquestra.quantum.api import estimation as oapi
from orquestra.quantum.api.wavefunction_simulator import BaseWavefunctionSimulator
from orquestra.quantum.distributions import _measurement_outcome_distribution as omod
from orquestra.quantum.runners.symbolic_simulator import SymbolicSimulator
from orquestra.quantum.runners.trackers import MeasurementTrackingBackend

from .. import orc
from ..rtcore import contract


# ------------------------------------------------------------------ observation
def snap(x, d=0):
    """deep observation of an argument: everything a user can read, nothing an implementation may cache"""
    if d > 12:
        return "..."
    if x is None or isinstance(x, (bool, str, bytes)):
        return (type(x).__name__, x)
    if isinstance(x, (int, float, complex, np.number)):
        return (type(x).__name__, repr(x))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("ndarray", x.shape, tuple(snap(v, d + 1) for v in x.reshape(-1)))
        return ("ndarray", x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, sympy.MatrixBase):
        return (type(x).__name__, x.shape, tuple(sympy.srepr(v) for v in x))
    if isinstance(x, sympy.Basic):
        return ("sympy", sympy.srepr(x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(v, d + 1) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted((snap(v, d + 1) for v in x), key=repr)))
    if isinstance(x, dict):
        return (type(x).__name__, tuple((snap(k, d + 1), snap(v, d + 1)) for k, v in x.items()))
    if isinstance(x, oc.Circuit):
        return ("Circuit", x.n_qubits, snap(list(x.operations), d + 1))
    if isinstance(x, oo.PauliTerm):
        return ("PauliTerm", tuple(sorted((q, x[q]) for q in x.qubits)), snap(x.coefficient), str(x))
    if isinstance(x, oo.PauliSum):
        return ("PauliSum", tuple(snap(t, d + 1) for t in x.terms))
    if isinstance(x, om.Measurements):
        return ("Measurements", snap(x.bitstrings, d + 1))
    if isinstance(x, od.MeasurementOutcomeDistribution):
        return ("Distribution", snap(x.distribution_dict, d + 1))
    if isinstance(x, owf.Wavefunction):
        return ("Wavefunction", snap(x.amplitudes, d + 1), snap(list(x), d + 1), snap(x.free_symbols))
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return (type(x).__name__, tuple((f.name, snap(getattr(x, f.name), d + 1)) for f in dataclasses.fields(x)))
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return (type(x).__name__, tuple(snap(v, d + 1) for v in x))
    if isinstance(x, (om.ExpectationValues, om.Parities)):
        return (type(x).__name__, tuple((k, snap(v, d + 1)) for k, v in sorted(vars(x).items())))
    if callable(x):
        return ("fn", getattr(x, "__qualname__", type(x).__name__))
    return ("obj", type(x).__name__)


def result(x):
    """snapshot of a result; iterators are drained"""
    if hasattr(x, "__next__"):
        x = list(x)
    return snap(x)


def run(fn, args):
    try:
        return ("value", result(fn(*args)))
    except (NotImplementedError, ValueError, TypeError, RuntimeError, AttributeError, AssertionError, OverflowError,
            ZeroDivisionError, IndexError, KeyError) as e:
        return ("raises", type(e).__name__)


def check(ctx, name, fn, args, repeat=True):
    before = [snap(a) for a in args]
    r1 = run(fn, args)
    mid = [snap(a) for a in args]
    for i, (b, a) in enumerate(zip(before, mid)):
        ctx.require(b == a, f"{name} changed argument {i}", before=b, after=a)
    if repeat:
        r2 = run(fn, args)
        for i, (b, a) in enumerate(zip(before, [snap(a) for a in args])):
            ctx.require(b == a, f"second call of {name} changed argument {i}", before=b, after=a)
        ctx.require(r1 == r2, f"{name} called twice gives different results", first=r1, second=r2)
    return r1


def saved(save, load=None):
    def f(*args):
        fd, p = tempfile.mkstemp(prefix="c20_")
        os.close(fd)
        try:
            save(*args, p)
            return open(p).read()
        finally:
            os.unlink(p)

    return f


# ------------------------------------------------------------------ argument makers
def mk_circuit(ctx, syms=False, wide=True, n=None, m=None, exotic=True):
    r = ctx.rng
    n = n or r.randint(1, 3)
    ops = orc.random_ops(r, ctx.np, n, r.randint(0, 4) if m is None else m, orc.symbols(r, 3) if syms else None)
    if exotic and ops and r.random() < 0.4:
        d, f, np_, k = orc.custom_param(r)
        if k <= n:
            ps = [orc.expr(r, orc.symbols(r, 2)) if syms else orc.angle(r) for _ in range(np_)]
            ops.insert(r.randrange(len(ops)), d(*ps)(*r.sample(range(n), k)))
    return oc.Circuit(ops, n_qubits=n if r.random() < 0.7 else None)


def mk_gate(ctx, syms=True):
    r = ctx.rng
    g = orc.random_builtin(r, 2, orc.symbols(r, 2) if syms else None)
    for _ in range(r.choice([0, 1, 1, 2])):
        k = r.randrange(5)
        if k == 0:
            g = g.dagger
        elif k <= 2:
            if g.num_qubits <= 2:
                g = g.controlled(r.randint(1, 2))
        elif k == 3 and not g.free_symbols and g.num_qubits == 1:
            g = g.power(r.choice([2, -1, 3]))
    return g


def state(ctx, n):
    return orc.random_state(ctx.np, n)


class HalfNative(BaseWavefunctionSimulator):
    """simulator whose native set is the one-qubit operations; hands out and keeps its arrays"""

    supports = None

    def is_natively_supported(self, op):
        return isinstance(op, og.GateOperation) and len(op.qubit_indices) == 1

    def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
        st = initial_state
        for op in circuit.operations:
            st = op.apply(st)
        return st


OPS = []


def op(name, repeat=True, n=4):
    def deco(f):
        OPS.append((name, f, repeat))
        return f

    return deco


def cases(tier):
    k = 5 if tier == "quick" else 60
    return [(i, j) for i in range(len(OPS)) for j in range(k)]


# circuits
def _c(name, fn, syms=True, extra=None, repeat=True):
    def mk(ctx):
        c = mk_circuit(ctx, syms=syms and ctx.rng.random() < 0.6)
        return fn, (c, *(extra(ctx, c) if extra else ()))

    OPS.append((name, mk, repeat))


_c("circuit + circuit", lambda a, b: a + b, extra=lambda ctx, c: (mk_circuit(ctx, True),))
_c("circuit + operation", lambda a, b: a + b, extra=lambda ctx, c: (mk_gate(ctx)(*range(4)),) if False else (oc.CNOT(2, 5),))
_c("circuit += circuit", lambda a, b: (lambda t: [t := t + b, t][1])(a), extra=lambda ctx, c: (mk_circuit(ctx, True),))


def _iadd(a, b):
    x = a
    x += b
    return x


_c("circuit += (augmented)", _iadd, extra=lambda ctx, c: (mk_circuit(ctx, True),))
_c("circuit += operation (augmented)", _iadd, extra=lambda ctx, c: (oc.RX(0.2)(1),))
_c("bind", lambda c, m: c.bind(m), extra=lambda ctx, c: ({s: ctx.rng.choice([0.3, sympy.Symbol("zz"), 2]) for s in list(c.free_symbols)[:2] + [sympy.Symbol("other")]},))
_c("inverse", lambda c: c.inverse())
_c("controlled", lambda c, i: c.controlled(i), extra=lambda ctx, c: (ctx.rng.randint(0, 3),))
_c("to_unitary", lambda c: c.to_unitary())
_c("free_symbols", lambda c: c.free_symbols)
_c("custom definitions", lambda c: c.collect_custom_gate_definitions())
_c("circuit ==", lambda a, b: a == b, extra=lambda ctx, c: (mk_circuit(ctx, True),))
_c("circuit str", lambda c: [str(c), repr(c), [str(o) for o in c.operations]])
_c("circuit to_dict", lambda c: oserde.to_dict(c))
_c("save_circuit", saved(lambda c, p: oserde.save_circuit(c, p)))
_c("save_circuitset", saved(lambda c, p: oserde.save_circuitset(c, p)))
OPS[-1] = (OPS[-1][0], lambda ctx: (saved(lambda c, p: oserde.save_circuitset(c, p)), ([mk_circuit(ctx, True), mk_circuit(ctx)],)), True)
OPS.append(("circuit_from_dict", lambda ctx: (oserde.circuit_from_dict, (oserde.to_dict(mk_circuit(ctx, True)),)), True))
OPS.append(("circuitset_from_dict", lambda ctx: (oserde.circuitset_from_dict, (oserde.to_dict([mk_circuit(ctx, True), mk_circuit(ctx)]),)), True))
_c("split_circuit", lambda c: list(oc.split_circuit(c, lambda o: len(o.qubit_indices) == 1)))
_c("decompose", lambda c, r: odec.decompose_orquestra_circuit(c, r),
   extra=lambda ctx, c: ([odec.U3GateToRotation()] * ctx.rng.randint(0, 2),))
OPS.append(("decompose U3", lambda ctx: (
    lambda c, r: odec.decompose_orquestra_circuit(c, r),
    (oc.Circuit([oc.U3(0.1, orc.SYMS[0], 2)(1), oc.X(0), oc.U3(1, 2, 3).controlled(2)(4, 2, 0)]), [odec.U3GateToRotation()])), True))
_c("add_ancilla_register", lambda c, k: oc.add_ancilla_register(c, k), extra=lambda ctx, c: (ctx.rng.randint(0, 3),))
_c("apply_gate_to_qubits", lambda c, q, g: oc.apply_gate_to_qubits(c, q, g),
   extra=lambda ctx, c: (ctx.rng.choice([[0, 2], [1], [], [3, 1, 0]]), oc.X))
_c("apply_gate_to_qubits params", lambda c, q, g, p: oc.apply_gate_to_qubits(c, q, g, p),
   extra=lambda ctx, c: ([2, 0], oc.RY, np.array([[0.1], [0.4]])))
OPS.append(("create_layer_of_gates", lambda ctx: (
    lambda n, g, p: oc.create_layer_of_gates(n, g, p), (3, oc.RX, ctx.np.uniform(size=(3, 1)))), True))
_c("Circuit(operations)", lambda l: oc.Circuit(l), extra=None)
OPS[-1] = ("Circuit(operations)", lambda ctx: (lambda l: (oc.Circuit(l) + oc.X(0), oc.Circuit(l)), (list(mk_circuit(ctx, True).operations),)), True)
OPS.append(("collect from shared list", lambda ctx: (lambda l: oc.Circuit(l).inverse(), (list(mk_circuit(ctx).operations),)), True))


# gates
def _g(name, fn, syms=True, extra=None):
    OPS.append((name, lambda ctx: (fn, (lambda g: (g, *(extra(ctx, g) if extra else ())))(mk_gate(ctx, syms))), True))


_g("gate matrix", lambda g: g.matrix)
_g("gate dagger", lambda g: g.dagger)
_g("gate controlled", lambda g: g.controlled(2))
_g("gate power", lambda g: g.power(2))
_g("gate exp", lambda g: g.exp)
_g("gate bind", lambda g, m: g.bind(m), extra=lambda ctx, g: ({s: 0.5 for s in g.free_symbols},))
_g("gate replace_params", lambda g, p: g.replace_params(p), extra=lambda ctx, g: (tuple(orc.angle(ctx.rng) for _ in g.params),))
_g("gate str/==", lambda g, h: (str(g), g == h, g == g), extra=lambda ctx, g: (mk_gate(ctx),))
_g("gate free_symbols", lambda g: list(g.free_symbols))
_g("gate call", lambda g, q: g(*q), extra=lambda ctx, g: (list(range(g.num_qubits)),))
_g("gate to_dict", lambda g: oserde.to_dict(g))


def _apply(ctx):
    n = ctx.rng.randint(1, 3)
    ops = orc.random_ops(ctx.rng, ctx.np, n, 1)
    return lambda o, s: o.apply(s), (ops[0], state(ctx, n))


OPS.append(("operation apply", _apply, True))
OPS.append(("operation apply to sympy", lambda ctx: (lambda o, s: o.apply(s), (oc.RX(orc.SYMS[0])(1), sympy.Matrix([0, 1, 0, 0]))), True))
OPS.append(("operation lifted_matrix", lambda ctx: (lambda o, k: o.lifted_matrix(k), (orc.random_ops(ctx.rng, ctx.np, 3, 1)[0], 3)), True))
OPS.append(("multiphase apply", lambda ctx: (lambda o, s: o.apply(s), (oc.MultiPhaseOperation((0.1, 0.2, -3, 2)), state(ctx, 2))), True))
OPS.append(("multiphase bind", lambda ctx: (lambda o, m: o.bind(m), (oc.MultiPhaseOperation((orc.SYMS[0], 0.2, -3, orc.SYMS[1] + 1)), {orc.SYMS[0]: 0.2})), True))
OPS.append(("custom gate call", lambda ctx: (lambda d, p: d(*p).matrix, (lambda t: (t[0], tuple(0.1 * (i + 1) for i in range(t[2]))))(orc.custom_param(ctx.rng))), True))
OPS.append(("custom definition ==", lambda ctx: (lambda d, e: (d == e, d == d), (orc.custom_param(ctx.rng, "n")[0], orc.custom_param(ctx.rng, "n")[0])), True))


# simulators
def _sim(simcls, call, repeat=True, minops=0, extra=None):
    def mk(ctx):
        n = ctx.rng.randint(1, 3)
        ops = orc.random_ops(ctx.rng, ctx.np, n, ctx.rng.randint(minops, 4))
        if ctx.rng.random() < 0.4:
            ops.insert(ctx.rng.randint(0, len(ops)), oc.MultiPhaseOperation(tuple(ctx.np.uniform(size=2**n))))
        c = oc.Circuit(ops, n_qubits=n)
        return (lambda *a: call(simcls(), *a)), (c, *(extra(ctx, c) if extra else ()))

    return mk


for _cls in (SymbolicSimulator, HalfNative):
    _nm = _cls.__name__
    OPS.append((f"{_nm} get_wavefunction(initial state)", _sim(
        _cls, lambda s, c, v: s.get_wavefunction(c, v), extra=lambda ctx, c: (state(ctx, c.n_qubits),)), True))
    OPS.append((f"{_nm} get_wavefunction", _sim(_cls, lambda s, c: s.get_wavefunction(c)), True))
    OPS.append((f"{_nm} run_and_measure", _sim(_cls, lambda s, c: s.run_and_measure(c, 7) and None), True))
    OPS.append((f"{_nm} exact distribution", _sim(_cls, lambda s, c: s.get_measurement_outcome_distribution(c)), True))
    OPS.append((f"{_nm} exact expectation", _sim(
        _cls, lambda s, c, o: s.get_exact_expectation_values(c, o), extra=lambda ctx, c: (orc.random_sum(ctx.rng, c.n_qubits, 3),)), True))
OPS.append(("run_batch_and_measure", lambda ctx: (
    lambda cs, ns: SymbolicSimulator(seed=3).run_batch_and_measure(cs, ns),
    ([oc.Circuit([oc.H(0), oc.CNOT(0, 1)]), oc.Circuit([oc.X(1)])], [5, 3])), True))


# operators
def mk_op(ctx, n=3, real=False, ising=False):
    return (orc.random_term(ctx.rng, n, real=real, ising=ising) if ctx.rng.random() < 0.4
            else orc.random_sum(ctx.rng, n, real=real, ising=ising))


def _o2(name, fn):
    OPS.append((f"operator {name} operator", lambda ctx: (fn, (mk_op(ctx), mk_op(ctx))), True))
    OPS.append((f"operator {name} number", lambda ctx: (fn, (mk_op(ctx), ctx.rng.choice([2, 0, 0.5, 1 - 2j, -1.0]))), True))
    OPS.append((f"number {name} operator", lambda ctx: (fn, (ctx.rng.choice([2, 0, 0.5, 1 - 2j, -1.0]), mk_op(ctx))), True))


def _aug(f):
    return f


def _iadd2(a, b):
    a += b
    return a


def _imul(a, b):
    a *= b
    return a


def _isub(a, b):
    a -= b
    return a


def _itruediv(a, b):
    a /= b
    return a


def _ipow(a, b):
    a **= b
    return a


for _n2, _f2 in (("+", lambda a, b: a + b), ("-", lambda a, b: a - b), ("*", lambda a, b: a * b), ("+=", _iadd2),
                 ("-=", _isub), ("*=", _imul), ("==", lambda a, b: a == b)):
    _o2(_n2, _f2)
OPS.append(("self + self", lambda ctx: ((lambda a: (a + a, a - a, a * a, a == a)), (mk_op(ctx),)), True))


def _o1(name, fn, extra=None, **kw):
    OPS.append((name, lambda ctx: (fn, (mk_op(ctx, **kw), *(extra(ctx) if extra else ()))), True))


_o1("operator /", lambda a, b: a / b, lambda ctx: (ctx.rng.choice([2, 0.5, 1j, -3]),))
_o1("operator /=", _itruediv, lambda ctx: (ctx.rng.choice([2, 0.5, 1j, -3]),))
_o1("operator **", lambda a, b: a**b, lambda ctx: (ctx.rng.randint(0, 3),), n=2)
_o1("operator **=", _ipow, lambda ctx: (ctx.rng.randint(0, 3),), n=2)
_o1("simplify", lambda a: a.simplify() if isinstance(a, oo.PauliSum) else a)
_o1("operator hash/str/len", lambda a: (hash(a), str(a), repr(a), len(a)))
_o1("operator views", lambda a: (a.terms, a.qubits, a.is_ising, a.is_constant, a.n_qubits, list(a)))
_o1("operator circuits", lambda a: a.circuits if isinstance(a, oo.PauliSum) else a.circuit)
_o1("operator circuits composed", lambda a: [c + oc.X(0) for c in (a.circuits if isinstance(a, oo.PauliSum) else [a.circuit])])
_o1("constant_term", lambda a: a.constant_term if isinstance(a, oo.PauliSum) else None)
_o1("operator copy", lambda a: [t.copy() for t in a.terms] + [t.copy(3) for t in a.terms])
_o1("hermitian_conjugated", lambda a: oo.hermitian_conjugated(a))
_o1("is_hermitian", lambda a: oo.is_hermitian(a))
_o1("get_sparse_operator", lambda a: oo.get_sparse_operator(a, 3).toarray())
_o1("convert_op_to_dict", lambda a: oo.convert_op_to_dict(a))
OPS.append(("convert_dict_to_op", lambda ctx: (oo.convert_dict_to_op, (oo.convert_op_to_dict(mk_op(ctx)),)), True))
_o1("save_operator", saved(lambda a, p: oo.save_operator(a, p)))
OPS.append(("save_operator_set", lambda ctx: (saved(lambda a, p: oo.save_operator_set(a, p)), ([mk_op(ctx), mk_op(ctx)],)), True))
_o1("get_pauli_strings", lambda a: oo.get_pauli_strings(a))
_o1("reverse_qubit_order", lambda a, n: oo.reverse_qubit_order(a, n), lambda ctx: (ctx.rng.choice([None, 3, 5]),))
_o1("get_expectation_value", lambda a, w: oo.get_expectation_value(a, w), lambda ctx: (owf.Wavefunction(state(ctx, 3)),))
_o1("get_expectation_value reversed", lambda a, w: oo.get_expectation_value(a, w, True), lambda ctx: (owf.Wavefunction(state(ctx, 3)),))
_o1("evaluate_operator", lambda a, v: oou.evaluate_operator(a, v).value, lambda ctx: (om.ExpectationValues(ctx.np.uniform(size=9)),))
OPS.append(("evaluate_operator_list", lambda ctx: (lambda a, v: oou.evaluate_operator_list(a, v).value,
                                                   ([mk_op(ctx), mk_op(ctx)], om.ExpectationValues(ctx.np.uniform(size=18)))), True))
OPS.append(("get_pauliop_from_matrix", lambda ctx: (lambda m: oou.get_pauliop_from_matrix(m), (ctx.np.uniform(size=(4, 4)).tolist(),)), True))
OPS.append(("get_pauliop_from_coeffs_and_labels", lambda ctx: (
    oou.get_pauliop_from_coeffs_and_labels, ([0.5, 1j], [[1, 0, 3], [2, 2, 0]])), True))
OPS.append(("PauliSum(list)", lambda ctx: (lambda l: (oo.PauliSum(l) + 1, oo.PauliSum(l).simplify()), (list(orc.random_sum(ctx.rng, 3).terms),)), True))
OPS.append(("PauliTerm(dict)", lambda ctx: (lambda d: (oo.PauliTerm(d, 2) * oo.PauliTerm("X0*Z1"), oo.PauliTerm(d)), ({0: "X", 2: "I", 1: "Z"},)), True))
OPS.append(("PauliTerm.from_iterable", lambda ctx: (lambda d: oo.PauliTerm.from_iterable(d, 2), ([("X", 0), ("I", 4), ("Z", 2)],)), True))
_o1("time_evolution", lambda a, t: evolution.time_evolution(oo.PauliSum(list(a.terms)), t, n_steps=2), lambda ctx: (ctx.rng.choice([0.4, orc.SYMS[0]]),), real=True)
_o1("time_evolution on shared", lambda a, t: evolution.time_evolution(a, t, n_steps=3), lambda ctx: (0.3,), real=True)
_o1("time_evolution_derivatives", lambda a, t: evolution.time_evolution_derivatives(a, t, n_steps=2), lambda ctx: (0.4,), real=True)


# measurements
def mk_meas(ctx, n=3):
    k = ctx.rng.randint(1, 12)
    return om.Measurements([tuple(ctx.rng.randrange(2) for _ in range(n)) for _ in range(k)])


def _m(name, fn, extra=None):
    OPS.append((name, lambda ctx: (fn, (mk_meas(ctx), *(extra(ctx) if extra else ()))), True))


_m("get_counts", lambda m: m.get_counts())
_m("get_distribution", lambda m: m.get_distribution())
_m("get_expectation_values", lambda m, o, b: m.get_expectation_values(o, b),
   lambda ctx: (mk_op(ctx, ising=True), ctx.rng.random() < 0.5))
_m("measurements save", saved(lambda m, p: m.save(p)))
_m("parities of measurements", lambda m, o: om.get_parities_from_measurements(m.bitstrings, o), lambda ctx: (mk_op(ctx, ising=True),))
_m("counts transformed", lambda m: om.Measurements.from_counts(m.get_counts()).get_counts())
OPS.append(("from_counts", lambda ctx: (om.Measurements.from_counts, (mk_meas(ctx).get_counts(),)), True))
OPS.append(("representing distribution", lambda ctx: (
    lambda d, n: len(om.Measurements.get_measurements_representing_distribution(d, n).bitstrings),
    (mk_dist(ctx), ctx.rng.choice([1, 2, 3, 7, 10, 33]))), True))
OPS.append(("frequencies", lambda ctx: (om.get_expectation_value_from_frequencies, ([0, 2], mk_meas(ctx).get_counts())), True))
OPS.append(("check_parity", lambda ctx: (om.check_parity, ((0, 1, 1), [1, 2])), True))
OPS.append(("check_parity_of_vector", lambda ctx: (om.check_parity_of_vector, (ctx.np.integers(0, 2, size=(4, 3)), [0, 2])), True))
OPS.append(("expectation values from parities", lambda ctx: (om.get_expectation_values_from_parities, (
    om.get_parities_from_measurements(mk_meas(ctx).bitstrings, orc.random_sum(ctx.rng, 3, 2, ising=True)),)), True))
OPS.append(("parities to_dict", lambda ctx: (lambda p: p.to_dict(), (
    om.get_parities_from_measurements(mk_meas(ctx).bitstrings, orc.random_sum(ctx.rng, 3, 2, ising=True)),)), True))


def mk_ev(ctx):
    k = ctx.rng.randint(1, 3)
    f = ctx.rng.randint(0, 2)
    return om.ExpectationValues(ctx.np.uniform(size=k), [ctx.np.uniform(size=(k, k)) for _ in range(f)] or None,
                                [ctx.np.uniform(size=(k, k)) for _ in range(f)] or None)


OPS.append(("concatenate_expectation_values", lambda ctx: (om.concatenate_expectation_values, ([mk_ev(ctx) for _ in range(3)],)), True))
OPS.append(("expectation values to_dict", lambda ctx: (lambda e: e.to_dict(), (mk_ev(ctx),)), True))
OPS.append(("expectation values ==", lambda ctx: (lambda e, f: e == f if False else e.to_dict() == f.to_dict(), (mk_ev(ctx), mk_ev(ctx))), True))
OPS.append(("save_expectation_values", lambda ctx: (saved(lambda e, p: om.save_expectation_values(e, p)), (mk_ev(ctx),)), True))


# distributions
def mk_dist(ctx, n=None, normalize=True, strings=False):
    n = n or ctx.rng.randint(1, 3)
    keys = [tuple((i >> (n - 1 - q)) & 1 for q in range(n)) for i in range(2**n)]
    keys = ctx.rng.sample(keys, ctx.rng.randint(1, len(keys)))
    return od.MeasurementOutcomeDistribution({k: ctx.rng.uniform(0.01, 1) for k in keys}, normalize=normalize)


def _d(name, fn, extra=None, n=3):
    OPS.append((name, lambda ctx: (fn, (mk_dist(ctx, n, ctx.rng.random() < 0.8), *(extra(ctx) if extra else ()))), True))


_d("subdistribution", lambda d, q: d.subdistribution(q), lambda ctx: (ctx.rng.sample(range(3), ctx.rng.randint(1, 3)),))
_d("subsystems/repr", lambda d: (d.get_number_of_subsystems(), repr(d)))
_d("is_normalized", lambda d: (od.is_normalized(d.distribution_dict), od.is_measurement_outcome_distribution(d.distribution_dict)))
_d("mmd", lambda a, b, p: od.compute_mmd(a, b, p), lambda ctx: (mk_dist(ctx, 3), {"sigma": ctx.rng.choice([1, 0.5, [1, 2.0]])}))
_d("mmd default", lambda a, b, p: od.compute_mmd(a, b, p), lambda ctx: (mk_dist(ctx, 3), {}))
_d("clipped nll", lambda a, b, p: od.compute_clipped_negative_log_likelihood(a, b, p), lambda ctx: (mk_dist(ctx, 3), {"epsilon": 1e-6}))
_d("jensen shannon", lambda a, b, p: od.compute_jensen_shannon_divergence(a, b, p), lambda ctx: (mk_dist(ctx, 3), {"epsilon": 1e-6}))
_d("distance evaluation", lambda a, b, p: od.evaluate_distribution_distance(a, b, od.compute_mmd, distance_measure_parameters=p),
   lambda ctx: (mk_dist(ctx, 3), {"sigma": 0.7}))
_d("save distribution", saved(lambda d, p: od.save_measurement_outcome_distribution(d, p)))
OPS.append(("save distributions", lambda ctx: (saved(lambda d, p: od.save_measurement_outcome_distributions(d, p)), ([mk_dist(ctx), mk_dist(ctx)],)), True))
OPS.append(("distribution from dict", lambda ctx: (lambda x, n: od.MeasurementOutcomeDistribution(x, n),
                                                   ({(0, 1): 0.4, (1, 1): 2.5}, ctx.rng.random() < 0.5)), True))
OPS.append(("distribution from strings", lambda ctx: (lambda x, n: od.MeasurementOutcomeDistribution(x, n),
                                                      ({"01": 0.4, "11": 2.5}, ctx.rng.random() < 0.5)), True))
OPS.append(("distribution from probabilities", lambda ctx: (
    omod.create_bitstring_distribution_from_probability_distribution, (ctx.np.dirichlet(np.ones(8)),)), True))
_d("derived from shared dict", lambda d: od.MeasurementOutcomeDistribution(d.distribution_dict).subdistribution([1]))
_d("number of subsystems twice", lambda d: [d.subdistribution([q]) for q in range(3)])


# wavefunctions
def mk_wf(ctx, n=None):
    n = n or ctx.rng.randint(1, 3)
    return owf.Wavefunction(state(ctx, n))


def mk_swf(ctx):
    a, b = orc.SYMS[0], orc.SYMS[1]
    return owf.Wavefunction(ctx.rng.choice([sympy.Matrix([a, b]), sympy.Matrix([a, sympy.sqrt(2) / 2, b, 0]), sympy.Matrix([sympy.cos(a), sympy.sin(a)])]))


def _w(name, fn, extra=None, sym=True):
    OPS.append((name, lambda ctx: (fn, (mk_wf(ctx), *(extra(ctx) if extra else ()))), True))
    if sym:
        OPS.append((name + " (symbolic)", lambda ctx: (fn, (mk_swf(ctx), *(extra(ctx) if extra else ()))), True))


_w("amplitudes", lambda w: w.amplitudes)
_w("probabilities", lambda w: w.get_probabilities(), sym=False)
_w("outcome probs", lambda w: w.get_outcome_probs(), sym=False)
_w("n_qubits/len/iter", lambda w: (w.n_qubits, len(w), list(w), w[0], w.free_symbols))
_w("wavefunction str/==", lambda w, v: (str(w), w == v, w == w), lambda ctx: (mk_wf(ctx),))
_w("wavefunction bind", lambda w, m: w.bind(m), lambda ctx: ({orc.SYMS[0]: 0.6, orc.SYMS[1]: 0.8},))
_w("wavefunction partial bind", lambda w, m: w.bind(m), lambda ctx: ({orc.SYMS[1]: 0.3},))
_w("flip_wavefunction", lambda w: owf.flip_wavefunction(w), sym=False)
_w("flip_amplitudes", lambda w: owf.flip_amplitudes(w.amplitudes), sym=False)
_w("sample", lambda w, n: owf.sample_from_wavefunction(w, n, 5), lambda ctx: (ctx.rng.choice([1, 4, 20]),), sym=False)
_w("save_wavefunction", saved(lambda w, p: owf.save_wavefunction(w, p)), sym=False)
OPS.append(("flip array", lambda ctx: (lambda a: owf.flip_amplitudes(a), (state(ctx, 3),)), True))


# estimation
def mk_tasks(ctx):
    out = []
    for _ in range(ctx.rng.randint(1, 4)):
        c = mk_circuit(ctx, syms=False, n=2)
        out.append(oapi.EstimationTask(orc.random_sum(ctx.rng, 2, 2, ising=True, real=True), c, ctx.rng.choice([3, 10, 0])))
    return out


OPS.append(("split_estimation_tasks", lambda ctx: (oest.split_estimation_tasks_to_measure, (mk_tasks(ctx),)), True))
OPS.append(("estimate by averaging", lambda ctx: (
    lambda ts: oest.estimate_expectation_values_by_averaging(SymbolicSimulator(seed=4), ts), (mk_tasks(ctx),)), True))
OPS.append(("exact expectation values", lambda ctx: (
    lambda ts: oest.calculate_exact_expectation_values(SymbolicSimulator(), ts), (mk_tasks(ctx),)), True))
OPS.append(("evaluate_estimation_circuits", lambda ctx: (lambda ts, ms: oest.evaluate_estimation_circuits(ts, ms), (lambda ts: (
    ts, [{orc.SYMS[0]: 0.1}] * len(ts)))([oapi.EstimationTask(orc.random_sum(ctx.rng, 2, 2), mk_circuit(ctx, True, n=2), 3) for _ in range(2)])), True))


@contract("C20", enum=cases)
def arguments_untouched_and_repeatable(ctx):
    """each listed operation leaves every argument observably identical; calling it twice gives equal results"""
    i, j = ctx.case
    name, mk, repeat = OPS[i]
    fn, args = mk(ctx)
    ctx.note(op=name, args=[_show(a) for a in args])
    ctx.limited(20, lambda: check(ctx, name, fn, args, repeat))


def _show(a):
    try:
        return str(a)[:200]
    except Exception:
        return type(a).__name__


@contract("C20", n=120, thorough=3000)
def histories_on_shared_objects(ctx):
    """random sequences of value-returning calls over a pool of shared objects: no call changes any object of the
    pool, and a result recorded earlier is reproduced later"""
    r = ctx.rng
    n = 2
    c1, c2 = mk_circuit(ctx, n=n), mk_circuit(ctx, syms=True, n=n)
    o1, o2 = orc.random_sum(r, n, 3, real=True), orc.random_term(r, n, real=True)
    o3 = orc.random_sum(r, n, 2, ising=True, real=True)
    m = mk_meas(ctx, n)
    d1, d2 = mk_dist(ctx, n), mk_dist(ctx, n)
    w = mk_wf(ctx, n)
    p = {"epsilon": 1e-6, "sigma": 0.7}
    pool = [c1, c2, o1, o2, o3, m, d1, d2, w, p]
    sim = SymbolicSimulator(seed=1)
    smap = {s: 0.3 for s in orc.SYMS}
    calls = {
        "c1+c2": lambda: c1 + c2, "c2+c1": lambda: c2 + c1, "c1+c1": lambda: c1 + c1, "c2.bind": lambda: c2.bind(smap),
        "c1.inverse": lambda: c1.inverse(), "c1.controlled": lambda: c1.controlled(1), "c1 unitary": lambda: c1.to_unitary(),
        "c1 dict": lambda: oserde.to_dict(c1), "o1+o2": lambda: o1 + o2, "o2+o1": lambda: o2 + o1, "o1*o2": lambda: o1 * o2,
        "o2*o1": lambda: o2 * o1, "2*o1": lambda: 2 * o1, "o1*2j": lambda: o1 * 2j, "o1**2": lambda: o1**2, "o1-o1": lambda: o1 - o1,
        "o1 simplify": lambda: o1.simplify(), "o1 simplify*2": lambda: o1.simplify() * 2.0, "o1==o2": lambda: o1 == o2,
        "o1 hc": lambda: oo.hermitian_conjugated(o1), "o1 dict": lambda: oo.convert_op_to_dict(o1), "o1 str": lambda: str(o1),
        "o2 circuit+": lambda: o2.circuit + oc.X(0), "o1 circuits": lambda: [x + oc.X(1) for x in o1.circuits],
        "m counts": lambda: m.get_counts(), "m dist": lambda: m.get_distribution(), "m ev": lambda: m.get_expectation_values(o3),
        "m par": lambda: om.get_parities_from_measurements(m.bitstrings, o3), "m dist sub": lambda: m.get_distribution().subdistribution([1]),
        "d1 sub": lambda: d1.subdistribution([1]), "d1 sub2": lambda: d1.subdistribution([1, 0]), "mmd": lambda: od.compute_mmd(d1, d2, p),
        "nll": lambda: od.compute_clipped_negative_log_likelihood(d1, d2, p), "js": lambda: od.compute_jensen_shannon_divergence(d1, d2, p),
        "repr dist": lambda: len(om.Measurements.get_measurements_representing_distribution(d1, 7).bitstrings),
        "w probs": lambda: w.get_probabilities(), "w outcome": lambda: w.get_outcome_probs(), "w flip": lambda: owf.flip_wavefunction(w),
        "w exp": lambda: oo.get_expectation_value(o1, w), "sim": lambda: sim.get_wavefunction(c1, w.amplitudes),
        "sim exact": lambda: sim.get_exact_expectation_values(c1, o1), "w sample": lambda: owf.sample_from_wavefunction(w, 3, 1),
        "evol": lambda: evolution.time_evolution(o1, 0.3, n_steps=2), "devol": lambda: evolution.time_evolution_derivatives(o1, 0.3),
        "dec": lambda: odec.decompose_orquestra_circuit(c1, [odec.U3GateToRotation()]),
    }
    names = r.choices(sorted(calls), k=8)
    names += [names[0], names[1]]
    ctx.note(calls=names)
    before = [snap(x) for x in pool]
    seen = {}

    def go():
        for nm in names:
            res = run(calls[nm], ())
            for x, b in zip(pool, before):
                a = snap(x)
                ctx.require(a == b, f"{nm} changed a shared {type(x).__name__}", before=b, after=a, history=names)
            if nm in seen:
                ctx.require(seen[nm] == res, f"{nm} gives a different result later in the history", first=seen[nm], second=res)
            seen[nm] = res

    ctx.limited(20, go)

import numpy as np
import sympy

from orquestra.quantum.api.circuit_runner import BaseCircuitRunner
from orquestra.quantum.api.estimation import EstimationTask
from orquestra.quantum.circuits import Circuit, MultiPhaseOperation, RX, RY, X
from orquestra.quantum.estimation import (
    calculate_exact_expectation_values,
    estimate_expectation_values_by_averaging,
    evaluate_estimation_circuits,
    evaluate_non_measured_estimation_tasks,
    split_estimation_tasks_to_measure,
)
from orquestra.quantum.measurements import Measurements
from orquestra.quantum.operators import PauliSum, PauliTerm
from orquestra.quantum.runners import SymbolicSimulator

from ..orc import circuit_matrix, expr, op_matrix, ops_repr, random_ops, random_sum, random_term, symbols
from ..rtcore import contract


class Fixed(BaseCircuitRunner):
    """runner returning arbitrary but recorded shots"""

    def __init__(self, rng):
        super().__init__()
        self.rng, self.log = rng, []

    def _run_and_measure(self, circuit, n_samples):
        b = [tuple(self.rng.randrange(2) for _ in range(circuit.n_qubits)) for _ in range(n_samples + self.rng.choice([0, 0, 2]))]
        self.log.append((circuit, n_samples, list(b)))
        return Measurements(b)


def const_op(c):
    k = c.rng.randrange(4)
    if k == 0:
        return PauliTerm({}, c.rng.choice([2, -0.5, 1.25, 0.0]))
    return PauliSum([PauliTerm({}, c.rng.uniform(-2, 2)) for _ in range(k - 1 if k < 3 else 3)])


def task(c, kind, n, basis=False):
    if basis:
        circ = Circuit([X(q) for q in range(n) if c.rng.random() < 0.5], n_qubits=n)
    else:
        circ = Circuit(random_ops(c.rng, c.np, n, c.rng.randint(1, 3), wrappers=False, custom=False), n_qubits=n)
    if kind == "const":
        return EstimationTask(const_op(c), circ, c.rng.choice([None, 0, 5]))
    op = random_sum(c.rng, n, c.rng.randint(1, 4), ising=True, real=True)
    if op.is_constant:
        op = op + PauliTerm({c.rng.randrange(n): "Z"}, 0.75)
    if c.rng.random() < 0.25:
        op = random_term(c.rng, n, ising=True, real=True)
        if not op._ops:
            op = PauliTerm({n - 1: "Z"}, 0.5)
    if c.rng.random() < 0.3:  # real coefficients held as complex numbers, as arithmetic with operators leaves them
        op = PauliSum([t.copy(complex(t.coefficient)) for t in op.terms])
    if kind == "zero":
        return EstimationTask(op, circ, 0)
    return EstimationTask(op, circ, c.rng.randint(1, 6))


def sum_const(op):
    return sum((t.coefficient for t in op.terms), 0.0)


def describe(tasks):
    return [(str(t.operator), ops_repr(t.circuit.operations), t.number_of_shots) for t in tasks]


@contract("C15", n=400)
def averaging(c):
    kinds = [c.rng.choice(["const", "zero", "meas", "meas"]) for _ in range(c.rng.randint(0, 6))]
    n = c.rng.randint(1, 3)
    tasks = [task(c, k, n) for k in kinds]
    before = describe(tasks)
    c.note(tasks=before)
    r = Fixed(c.rng)
    arg = list(tasks)
    res = estimate_expectation_values_by_averaging(r, arg)
    c.require(arg == tasks and describe(arg) == before, "task list changed")
    c.eq(len(res), len(tasks), "one result per task")
    meas = [t for t, k in zip(tasks, kinds) if k == "meas"]
    c.eq(len(r.log), len(meas), "number of circuits run")
    it = iter(r.log)
    for t, k, x in zip(tasks, kinds, res):
        v = np.asarray(x.values)
        if k == "const":
            c.eq(v.shape, (1,), "number of values")
            c.close(v[0], sum_const(t.operator), "constant task", tol=1e-12)
        elif k == "zero":
            c.close(v.sum(), 0.0, "zero-shot task", tol=0)
            c.require(np.all(v == 0), "zero-shot task")
        else:
            circ, ns, shots = next(it)
            c.require(circ == t.circuit, "circuits run out of task order")
            c.require(ns == t.number_of_shots, "shots requested")
            want = []
            for term in t.operator.terms:
                e = np.mean([(-1) ** sum(b[q] for q in term._ops) for b in shots])
                want.append(complex(term.coefficient).real * e)
            c.close(v, want, "estimated values", tol=1e-9)


@contract("C15", n=250)
def basis_states(c):
    n = c.rng.randint(1, 4)
    tasks = [task(c, c.rng.choice(["meas", "meas", "const", "zero"]), n, basis=True) for _ in range(c.rng.randint(1, 4))]
    c.note(tasks=describe(tasks))
    res = estimate_expectation_values_by_averaging(SymbolicSimulator(seed=c.rng.randrange(1000)), tasks)
    c.eq(len(res), len(tasks), "one result per task")
    for t, x in zip(tasks, res):
        if t.operator.is_constant:
            want = [sum_const(t.operator)]
        elif t.number_of_shots == 0:
            want = [0.0]
        else:
            ones = {o.qubit_indices[0] for o in t.circuit.operations}
            want = [complex(s.coefficient).real * (-1) ** len(ones & set(s._ops)) for s in t.operator.terms]
        c.close(np.asarray(x.values), want, "basis state estimates", tol=1e-12)


@contract("C15", n=150)
def exact_values(c):
    n = c.rng.randint(1, 3)
    tasks = []
    for _ in range(c.rng.randint(0, 4)):
        ops = random_ops(c.rng, c.np, n, c.rng.randint(0, 3), wrappers=False)
        op = random_sum(c.rng, n, c.rng.randint(0, 4), real=True) if c.rng.random() < 0.8 else random_term(c.rng, n, real=True)
        tasks.append(EstimationTask(op, Circuit(ops, n_qubits=n), c.rng.choice([None, 0, 3])))
    c.note(tasks=describe(tasks))
    res = calculate_exact_expectation_values(SymbolicSimulator(), tasks)
    c.eq(len(res), len(tasks), "one result per task")
    for t, x in zip(tasks, res):
        psi = circuit_matrix(t.circuit.operations, n)[:, 0]
        c.close(np.asarray(x.values), [np.vdot(psi, op_matrix(t.operator, n) @ psi).real], "exact expectation value")


@contract("C15", n=300)
def splitting(c):
    kinds = [c.rng.choice(["const", "zero", "meas"]) for _ in range(c.rng.randint(0, 8))]
    tasks = [task(c, k, 2) for k in kinds]
    c.note(kinds=kinds)
    m, nm, im, inm = split_estimation_tasks_to_measure(tasks)
    c.eq(list(im), [i for i, k in enumerate(kinds) if k == "meas"], "indices to measure")
    c.eq(list(inm), [i for i, k in enumerate(kinds) if k != "meas"], "indices not to measure")
    c.require(all(a is tasks[i] for a, i in zip(m, im)) and len(m) == len(im), "tasks to measure")
    c.require(all(a is tasks[i] for a, i in zip(nm, inm)) and len(nm) == len(inm), "tasks not to measure")
    ev = evaluate_non_measured_estimation_tasks(nm)
    c.eq(len(ev), len(nm), "non-measured results")
    for t, x in zip(nm, ev):
        c.close(np.asarray(x.values), [sum_const(t.operator) if t.operator.is_constant else 0.0], "non-measured task", tol=1e-12)
    if m:
        c.raises(RuntimeError, lambda: evaluate_non_measured_estimation_tasks(m), "measurable task evaluated without shots")


@contract("C15", n=200)
def binding(c):
    n = c.rng.randint(1, 3)
    tasks, maps = [], []
    for _ in range(c.rng.randint(0, 4)):
        sy = symbols(c.rng, 2)
        ops = random_ops(c.rng, c.np, n, c.rng.randint(1, 3), syms=sy, wrappers=False, psym=0.9)
        tasks.append(EstimationTask(random_sum(c.rng, n, 2, real=True), Circuit(ops, n_qubits=n), c.rng.choice([None, 0, 7])))
        maps.append({s: c.rng.uniform(-2, 2) for s in sy if c.rng.random() < 0.8})
    c.note(tasks=describe(tasks), maps=[str(m) for m in maps])
    keep = [dict(m) for m in maps]
    old = [t.circuit for t in tasks]
    res = evaluate_estimation_circuits(tasks, maps)
    c.eq(maps, keep, "symbol maps")
    c.eq(len(res), len(tasks), "one task per task")
    for t, o, m, x in zip(tasks, old, keep, res):
        c.require(t.circuit is o, "argument changed")
        c.require(x.circuit == o.bind(m), "bound circuit")
        c.eq(set(x.circuit.free_symbols), set(o.free_symbols) - set(m), "free symbols")
        c.require(x.operator == t.operator and x.number_of_shots == t.number_of_shots, "operator or shots changed")
        c.eq(x.circuit.n_qubits, o.n_qubits, "width")

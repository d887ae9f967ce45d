import numpy as np
import sympy

from orquestra.quantum.circuits import Circuit, RX, RY
from orquestra.quantum.evolution import time_evolution, time_evolution_derivatives, time_evolution_for_term
from orquestra.quantum.operators import PauliSum, PauliTerm

from ..orc import PAULI, circuit_matrix, coef, num, op_matrix, random_state, random_sum, random_term
from ..rtcore import contract


def realsum(c, n, m=None, constants=True):
    ts = []
    for _ in range(m if m is not None else c.rng.randint(0, 4)):
        t = random_term(c.rng, n, real=True)
        if t.is_constant and not constants:
            t = PauliTerm({c.rng.randrange(n): "Z"}, t.coefficient)
        ts.append(t)
    return PauliSum(ts)


def U(circ, n):
    return circuit_matrix(circ.operations, n)


def expo(h, t):
    w, v = np.linalg.eigh(h)
    return (v * np.exp(-1j * t * w)) @ v.conj().T


def the_time(c):
    return c.rng.choice([0.0, 1, -0.7, 0.3, np.float64(1.25), 50.0, c.rng.uniform(-4, 4), c.rng.uniform(-4, 4)])


@contract("C16", n=500)
def single_term(c):
    n = c.rng.randint(1, 4)
    t = random_term(c.rng, n, real=True)
    if c.rng.random() < 0.3:
        t = t.copy(c.rng.choice([complex(t.coefficient.real, 0), complex(t.coefficient.real, 1e-12), 1e-7, -3, 0.0, np.float64(0.4)]))
    if c.rng.random() < 0.3:
        off = c.rng.randint(1, 2)
        t = PauliTerm({q + off: o for q, o in t._ops.items()}, t.coefficient)
        n += off
    time = the_time(c)
    c.note(term=str(t), time=time)
    before = (dict(t._ops), t.coefficient)
    circ = time_evolution_for_term(t, time)
    c.eq((dict(t._ops), t.coefficient), before, "term argument")
    if not t._ops:
        c.eq(len(circ.operations), 0, "operations for a constant term")
        return
    c.require(circ.n_qubits <= n, "register wider than the term")
    want = expo(op_matrix(PauliTerm(dict(t._ops), complex(t.coefficient).real), n), float(time))
    c.close(U(circ, n), want, "evolution of a term")
    if c.rng.random() < 0.5:
        s = sympy.Symbol("t")
        e = c.rng.choice([s, 2 * s, s / 3 + 1])
        tv = c.rng.uniform(-2, 2)
        cs = time_evolution_for_term(t, e).bind({s: tv})
        c.close(U(cs, n), expo(op_matrix(PauliTerm(dict(t._ops), complex(t.coefficient).real), n), float(e.subs(s, tv))), "evolution for a symbolic time")


def apply_ops(ops, v, n):
    """gate operations on a state vector, by tensor contraction"""
    t = v.reshape((2,) * n)
    for o in ops:
        k = len(o.qubit_indices)
        u = num(o.gate.matrix).reshape((2,) * (2 * k))
        t = np.moveaxis(np.tensordot(u, t, axes=(list(range(k, 2 * k)), list(o.qubit_indices))), list(range(k)), list(o.qubit_indices))
    return t.reshape(-1)


def apply_pauli(ops, v, n):
    t = v.reshape((2,) * n)
    for q, o in ops.items():
        t = np.moveaxis(np.tensordot(PAULI[o], t, axes=([1], [q])), 0, q)
    return t.reshape(-1)


@contract("C16", n=300)
def sparse_wide_term(c):
    """terms on few, far apart qubits listed in any order (the iteration order of a set of indices is then
    neither ascending nor the listed one)"""
    n = c.rng.randint(5, 11)
    k = c.rng.randint(1, min(n, 5)) if c.rng.random() < 0.7 else c.rng.randint(1, n)
    qs = c.rng.sample(range(n), k)
    ops = {q: c.rng.choice("XYZZ") for q in qs}
    z = c.rng.uniform(-2, 2)
    time = the_time(c)
    c.note(ops=ops, coefficient=z, time=time)
    t = PauliTerm(dict(ops), z)
    circ = time_evolution_for_term(t, time)
    psi = random_state(c.np, n)
    a = float(time) * z
    want = np.cos(a) * psi - 1j * np.sin(a) * apply_pauli(ops, psi, n)
    c.close(apply_ops(circ.operations, psi, n), want, "evolution of a term on far apart qubits")


def imag_cases(tier):
    out = []
    for ops in ({}, {0: "X"}, {0: "Z", 2: "Y"}, {1: "Y"}):
        for im in (1e-3, -1e-3, 1.0, -1.0, 1e-6, -1e-6, 1e-8, -1e-8):
            for re in (0.0, 1.0, -2):
                out.append((ops, complex(re, im)))
    return out


@contract("C16", enum=imag_cases)
def imaginary_coefficients(c):
    ops, z = c.case
    t = PauliTerm(dict(ops), z)
    c.note(term=str(t))
    c.raises(ValueError, lambda: time_evolution_for_term(t, 0.3), "imaginary coefficient")
    h = PauliSum([PauliTerm({0: "X"}, 0.5), t])
    c.raises(ValueError, lambda: time_evolution(h, 0.3, n_steps=2), "imaginary coefficient in a sum")
    c.raises(ValueError, lambda: time_evolution_derivatives(h, 0.3, n_steps=2), "imaginary coefficient in a sum (derivatives)")


@contract("C16", n=300)
def trotter_product(c):
    n = c.rng.randint(1, 3)
    h = realsum(c, n)
    if c.rng.random() < 0.15:
        h = random_term(c.rng, n, real=True)
    steps = c.rng.randint(1, 4)
    time = the_time(c)
    c.note(h=str(h), time=time, steps=steps)
    before = [(dict(t._ops), t.coefficient) for t in h.terms]
    circ = time_evolution(h, time, n_steps=steps)
    c.eq([(dict(t._ops), t.coefficient) for t in h.terms], before, "operator argument")
    m = np.eye(2**n, dtype=complex)
    for _ in range(steps):
        for ops, z in before:
            if ops:
                m = expo(op_matrix(PauliTerm(ops, complex(z).real), n), float(time) / steps) @ m
    c.close(U(circ, n), m, "Trotter circuit")
    if c.rng.random() < 0.4:
        s = sympy.Symbol("t")
        c.close(U(time_evolution(h, s, n_steps=steps).bind({s: float(time)}), n), m, "Trotter circuit with a symbolic time")
    c.raises(ValueError, lambda: time_evolution(h, time, method="other"), "unknown method")
    c.raises(ValueError, lambda: time_evolution_derivatives(h, time, method="other"), "unknown method")


@contract("C16", n=160)
def derivatives(c):
    n = c.rng.randint(1, 3)
    h = realsum(c, n, c.rng.randint(1, 4))
    if c.rng.random() < 0.2:
        ts = list(h.terms)
        ts.insert(c.rng.randint(0, len(ts)), PauliTerm({c.rng.randrange(n): "X"}, 0.0))
        h = PauliSum(ts)
    if c.rng.random() < 0.1:
        h = random_term(c.rng, n, real=True)
    steps = c.rng.randint(1, 4)
    time = c.rng.choice([0.0, 0.4, -1.1, c.rng.uniform(-3, 3)])
    c.note(h=str(h), time=time, steps=steps)
    terms = [(dict(t._ops), float(complex(t.coefficient).real)) for t in h.terms]
    circs, factors = time_evolution_derivatives(h, time, n_steps=steps)
    c.eq(len(circs), len(factors), "one factor per circuit")
    obs = op_matrix(random_sum(c.rng, n, 3, real=True), n)
    psi = random_state(c.np, n)
    total = 0.0
    for k, f in zip(circs, factors):
        v = U(k, n) @ psi
        total += f * np.vdot(v, obs @ v).real
    # exact derivative: d/dt of a product of exponentials
    mats = [op_matrix(PauliTerm(o, z), n) for _ in range(steps) for o, z in terms if o]
    es = [expo(m, time / steps) for m in mats]
    v = psi
    dv = np.zeros_like(psi)
    for m, e in zip(mats, es):
        dv = e @ dv + e @ (-1j * m / steps) @ v
        v = e @ v
    want = 2 * np.vdot(v, obs @ dv).real
    c.close(total, want, "derivative of the expectation value", tol=1e-7)
    c.close(U(time_evolution(h, time, n_steps=steps), n) @ psi, v, "evolved state")

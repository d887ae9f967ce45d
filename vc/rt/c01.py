import itertools
import math
import random

import numpy as np
import sympy

from orquestra.quantum.api.wavefunction_simulator import BaseWavefunctionSimulator
from orquestra.quantum.circuits import Circuit, GateOperation, MultiPhaseOperation
from orquestra.quantum.circuits._circuit import split_circuit
from orquestra.quantum.runners.symbolic_simulator import SymbolicSimulator

from ..orc import *
from ..rtcore import contract


def _tuples(tier):
    # every ordered index tuple of every arity on every width up to the bound
    out = []
    for n in range(1, (5 if tier == "quick" else 6) + 1):
        for k in range(1, n + 1):
            for idx in itertools.permutations(range(n), k):
                out.append((n, idx))
    # wider registers: sampled tuples
    rng = random.Random(5)
    for _ in range(60 if tier == "quick" else 1500):
        n = rng.randint(6, 9)
        out.append((n, tuple(rng.sample(range(n), rng.randint(1, min(n, 5))))))
    return out


@contract("C01", enum=_tuples)
def lifted_matrix_embeds(c):
    """GateOperation.lifted_matrix(n) == independent embedding, every index tuple up to the bound"""
    n, idx = c.case
    g = custom_fixed(c.rng, c.np, len(idx))
    c.note(n=n, idx=idx)
    got = num(g(*idx).lifted_matrix(n))
    c.close(got, embed(num(g.matrix), idx, n), "lifted matrix")
    # the same through the sympy path (a gate with a free symbol)
    if len(idx) <= 2 and n <= 3:
        x = sympy.Symbol("x")
        b = builtin(["RX", "PHASE"][len(idx) % 2] if len(idx) == 1 else ["CPHASE", "XY"][n % 2], (x,))
        v = c.rng.uniform(-3, 3)
        m = b(*idx).lifted_matrix(n)
        m = sympy.Matrix(m).subs({x: v})
        c.close(num(m), embed(num(b.bind({x: v}).matrix), idx, n), "symbolic lifted matrix")


@contract("C01", n=4)
def long_circuits(c):
    """hundreds of operations on few qubits"""
    n = c.rng.randint(1, 2)
    ops = []
    while len(ops) < 150:
        ops += random_ops(c.rng, c.np, n, 6)
    circ = Circuit(ops, n_qubits=n)
    c.note(n=n, operations=len(ops))
    ref = circuit_matrix(ops, n)
    c.close(num(circ.to_unitary()), ref, "to_unitary", tol=1e-6)
    c.close(vec(SymbolicSimulator().get_wavefunction(circ).amplitudes), ref[:, 0], "bundled simulator", tol=1e-6)


@contract("C01", n=160)
def unitary_is_ordered_product(c):
    n = c.rng.randint(1, 5)
    ops = random_ops(c.rng, c.np, n, c.rng.randint(1, 6))
    explicit = c.rng.random() < 0.5
    circ = Circuit(ops, n_qubits=n) if explicit else Circuit(ops)
    width = n if explicit else max(q for o in ops for q in o.qubit_indices) + 1
    c.note(n=width, ops=ops_repr(ops))
    c.eq(circ.n_qubits, width, "register width")
    ref = circuit_matrix(ops, width)
    c.close(num(circ.to_unitary()), ref, "to_unitary")
    psi = random_state(c.np, width)
    st = psi
    for o in circ.operations:
        st = o.apply(st)
    c.close(vec(st), ref @ psi, "operation-wise application")
    sim = SymbolicSimulator()
    c.close(vec(sim.get_wavefunction(circ, psi).amplitudes), ref @ psi, "SymbolicSimulator, given initial state")
    e0 = np.zeros(2**width)
    e0[0] = 1
    c.close(vec(sim.get_wavefunction(circ).amplitudes), ref @ e0, "SymbolicSimulator, default initial state")


@contract("C01", n=40)
def symbolic_unitary(c):
    """free-symbol circuits (sympy / mixed paths) agree after substitution"""
    n = c.rng.randint(1, 3)
    syms = symbols(c.rng, 2)
    ops = random_ops(c.rng, c.np, n, c.rng.randint(1, 3), syms=syms, psym=0.7)
    circ = Circuit(ops, n_qubits=n)
    c.note(n=n, ops=ops_repr(ops))
    sub = substitution(c.rng, syms)
    bound = [o.gate.bind(sub)(*o.qubit_indices) if o.free_symbols else o for o in ops]
    ref = circuit_matrix(bound, n)
    u = circ.to_unitary()
    u = sympy.Matrix(u.tolist() if hasattr(u, "tolist") else u).subs(sub)
    c.close(num(u), ref, "symbolic to_unitary")
    # symbolic state application
    e = [0] * (2**n)
    e[c.rng.randrange(2**n)] = 1
    st = np.array(e, dtype=object if c.rng.random() < 0.5 else float)
    for o in ops:
        st = o.apply(st)
    st = [sympy.sympify(x).subs(sub) for x in np.asarray(st).reshape(-1)]
    c.close(vec(st), ref @ np.array(e), "symbolic application")


class _Sim(BaseWavefunctionSimulator):
    def __init__(self, native):
        super().__init__()
        self.native = native
        self.seen = []

    def is_natively_supported(self, operation):
        return self.native(operation)

    def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
        st = np.array(initial_state, dtype=complex)
        n = int(math.log2(len(st)))
        self.seen.append((circuit.n_qubits, n))
        for o in circuit.operations:
            if isinstance(o, MultiPhaseOperation):
                st = np.exp(1j * np.array([float(p) for p in o.params])) * st
            else:
                st = embed(num(o.gate.matrix), o.qubit_indices, n) @ st
        return st


@contract("C01", n=160)
def base_simulator_any_native_subset(c):
    n = c.rng.randint(1, 4)
    ops = random_ops(c.rng, c.np, n, c.rng.randint(0, 6))
    for _ in range(c.rng.choice([0, 0, 1, 2, 3])):
        ph = [angle(c.rng) for _ in range(2**n)]
        ops.insert(c.rng.randint(0, len(ops)), MultiPhaseOperation(tuple(ph)))
    flags = {id(o): c.rng.random() < 0.5 for o in ops}
    mode = c.rng.randrange(4)
    native = {
        0: lambda o: flags[id(o)],
        1: lambda o: isinstance(o, GateOperation),
        2: lambda o: True,
        3: lambda o: False,
    }[mode]
    circ = Circuit(ops, n_qubits=n)
    c.note(n=n, ops=[ops_repr([o])[0] if isinstance(o, GateOperation) else "MultiPhase" for o in ops],
           native=[bool(native(o)) for o in ops])
    psi = random_state(c.np, n)
    if n > 1 and c.rng.random() < 0.3:  # some amplitudes tiny
        psi = psi * c.np.choice([1.0, 1e-3, 1e-5, 0.0], size=2**n, p=[0.4, 0.2, 0.2, 0.2])
        psi[c.rng.randrange(2**n)] = 1
        psi = psi / np.linalg.norm(psi)
    use_default = c.rng.random() < 0.3
    if use_default:
        psi = np.zeros(2**n, dtype=complex)
        psi[0] = 1
    psi0 = psi.copy()
    ref = psi.copy()
    for o in ops:
        if isinstance(o, GateOperation):
            ref = embed(num(o.gate.matrix), o.qubit_indices, n) @ ref
        else:
            ref = np.exp(1j * np.array([float(p) for p in o.params])) * ref
    sim = _Sim(native)
    out = sim.get_wavefunction(circ) if use_default else sim.get_wavefunction(circ, psi)
    c.close(vec(out.amplitudes), ref, "base-class simulator final state")
    c.require(all(a == b for a, b in sim.seen), "native segment has a different register width", seen=sim.seen)
    c.close(psi, psi0, "initial state modified")
    out = SymbolicSimulator().get_wavefunction(circ, psi)
    c.close(vec(out.amplitudes), ref, "symbolic simulator with phase operations")


@contract("C01", n=150)
def concatenation(c):
    n1, n2 = c.rng.randint(1, 4), c.rng.randint(1, 4)
    o1 = random_ops(c.rng, c.np, n1, c.rng.randint(0, 3))
    o2 = random_ops(c.rng, c.np, n2, c.rng.randint(1, 3))
    c1 = Circuit(o1, n_qubits=n1) if c.rng.random() < 0.6 else Circuit(o1)
    c2 = Circuit(o2, n_qubits=n2) if c.rng.random() < 0.6 else Circuit(o2)
    c.note(a=ops_repr(o1), b=ops_repr(o2), n=(c1.n_qubits, c2.n_qubits))
    s = c1 + c2
    n = max(c1.n_qubits, c2.n_qubits)
    c.eq(s.n_qubits, n, "width of the sum")
    c.require(list(s.operations) == o1 + o2, "operations of the sum")
    c.close(num(s.to_unitary()), circuit_matrix(o2, n) @ circuit_matrix(o1, n), "sum composes actions")
    s = c1 + o2[0]
    n = max(c1.n_qubits, max(o2[0].qubit_indices) + 1)
    c.eq(s.n_qubits, n, "width after appending an operation")
    c.close(num(s.to_unitary()), circuit_matrix(o1 + o2[:1], n), "appending an operation")


@contract("C01", n=80)
def split_preserves_everything(c):
    n = c.rng.randint(1, 4)
    ops = random_ops(c.rng, c.np, n, c.rng.randint(0, 8), wrappers=False)
    flags = {id(o): c.rng.random() < 0.5 for o in ops}
    circ = Circuit(ops, n_qubits=n)
    c.note(ops=ops_repr(ops), flags=[flags[id(o)] for o in ops])
    parts = list(split_circuit(circ, lambda o: flags[id(o)]))
    c.require([o for _, p in parts for o in p.operations] == ops, "operations changed by split")
    c.require(all(p.n_qubits == n for _, p in parts), "width changed by split")
    c.require(all(flags[id(o)] == v for v, p in parts for o in p.operations), "wrong predicate value")


@contract("C01", enum=lambda tier: [1, 2, 3, 4])
def empty_circuit_is_identity(c):
    n = c.case
    circ = Circuit(n_qubits=n)
    c.note(n=n)
    psi = random_state(c.np, n)
    c.close(vec(SymbolicSimulator().get_wavefunction(circ, psi).amplitudes), psi, "empty circuit on a state")
    c.close(num(circ.to_unitary()), np.eye(2**n), "matrix of an empty circuit")

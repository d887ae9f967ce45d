import math

import numpy as np

from orquestra.quantum.api.wavefunction_simulator import BaseWavefunctionSimulator
from orquestra.quantum.circuits import Circuit, GateOperation, MultiPhaseOperation, X
from orquestra.quantum.distributions import (
    MeasurementOutcomeDistribution,
    create_bitstring_distribution_from_probability_distribution,
)
from orquestra.quantum.measurements import Measurements, check_parity, get_parities_from_measurements
from orquestra.quantum.operators import PauliSum, PauliTerm, get_expectation_value, get_sparse_operator
from orquestra.quantum.runners import SymbolicSimulator
from orquestra.quantum.wavefunction import Wavefunction, sample_from_wavefunction

from ..orc import *
from ..rtcore import contract


class _Native(BaseWavefunctionSimulator):
    """a simulator built on the base class; own linear algebra"""

    def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
        st = np.array(initial_state, dtype=complex)
        n = int(math.log2(len(st)))
        for o in circuit.operations:
            st = embed(num(o.gate.matrix), o.qubit_indices, n) @ st
        return st

    def is_natively_supported(self, operation):
        return isinstance(operation, GateOperation)


def simulator(c):
    return c.rng.choice([SymbolicSimulator, SymbolicSimulator, _Native])(seed=c.rng.choice([None, c.rng.randrange(1000)]))


def circuit(c, lo=1, hi=4):
    n = c.rng.randint(lo, hi)
    kind = c.rng.randrange(4)
    if kind == 0:  # basis state preparation: everything is deterministic
        ops = [X(q) for q in range(n) if c.rng.random() < 0.5]
    else:
        ops = random_ops(c.rng, c.np, n, c.rng.randint(0, 6))
        if c.rng.random() < 0.15:
            ops.insert(c.rng.randint(0, len(ops)), MultiPhaseOperation(tuple(c.rng.uniform(-3, 3) for _ in range(2**n))))
    return n, ops, Circuit(ops, n_qubits=n)


def reference(ops, n):
    v = np.zeros(2**n, dtype=complex)
    v[0] = 1
    for o in ops:
        if isinstance(o, GateOperation):
            v = embed(num(o.gate.matrix), o.qubit_indices, n) @ v
        else:
            v = np.exp(1j * np.array([float(p) for p in o.params])) * v
    return v


def bits(i, n):
    return tuple((i >> (n - 1 - q)) & 1 for q in range(n))


@contract("C04", n=240)
def views_agree(c):
    n, ops, circ = circuit(c)
    psi = reference(ops, n)
    p = np.abs(psi) ** 2
    c.note(n=n, ops=[ops_repr([o])[0] if isinstance(o, GateOperation) else "MultiPhase" for o in ops])
    sim = simulator(c)
    wf = sim.get_wavefunction(circ)
    c.close(vec(wf.amplitudes), psi, "state vector")
    d = sim.get_measurement_outcome_distribution(circ).distribution_dict
    c.eq(set(d), {bits(i, n) for i in range(2**n)} & set(d), "outcomes of the exact distribution have register width")
    c.close([d.get(bits(i, n), 0) for i in range(2**n)], p, "exact outcome distribution")
    op = random_sum(c.rng, n, m=c.rng.randint(1, 3), real=True)
    zop = random_sum(c.rng, n, m=c.rng.randint(1, 3), ising=True, real=True)
    c.note(op=op, zop=zop)
    c.close(sim.get_exact_expectation_values(circ, op), (psi.conj() @ op_matrix(op, n) @ psi).real, "exact expectation")
    avg = sum(d.get(b, 0) * sum(complex(t.coefficient).real * (-1) ** sum(b[q] for q in t._ops) for t in zop.terms)
              for b in d)
    c.close(sim.get_exact_expectation_values(circ, zop), avg, "Z-type expectation = average under the distribution")
    for m in (1, 2**n - 1, 2**n, 2**n + 1, 3 * 2**n + 5):
        if m < 1:
            continue
        meas = sim.run_and_measure(circ, m)
        c.eq(len(meas.bitstrings), m, "number of samples")
        for s in meas.bitstrings:
            c.require(isinstance(s, tuple) and len(s) == n, f"sample {s!r} has not register width")
            i = int("".join(map(str, s)), 2) if n else 0
            c.require(p[i] > 1e-14, f"sampled outcome {s} has zero probability ({m} samples)")
        for k in meas.get_counts():
            i = int(k, 2)
            c.require(len(k) == n and p[i] > 1e-14, f"count string {k} has zero probability")
        ev = meas.get_expectation_values(zop)
        want = [complex(t.coefficient) * np.mean([(-1) ** sum(s[q] for q in t._ops) for s in meas.bitstrings])
                for t in zop.terms]
        c.close(ev.values, want, "expectation from measurements uses tuple positions")
        par = get_parities_from_measurements(meas.bitstrings, zop)
        c.close([int(x[0]) for x in par.values], [sum(sum(s[q] for q in t._ops) % 2 == 0 for s in meas.bitstrings) for t in zop.terms], "parities")


@contract("C04", n=60)
def sampling_frequencies(c):
    """many samples approximate the exact distribution (12-sigma bound: no false alarm)"""
    n, ops, circ = circuit(c, 2, 3)
    p = np.abs(reference(ops, n)) ** 2
    c.note(n=n, ops=[ops_repr([o])[0] if isinstance(o, GateOperation) else "MultiPhase" for o in ops])
    N = 20000
    meas = simulator(c).run_and_measure(circ, N)
    cnt = meas.get_counts()
    for i in range(2**n):
        k = "".join(map(str, bits(i, n)))
        sd = math.sqrt(max(N * p[i] * (1 - p[i]), 1))
        c.require(abs(cnt.get(k, 0) - N * p[i]) <= 12 * sd, f"frequency of {k}: {cnt.get(k, 0)} instead of about {N * p[i]:.0f}")
    emp = meas.get_distribution().distribution_dict
    for b, v in emp.items():
        c.close(v, cnt["".join(map(str, b))] / N, "empirical distribution")


@contract("C04", enum=lambda t: [(n, i) for n in range(1, 5) for i in range(2**n)] + [(5, 11), (6, 37), (7, 5)])
def basis_states(c):
    """exhaustive over computational basis states: every view names the same qubit"""
    n, i = c.case
    b = bits(i, n)
    circ = Circuit([X(q) for q in range(n) if b[q]], n_qubits=n)
    c.note(b=b)
    sim = simulator(c)
    e = np.zeros(2**n)
    e[i] = 1
    c.close(vec(sim.get_wavefunction(circ).amplitudes), e, "state vector")
    for m in (1, 2**n, 2**n + 1, 100):
        c.eq(set(sim.run_and_measure(circ, m).bitstrings), {b}, f"samples ({m})")
        c.eq(sim.run_and_measure(circ, m).get_counts(), {"".join(map(str, b)): m}, "counts")
        c.eq({k: v for k, v in sim.get_measurement_outcome_distribution(circ, m).distribution_dict.items() if v}, {b: 1.0}, "empirical")
    c.eq([k for k, v in sim.get_measurement_outcome_distribution(circ).distribution_dict.items() if v > 0.5], [b], "exact")
    for q in range(n):
        z = PauliTerm({q: "Z"}, 1.0)
        c.close(sim.get_exact_expectation_values(circ, z), 1 - 2 * b[q], f"<Z{q}>")
        c.close(sim.run_and_measure(circ, 3).get_expectation_values(PauliSum([z])).values, [1 - 2 * b[q]], f"measured <Z{q}>")
        c.eq(bool(check_parity(b, [q])), b[q] == 0, "check_parity")
    k = "".join(map(str, b))
    c.eq(Measurements.from_counts({k: 2}).bitstrings, [b, b], "counts to tuples")
    c.eq(Wavefunction(e).get_outcome_probs()[k[::-1]], 1.0, "outcome probabilities (little-endian keys)")
    c.eq(create_bitstring_distribution_from_probability_distribution(e).distribution_dict[b], 1.0, "distribution")
    c.eq(set(sample_from_wavefunction(Wavefunction(e), 2, seed=1)), {b}, "sample_from_wavefunction")


@contract("C04", enum=lambda t: [0, 1])
def no_qubits(c):
    circ = Circuit(n_qubits=0)
    sim = SymbolicSimulator(seed=3)
    c.note(case=c.case)
    for m in (1, 2, 5):
        c.eq(sim.run_and_measure(circ, m).bitstrings, [()] * m, "samples of an empty register")


@contract("C04", n=150)
def operators_on_states(c):
    n = c.rng.randint(1, 4)
    psi = random_state(c.np, n)
    op = random_sum(c.rng, n, m=c.rng.randint(1, 3), real=True)
    c.note(n=n, op=op)
    c.close(get_expectation_value(op, Wavefunction(psi)).real, (psi.conj() @ op_matrix(op, n) @ psi).real, "expectation")
    z = random_term(c.rng, n, ising=True, real=True)
    p = np.abs(psi) ** 2
    want = sum(p[i] * z.coefficient * (-1) ** sum(bits(i, n)[q] for q in z._ops) for i in range(2**n))
    c.close(get_expectation_value(z, Wavefunction(psi)), want, "Z expectation")
    dist = create_bitstring_distribution_from_probability_distribution(p).distribution_dict
    c.close([dist.get(bits(i, n), 0) for i in range(2**n)], p, "distribution from probabilities")

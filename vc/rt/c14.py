import json
import math
import os
import shutil
import tempfile

import numpy as np

from orquestra.quantum.api.circuit_runner import BaseCircuitRunner
from orquestra.quantum.api.wavefunction_simulator import BaseWavefunctionSimulator
from orquestra.quantum.circuits import Circuit, CNOT, GateOperation, H, MultiPhaseOperation, RX, X, circuit_from_dict, to_dict
from orquestra.quantum.measurements import Measurements
from orquestra.quantum.operators import PauliTerm
from orquestra.quantum.runners import SymbolicSimulator
from orquestra.quantum.runners.trackers import MeasurementTrackingBackend

from ..orc import *
from ..rtcore import contract


class Boom(Exception):
    pass


class Plain(BaseCircuitRunner):
    """runner implementing only the mandatory method; keeps a ghost log of what it executed"""

    def __init__(self, rng, fail_at=None):
        super().__init__()
        self.rng, self.fail_at, self.log = rng, fail_at, []
        self.attempts = 0

    def _run_and_measure(self, circuit, n_samples):
        self.attempts += 1
        if self.fail_at is not None and self.attempts == self.fail_at:
            raise Boom()
        self.log.append((circuit, n_samples))
        extra = self.rng.choice([0, 0, 1, 3])
        return Measurements([tuple(self.rng.randrange(2) for _ in range(circuit.n_qubits)) for _ in range(n_samples + extra)])


class Native(BaseWavefunctionSimulator):
    def __init__(self, native, fail_at=None, seed=None):
        super().__init__(seed=seed)
        self.native, self.fail_at, self.log, self.attempts = native, fail_at, [], 0

    def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
        self.attempts += 1
        if self.fail_at is not None and self.attempts == self.fail_at:
            raise Boom()
        self.log.append(circuit)
        st = np.array(initial_state, dtype=complex)
        n = int(math.log2(len(st)))
        for o in circuit.operations:
            st = embed(num(o.gate.matrix), o.qubit_indices, n) @ st
        return st

    def is_natively_supported(self, op):
        return self.native(op)


def small_circuit(c, phases=False):
    n = c.rng.randint(1, 3)
    ops = random_ops(c.rng, c.np, n, c.rng.randint(0, 3), wrappers=False, custom=False)
    if phases and c.rng.random() < 0.4:
        ops.insert(c.rng.randint(0, len(ops)), MultiPhaseOperation(tuple(c.rng.uniform(-3, 3) for _ in range(2**n))))
    return Circuit(ops, n_qubits=n + c.rng.choice([0, 0, 1]) if not phases else n)


def bad_batch(c, k):
    kind = c.rng.randrange(5)
    good = [c.rng.randint(1, 5) for _ in range(k)]
    if kind == 0:
        return c.rng.choice([0, -1, -7])
    if kind == 1 and k:
        good[c.rng.randrange(k)] = c.rng.choice([0, -1, -3])
        return c.rng.choice([list, tuple])(good)
    if kind == 2:
        return good + [c.rng.randint(1, 4)]
    if kind == 3 and k:
        return good[:-1]
    if k:
        good[-1] = 0
        return good
    return [3]


def good_batch(c, k):
    if c.rng.random() < 0.4:
        return c.rng.randint(1, 6)
    return c.rng.choice([list, tuple])([c.rng.randint(1, 6) for _ in range(k)])


def per_circuit(n, k):
    return [n] * k if isinstance(n, int) else list(n)


def check_result(c, circ, n, meas):
    c.require(len(meas.bitstrings) >= n, f"{len(meas.bitstrings)} shots for a request of {n}")
    c.require(all(len(b) == circ.n_qubits for b in meas.bitstrings), "bitstring length is not the register width")


@contract("C14", n=300)
def base_runner_histories(c):
    r = Plain(c.rng)
    circs = jobs = 0
    hist = []
    for _ in range(c.rng.randint(1, 8)):
        before = (r.n_circuits_executed, r.n_jobs_executed, len(r.log))
        c.eq(before[:2], (circs, jobs), "counters")
        act = c.rng.choice(["run", "badrun", "batch", "badbatch", "dist", "baddist", "fail"])
        hist.append(act)
        c.note(history=hist)
        k = c.rng.randint(0, 4)
        batch = c.rng.choice([list, tuple])([small_circuit(c) for _ in range(k)])
        circ = small_circuit(c)
        if act == "run":
            n = c.rng.randint(1, 9)
            m = r.run_and_measure(circ, n)
            check_result(c, circ, n, m)
            circs, jobs = circs + 1, jobs + 1
            c.eq(r.log[before[2]:], [(circ, n)], "executed exactly the request")
        elif act == "badrun":
            n = c.rng.choice([0, -1, -100])
            c.raises(ValueError, lambda: r.run_and_measure(circ, n))
            c.eq(len(r.log), before[2], "nothing is executed by a rejected call")
        elif act == "batch":
            n = good_batch(c, k)
            res = r.run_batch_and_measure(batch, n)
            c.eq(len(res), k, "one result per circuit")
            for ci, ni, m in zip(batch, per_circuit(n, k), res):
                check_result(c, ci, ni, m)
            c.eq([x for x, _ in r.log[before[2]:]], list(batch), "circuits executed in order")
            circs, jobs = circs + k, jobs + k
        elif act == "badbatch":
            n = bad_batch(c, k)
            c.note(bad=n, k=k)
            c.raises(ValueError, lambda: r.run_batch_and_measure(batch, n))
            c.eq(len(r.log), before[2], "nothing is executed by a rejected call")
        elif act == "dist":
            n = c.rng.randint(1, 9)
            d = r.get_measurement_outcome_distribution(circ, n)
            c.require(all(len(x) == circ.n_qubits for x in d.distribution_dict), "outcome length")
            circs, jobs = circs + 1, jobs + 1
        elif act == "baddist":
            n = c.rng.choice([0, -1, None])
            c.raises(ValueError, lambda: r.get_measurement_outcome_distribution(circ, n))
            c.eq(len(r.log), before[2], "nothing is executed by a rejected call")
        else:
            r.fail_at = r.attempts + c.rng.randint(1, 3)
            try:
                r.run_batch_and_measure(batch, 2)
            except Boom:
                pass
            r.fail_at = None
            ran = len(r.log) - before[2]
            circs, jobs = circs + ran, jobs + ran
    c.eq((r.n_circuits_executed, r.n_jobs_executed), (circs, jobs), "counters")


def segments(ops, native):
    out = []
    for o in ops:
        v = native(o)
        if not out or out[-1] != v:
            out.append(v)
    return out


@contract("C14", n=250)
def simulator_histories(c):
    """ghost count: a job per executed segment, a circuit per natively executed segment"""
    mode = c.rng.randrange(4)
    native = [lambda o: True, lambda o: isinstance(o, GateOperation),
              lambda o: isinstance(o, GateOperation) and len(o.qubit_indices) == 1,
              lambda o: isinstance(o, GateOperation) and o.qubit_indices[0] == 0][mode]
    symbolic = mode == 0
    r = SymbolicSimulator(seed=c.rng.choice([None, 1])) if symbolic else Native(native, seed=c.rng.choice([None, 5]))
    circs = jobs = 0
    hist = []
    ran = lambda ci: (sum(segments(ci.operations, native)), len(segments(ci.operations, native)))
    for _ in range(c.rng.randint(1, 7)):
        c.eq((r.n_circuits_executed, r.n_jobs_executed), (circs, jobs), "counters")
        act = c.rng.choice(["run", "badrun", "batch", "badbatch", "wf", "exact", "dist", "distn", "baddist", "free", "fail"])
        hist.append(act)
        c.note(history=hist, mode=mode)
        k = c.rng.randint(0, 3)
        batch = [small_circuit(c, True) for _ in range(k)]
        circ = small_circuit(c, True)
        log = len(getattr(r, "log", []))
        delta = (0, 0)
        if act == "run":
            n = c.rng.choice([1, 2, 9, 20])
            check_result(c, circ, n, r.run_and_measure(circ, n))
            delta = ran(circ)
        elif act == "badrun":
            c.raises(ValueError, lambda: r.run_and_measure(circ, c.rng.choice([0, -1])))
        elif act == "batch":
            n = good_batch(c, k)
            res = r.run_batch_and_measure(batch, n)
            c.eq(len(res), k, "one result per circuit")
            for ci, ni, m in zip(batch, per_circuit(n, k), res):
                check_result(c, ci, ni, m)
                delta = (delta[0] + ran(ci)[0], delta[1] + ran(ci)[1])
        elif act == "badbatch":
            n = bad_batch(c, k)
            c.raises(ValueError, lambda: r.run_batch_and_measure(batch, n))
        elif act == "wf":
            c.eq(len(r.get_wavefunction(circ)), 2**circ.n_qubits)
            delta = ran(circ)
        elif act == "exact":
            r.get_exact_expectation_values(circ, PauliTerm({0: "Z"}, 0.5))
            delta = ran(circ)
        elif act == "dist":
            r.get_measurement_outcome_distribution(circ)
            delta = ran(circ)
        elif act == "distn":
            r.get_measurement_outcome_distribution(circ, 4)
            delta = ran(circ)
        elif act == "baddist":
            c.raises(ValueError, lambda: r.get_measurement_outcome_distribution(circ, c.rng.choice([0, -2])))
        elif act == "free":
            fc = Circuit([H(0), RX(sympy.Symbol("theta"))(0)])
            c.raises(ValueError, lambda: r.run_and_measure(fc, 3), "sampling with unbound symbols")
        elif not symbolic:
            r.fail_at = r.attempts + 1
            seg = segments(circ.operations, native)
            try:
                r.get_wavefunction(circ)
                delta = ran(circ)
            except Boom:
                delta = (0, seg.index(True))
            r.fail_at = None
        circs, jobs = circs + delta[0], jobs + delta[1]
        if act.startswith("bad") or act == "free":
            c.eq(len(getattr(r, "log", [])), log, "nothing is executed by a rejected call")
    c.eq((r.n_circuits_executed, r.n_jobs_executed), (circs, jobs), "counters")


class Recording:
    """wrapped runner that remembers what it returned"""

    def __init__(self, inner):
        self.inner, self.returned = inner, []

    def run_and_measure(self, circuit, n_samples):
        self.returned.append(self.inner.run_and_measure(circuit, n_samples))
        return self.returned[-1]

    def run_batch_and_measure(self, circuits, n_samples):
        self.returned.append(self.inner.run_batch_and_measure(circuits, n_samples))
        return self.returned[-1]

    def get_measurement_outcome_distribution(self, circuit, n_samples):
        self.returned.append(self.inner.get_measurement_outcome_distribution(circuit, n_samples))
        return self.returned[-1]


@contract("C14", n=200)
def tracker_histories(c):
    d = tempfile.mkdtemp(prefix="vc14")
    try:
        path = os.path.join(d, "raw.json")
        inner = Plain(c.rng) if c.rng.random() < 0.7 else SymbolicSimulator()
        rec = Recording(inner)
        bits = c.rng.random() < 0.5
        t = MeasurementTrackingBackend(rec, path, record_bitstrings=bits)
        circs = jobs = 0
        hist = []
        for _ in range(c.rng.randint(1, 5)):
            c.eq((t.n_circuits_executed, t.n_jobs_executed), (circs, jobs), "counters of the wrapper")
            act = c.rng.choice(["run", "badrun", "batch", "badbatch", "dist", "baddist"])
            hist.append(act)
            c.note(history=hist, bits=bits)
            k = c.rng.randint(1, 3)
            batch = [small_circuit(c) for _ in range(k)]
            circ = small_circuit(c)
            nret = len(rec.returned)
            want = None
            if act == "run":
                got = t.run_and_measure(circ, c.rng.randint(1, 6))
                c.require(got is rec.returned[-1] or got.bitstrings == rec.returned[-1].bitstrings, "returns what the runner returned")
                want = [(circ, got)]
                circs, jobs = circs + 1, jobs + 1
            elif act == "batch":
                got = t.run_batch_and_measure(batch, good_batch(c, k))
                c.eq([m.bitstrings for m in got], [m.bitstrings for m in rec.returned[-1]], "returns what the runner returned")
                c.eq(len(got), k, "one result per circuit")
                want = list(zip(batch, got))
                circs, jobs = circs + k, jobs + 1
            elif act == "dist":
                n = c.rng.randint(1, 6)
                got = t.get_measurement_outcome_distribution(circ, n)
                c.eq(got.distribution_dict, rec.returned[-1].distribution_dict, "returns what the runner returned")
                data = json.load(open(path))["raw-data"]
                c.eq(len(data), 1, "records")
                c.eq(data[0]["distribution"], repr(got), "recorded distribution")
                c.eq(data[0]["number_of_shots"], n, "recorded shots")
                c.eq(circuit_from_dict(data[0]["circuit"]), circ, "recorded circuit")
                circs, jobs = circs + 1, jobs + 1
            elif act == "badrun":
                c.raises(ValueError, lambda: t.run_and_measure(circ, c.rng.choice([0, -1])))
            elif act == "badbatch":
                n = bad_batch(c, k)
                c.raises(ValueError, lambda: t.run_batch_and_measure(batch, n))
            else:
                c.raises(ValueError, lambda: t.get_measurement_outcome_distribution(circ, c.rng.choice([0, -1])))
            if want is not None:
                data = json.load(open(path))["raw-data"]
                c.eq(len(data), len(want), "one record per circuit")
                for row, (ci, m) in zip(data, want):
                    c.eq(row["counts"], m.get_counts(), "recorded counts")
                    c.eq(row["number_of_shots"], len(m.bitstrings), "recorded number of shots")
                    c.eq(sum(row["counts"].values()), row["number_of_shots"], "recorded counts sum")
                    c.eq(row["number_of_gates"], len(ci.operations), "recorded number of gates")
                    c.eq(row["circuit"], json.loads(json.dumps(to_dict(ci))), "serialised circuit")
                    c.eq(circuit_from_dict(row["circuit"]).n_qubits, ci.n_qubits, "recorded circuit width")
                    if bits:
                        c.eq([tuple(b) for b in row["bitstrings"]], list(m.bitstrings), "recorded bitstrings")
                    else:
                        c.require("bitstrings" not in row, "bitstrings recorded although not requested")
            if act.startswith("bad"):
                c.eq(len(rec.returned), nret, "nothing is executed by a rejected call")
        c.eq((t.n_circuits_executed, t.n_jobs_executed), (circs, jobs), "counters of the wrapper")
    finally:
        shutil.rmtree(d, ignore_errors=True)

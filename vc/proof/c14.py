"""C14: validation, results and counters of runners.

A runner built on the base class is any object whose `_run_and_measure` follows its contract: it either raises or returns the
measurements of that circuit.  The ghost list `log` of the runner tells what it executed, in order."""
from vc.pyvc.driver import *
from vc.pyvc.driver import V, z3
from vc.pyvc import count
from orquestra.quantum.api.circuit_runner import BaseCircuitRunner
from orquestra.quantum.measurements import Measurements

Zi, B = z3.IntSort(), z3.BoolSort()


class Boom(Exception):
    """any error of the underlying service"""


class Circ(Abs):
    """a circuit"""


class Shots(Abs):
    """the measurements obtained for a circuit and a number of samples"""

    def get_distribution(self):
        return Abs("distribution of", *self.key)


class Plain(BaseCircuitRunner):
    __module__ = "orquestra.assumed"

    def _run_and_measure(self, circuit, n_samples):
        raise NotImplementedError


def fails(c):
    return z3.Function("fails", Zi, B)(c.key[-1])


def setup(cx):
    def run(I, self, circuit, n_samples):
        cx.prove(n_samples > 0, "the underlying runner is only asked for a positive number of samples")
        if I.truth(mkbool(fails(circuit))):
            raise Boom()
        I.call(I.getattr(I.getattr(self, "log"), "append"), [(circuit, n_samples)])
        return Shots("shots", circuit.key[-1], toint(n_samples))

    cx.contract(Plain._run_and_measure, run)


def runner(cx, cls=Plain, *args):
    """a runner after any number of earlier calls"""
    r = cx.call(cls, *args)
    cx.c0, cx.j0 = cx.int("circuits_before", 0), cx.int("jobs_before", 0)
    r._n_circuits_executed, r._n_jobs_executed = cx.c0, cx.j0
    r.log = cx.list()
    return r


def counters(cx, r, dc, dj, label):
    cx.prove(SBool(toint(cx.get(r, "n_circuits_executed")) == cx.c0.t + toint(dc)), f"circuits executed: {label}")
    cx.prove(SBool(toint(cx.get(r, "n_jobs_executed")) == cx.j0.t + toint(dj)), f"jobs executed: {label}")


def log(cx, r, *xs, segs=None):
    cx.same(r.log, PyList(segs) if segs is not None else cx.list(*xs), "exactly this was executed")


@obligation("C14")
def fresh(cx):
    """a new runner has executed nothing"""
    r = cx.call(Plain)
    cx.prove(cx.get(r, "n_circuits_executed") == 0 and cx.get(r, "n_jobs_executed") == 0, "counters start at 0")


@obligation("C14")
def single(cx):
    """run_and_measure: rejected requests execute and count nothing; a failing run counts nothing; a successful one returns the
    measurements and counts one circuit and one job"""
    setup(cx)
    r = runner(cx)
    c, n = Circ("c", z3.Int("j")), cx.int("n")
    kind, v = cx.attempt(r.run_and_measure, c, n)
    if kind == "exc" and isinstance(v, ValueError):
        cx.prove(n <= 0, "only non-positive requests are rejected")
        counters(cx, r, 0, 0, "rejected")
        log(cx, r)
    elif kind == "exc":
        cx.prove(isinstance(v, Boom), "the error of the service")
        cx.prove(SBool(z3.And(fails(c), n.t > 0)), "error only when the service fails")
        counters(cx, r, 0, 0, "failed")
        log(cx, r)
    else:
        cx.prove(n > 0, "no result without a positive request")
        cx.same(v, Shots("shots", c.key[-1], n.t), "measurements of the circuit")
        counters(cx, r, 1, 1, "one run")
        log(cx, r, (c, n))


def batch(cx):
    setup(cx)
    r = runner(cx)
    N = cx.int("N", 0)
    cs = cx.objs(Circ, N, "c")
    cx.freeze(cs)
    return r, N, cs


def batch_result(cx, r, N, kind, v, ns):
    """outcome of an accepted batch: the j-th circuit with ns(j) samples"""
    j = V.index_var("j")
    run = lambda n: (Fam(n, j, (Circ("c", j), SInt(ns(j)))),)
    if kind == "exc":
        cx.prove(isinstance(v, Boom), "the error of the service")
        k = cx.len(r.log)
        cx.prove(SBool(toint(k) < N.t), "a circuit failed")
        cx.prove(SBool(fails(Circ("c", toint(k)))), "the first circuit not executed is the one that failed")
        log(cx, r, segs=run(toint(k)))
        counters(cx, r, k, k, "those that ran")
    else:
        cx.same(v, PyList((Fam(N.t, j, Shots("shots", j, ns(j))),)), "one result per circuit, in order")
        log(cx, r, segs=run(N.t))
        counters(cx, r, N, N, "every circuit")


@obligation("C14")
def batch_int(cx):
    """run_batch_and_measure with one number of samples for all circuits"""
    r, N, cs = batch(cx)
    n = cx.int("n")
    kind, v = cx.attempt(r.run_batch_and_measure, cs, n)
    if kind == "exc" and isinstance(v, ValueError):
        cx.prove(n <= 0, "only non-positive requests are rejected")
        counters(cx, r, 0, 0, "rejected")
        log(cx, r)
        return
    cx.prove(n > 0, "non-positive requests are rejected")
    batch_result(cx, r, N, kind, v, lambda j: n.t)


@obligation("C14")
def batch_list(cx):
    """run_batch_and_measure with a number of samples per circuit"""
    r, N, cs = batch(cx)
    M = cx.int("M", 0)
    ns = cx.ints("ns", M)
    f = z3.Function("ns", Zi, Zi)
    cx.freeze(ns)
    kind, v = cx.attempt(r.run_batch_and_measure, cs, ns)
    if kind == "exc" and isinstance(v, ValueError):
        counters(cx, r, 0, 0, "rejected")
        log(cx, r)
        cx.forall(M, lambda j: SBool(f(j.t) > 0))
        cx.assume(N == M)
        cx.prove(False, "requests of the right length with positive entries are accepted")
    cx.prove(N == M, "lists of the wrong length are rejected")
    cx.each(M, lambda j: SBool(f(j.t) > 0), "lists with non-positive entries are rejected")
    batch_result(cx, r, N, kind, v, lambda j: f(j))


@obligation("C14")
def distribution(cx):
    """get_measurement_outcome_distribution of a base-class runner: requires a positive number of samples; returns the
    distribution of the measurements of one run"""
    setup(cx)
    r = runner(cx)
    c = Circ("c", z3.Int("j"))
    if cx.pick(2):
        cx.raises(ValueError, r.get_measurement_outcome_distribution, c, None)
        counters(cx, r, 0, 0, "rejected")
        log(cx, r)
        return
    n = cx.int("n")
    kind, v = cx.attempt(r.get_measurement_outcome_distribution, c, n)
    if kind == "ok":
        cx.prove(n > 0, "no result without a positive request")
        cx.same(v, Abs("distribution of", "shots", c.key[-1], n.t), "distribution of the measurements")
        counters(cx, r, 1, 1, "one run")
        log(cx, r, (c, n))
    else:
        cx.prove(isinstance(v, (ValueError, Boom)), "rejection or service error")
        cx.prove(SBool(z3.Or(n.t <= 0, fails(c))), "for a reason")
        counters(cx, r, 0, 0, "not executed")
        log(cx, r)


# ------------------------------------------------------------------ simulators
# the split of a circuit into maximal runs of native / other operations: contract of itertools.groupby (see C01)
from vc.proof import c01  # noqa: E402
from orquestra.quantum.api import wavefunction_simulator as ws  # noqa: E402
from orquestra.quantum.circuits import _circuit  # noqa: E402
from orquestra.quantum.runners import symbolic_simulator as ss  # noqa: E402


def simulator(cx):
    """any simulator on the base class, after any number of earlier calls; the native service may fail on any segment"""
    c01.setup(cx)
    L, n = cx.int("L", 0), cx.int("n", 1)
    c01.native_models(cx)
    native = cx.I.contracts[ss.SymbolicSimulator._get_wavefunction_from_native_circuit]
    bad = z3.Function("seg_fails", Zi, B)

    def run(I, sim, sub, state):
        r = native(I, sim, sub, state)
        segs = V.norm_segs(I.iter_segs(I.getattr(sub, "operations")))
        first = V.inst(segs[0], z3.IntVal(0)) if isinstance(segs[0], Fam) else segs[0].v
        if I.truth(mkbool(bad(first.key[0]))):
            raise Boom()
        return r

    cx.contract(ss.SymbolicSimulator._get_wavefunction_from_native_circuit, run)
    v = V.index_var("o")
    c = cx.call(_circuit.Circuit, PyList((Fam(L.t, v, c01.Op(v)),)), n)
    cx.freeze(c)
    cx.contract(ws.Wavefunction, lambda I, w: c01.Final(w))
    free = cx.int("free", 0)
    o = V.index_var("o")
    cx.contract(_circuit.Circuit.free_symbols.fget, lambda I, self: PyList((Fam(free.t, o, Abs("symbol", o)),)))
    sim = runner(cx, ss.SymbolicSimulator)
    cx.L, cx.n, cx.free, cx.bad = L, n, free, bad
    return sim, c


def segments(cx, sim, k, label):
    """k segments were run"""
    K = z3.Function("groupkey", Zi, B)
    g = V.index_var("g")
    counters(cx, sim, V.sum_term(toint(k), g, z3.If(K(g), z3.IntVal(1), z3.IntVal(0))), toint(k), label)


def after(cx, sim, kind, v):
    """counters after an evaluation of the wavefunction"""
    G = z3.Int("groups")
    if kind == "ok":
        segments(cx, sim, z3.If(cx.L.t > 0, G, z3.IntVal(0)), "one job per segment, one circuit per native segment")
        return
    cx.prove(isinstance(v, Boom), "the error of the service")
    K, S = z3.Function("groupkey", Zi, B), z3.Function("start", Zi, Zi)
    k = toint(cx.get(sim, "n_jobs_executed")) - cx.j0.t
    cx.e.reg_index(k)
    cx.prove(SBool(z3.And(k >= 0, k < G)), "some segment was not run")
    cx.prove(SBool(z3.And(K(k), cx.bad(S(k)))), "the segment that failed is the first not counted")
    segments(cx, sim, k, "the segments before the failing one")


@obligation("C14")
def simulator_state(cx):
    """get_wavefunction counts one job per maximal native / other segment and one circuit per native segment, and counts only
    what has run when the service fails"""
    sim, c = simulator(cx)
    kind, v = cx.attempt(sim.get_wavefunction, c)
    after(cx, sim, kind, v)


class SamplerShots(Abs):
    """a sampled bitstring of the register"""


def samples(cx):
    def model(I, w, n, seed=None):
        if not isinstance(w, c01.Final):
            raise Unsupported("sampling from something else")
        cx.prove(n >= 1, "at least one sample is requested")
        i, q = V.index_var("i"), V.index_var("q")
        b = z3.Function("outcome", Zi, Zi, Zi)
        return PyList((Fam(toint(n), i, PyTuple((Fam(cx.n.t, q, SInt(b(i, q))),))),))

    cx.contract(ws.sample_from_wavefunction, model)


@obligation("C14")
def simulator_run(cx):
    """run_and_measure of a simulator: non-positive requests and circuits with unbound symbols are rejected before anything is
    run; otherwise as many shots as requested, as wide as the register"""
    sim, c = simulator(cx)
    samples(cx)
    n = cx.int("shots")
    kind, v = cx.attempt(sim.run_and_measure, c, n)
    if kind == "exc" and isinstance(v, ValueError):
        cx.prove(SBool(z3.Or(n.t <= 0, cx.free.t > 0)), "rejected for a reason")
        counters(cx, sim, 0, 0, "rejected")
        return
    cx.prove(SBool(z3.And(n.t > 0, cx.free.t == 0)), "bad requests are rejected")
    after(cx, sim, kind, v)
    if kind == "ok":
        width_and_number(cx, v, n)


def width_and_number(cx, v, n):
    bs = cx.get(v, "bitstrings")
    cx.prove(cx.len(bs) >= n, "at least the requested number of shots")
    (f,) = V.norm_segs(V.segs_of(bs))
    cx.prove(cx.len(f.val) == cx.n, "bitstrings as long as the register")


@obligation("C14")
def simulator_distribution(cx):
    """get_measurement_outcome_distribution of a simulator: exact without a number of samples, otherwise rejected like
    run_and_measure"""
    sim, c = simulator(cx)
    samples(cx)
    if cx.pick(2):
        cx.contract(ws.create_bitstring_distribution_from_probability_distribution, lambda I, p: Abs("exact distribution"))
        kind, v = cx.attempt(sim.get_measurement_outcome_distribution, c, None)
        after(cx, sim, kind, v)
        if kind == "ok":
            cx.same(v, Abs("exact distribution"), "exact distribution of the state")
        return
    n = cx.int("shots")
    cx.contract(Measurements.get_distribution, lambda I, m: Abs("distribution of"))
    kind, v = cx.attempt(sim.get_measurement_outcome_distribution, c, n)
    if kind == "exc" and isinstance(v, ValueError):
        cx.prove(SBool(z3.Or(n.t <= 0, cx.free.t > 0)), "rejected for a reason")
        counters(cx, sim, 0, 0, "rejected")
        return
    after(cx, sim, kind, v)


@obligation("C14")
def simulator_batch(cx):
    """run_batch_and_measure of a simulator: over the contract of its run_and_measure (simulator_run) one result per circuit,
    in order; bad requests run nothing"""
    N, n = cx.int("N", 0), cx.int("n")
    r = runner(cx, ss.SymbolicSimulator)
    cs = cx.objs(Circ, N, "c")
    cx.freeze(cs)

    def run(I, self, circuit, k):
        I.call(I.getattr(I.getattr(self, "log"), "append"), [(circuit, k)])
        return Shots("shots", circuit.key[-1], toint(k))

    cx.contract(ss.SymbolicSimulator.run_and_measure, run)
    ints = cx.pick(2)
    M = N if ints else cx.int("M", 0)
    ns = n if ints else cx.ints("ns", M)
    f = z3.Function("ns", Zi, Zi)
    kind, v = cx.attempt(r.run_batch_and_measure, cs, ns)
    j = V.index_var("j")
    if kind == "exc":
        cx.prove(isinstance(v, ValueError), "ValueError")
        counters(cx, r, 0, 0, "rejected")
        log(cx, r)
        return
    if ints:
        cx.prove(n > 0, "non-positive requests are rejected")
    else:
        cx.prove(N == M, "lists of the wrong length are rejected")
        cx.each(M, lambda j: SBool(f(j.t) > 0), "lists with non-positive entries are rejected")
    k = n.t if ints else f(j)
    cx.same(v, PyList((Fam(N.t, j, Shots("shots", j, k)),)), "one result per circuit, in order")
    log(cx, r, segs=(Fam(N.t, j, (Circ("c", j), SInt(k))),))


# ------------------------------------------------------------------ tracking wrapper
import json  # noqa: E402

from orquestra.quantum.runners import trackers  # noqa: E402


class Tracked(Abs):
    """a circuit with a number of operations"""

    @property
    def operations(self):
        n = z3.Function("n_ops", Zi, Zi)(self.key[-1])
        o = V.index_var("o")
        return PyList((Fam(n, o, Abs("op", self.key[-1], o)),))


class Result(Abs):
    """measurements returned by the wrapped runner: key = (circuit, samples)"""

    def get_counts(self):
        return Abs("counts", *self.key)

    @property
    def bitstrings(self):
        i, q = V.index_var("i"), V.index_var("q")
        ns = z3.Function("n_shots", Zi, Zi)(self.key[-2])
        w = z3.Function("width", Zi, Zi)(self.key[-2])
        b = z3.Function("outcome", Zi, Zi, Zi, Zi)
        return PyList((Fam(ns, i, PyTuple((Fam(w, q, SInt(b(self.key[-2], i, q))),))),))


class GhostFile:
    """a text file opened for writing; the ghost disk keeps what was written"""

    __pyvc_value__ = True

    def __init__(self, disk, name):
        self.disk, self.name = disk, name
        disk[name] = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __pyvc_getattr__(self, I, name):
        if name == "write":
            return count._Call(lambda I, text: self.disk[self.name].append(text))
        raise Unsupported(f"file.{name}")


class Inner(Abs):
    """the wrapped runner: rejects bad requests, may fail, otherwise measures"""

    I = None

    def run_and_measure(self, circuit, n):
        e = self.I.e
        if e.choose(toint(n) <= 0):
            raise ValueError("rejected")
        if e.choose(z3.Bool("inner_fails")):
            raise Boom()
        return Result("m", circuit.key[-1], toint(n))

    def run_batch_and_measure(self, circuits, n):
        e = self.I.e
        if e.choose(z3.Bool("inner_rejects")):
            raise ValueError("rejected")
        if e.choose(z3.Bool("inner_fails")):
            raise Boom()
        (f,) = V.norm_segs(self.I.iter_segs(circuits)) or (None,)
        if f is None:
            return PyList(())
        return PyList((Fam(f.n, f.var, Result("m", f.val.key[-1], z3.Function("asked", Zi, Zi)(f.var))),))

    def get_measurement_outcome_distribution(self, circuit, n):
        e = self.I.e
        if e.choose(z3.Bool("inner_rejects")):
            raise ValueError("rejected")
        if e.choose(z3.Bool("inner_fails")):
            raise Boom()
        return Dist("d", circuit.key[-1])


class Dist(Abs):
    """a distribution"""


def tracker(cx, bitstrings):
    """a tracking wrapper after any number of earlier calls, with P unsaved records (a failed save leaves them pending)"""
    x = V.index_var("x")
    for f in ("n_ops", "n_shots", "width"):
        cx.e.add(z3.ForAll([x], z3.Function(f, Zi, Zi)(x) >= 0))
    I = cx.I
    cx.disk = {}

    def open_(I, name, mode="r"):
        if mode not in ("w", "w+"):
            raise Unsupported(f"mode {mode}")
        return GhostFile(cx.disk, name)

    def dumps(I, v):
        (kv,) = V.norm_segs(V.segs_of(v))
        k, x = kv.v
        return k, PyList(tuple(V.segs_of(x)))

    I.shims[open], I.shims[json.dumps] = open_, dumps
    cx.contract(trackers.to_dict, lambda I, c: Abs("dict of", c.key[-1]))
    inner = Inner("inner")
    Inner.I = I
    r = runner(cx, trackers.MeasurementTrackingBackend, inner, "the file", bitstrings)
    P = cx.int("P", 0)
    p = V.index_var("p")
    cx.pending = (Fam(P.t, p, Abs("earlier record", p)),)
    r.raw_data.segs = cx.pending
    return r


def record(c, m, bitstrings):
    """the record of the measurements m of the circuit c"""
    d = {
        "data_type": "measurement",
        "device": "Inner",
        "circuit": Abs("dict of", c.key[-1]),
        "counts": m.get_counts(),
        "number_of_gates": SInt(z3.Function("n_ops", Zi, Zi)(c.key[-1])),
        "number_of_shots": SInt(z3.Function("n_shots", Zi, Zi)(m.key[-2])),
    }
    if bitstrings:
        (f,) = m.bitstrings.segs
        d["bitstrings"] = PyList((Fam(f.n, f.var, PyList(f.val.segs)),))
    return PyDict(tuple(One(kv) for kv in d.items()))


def saved(cx, r, new):
    """the file holds the pending records followed by the new ones; nothing is pending any more"""
    cx.prove(list(cx.disk) == ["the file"] and len(cx.disk["the file"]) == 1, "one document is written to the file")
    k, got = cx.disk["the file"][0]
    cx.prove(k == "raw-data", "under raw-data")
    cx.same(got, PyList(cx.pending + new), "records")
    cx.prove(cx.len(r.raw_data) == 0, "nothing is pending")


def unsaved(cx, r, kind, v):
    cx.prove(isinstance(v, (ValueError, Boom)), "rejection or error of the wrapped runner")
    counters(cx, r, 0, 0, "nothing ran")
    cx.prove(not cx.disk, "nothing is written")
    cx.same(r.raw_data, PyList(cx.pending), "nothing is recorded")


def tracker_ob(bitstrings):
    tag = "_bitstrings" if bitstrings else ""
    doc = " (recording bitstrings)" if bitstrings else ""

    def single(cx):
        r = tracker(cx, bitstrings)
        c, n = Tracked("c", z3.Int("j")), cx.int("n")
        kind, v = cx.attempt(r.run_and_measure, c, n)
        if kind == "exc":
            return unsaved(cx, r, kind, v)
        cx.prove(n > 0, "non-positive requests are rejected")
        m = Result("m", c.key[-1], n.t)
        cx.same(v, m, "exactly what the wrapped runner returned")
        counters(cx, r, 1, 1, "one run")
        saved(cx, r, (One(record(c, m, bitstrings)),))

    def batch(cx):
        r = tracker(cx, bitstrings)
        N = cx.int("N", 0)
        cs = cx.objs(Tracked, N, "c")
        cx.freeze(cs)
        kind, v = cx.attempt(r.run_batch_and_measure, cs, Abs("request"))
        if kind == "exc":
            return unsaved(cx, r, kind, v)
        j = V.index_var("j")
        m = Result("m", j, z3.Function("asked", Zi, Zi)(j))
        cx.same(v, PyList((Fam(N.t, j, m),)), "exactly what the wrapped runner returned")
        counters(cx, r, N, 1, "one batch")
        saved(cx, r, (Fam(N.t, j, record(Tracked("c", j), m, bitstrings)),))

    single.__doc__ = "run_and_measure of the tracking wrapper: same result, record matching it, counters" + doc
    batch.__doc__ = "run_batch_and_measure of the tracking wrapper: same results, one record per circuit in order, counters" + doc
    obligation("C14", name="tracker_run" + tag)(single)
    obligation("C14", name="tracker_batch" + tag)(batch)


tracker_ob(False)
tracker_ob(True)


@obligation("C14")
def tracker_distribution(cx):
    """get_measurement_outcome_distribution of the tracking wrapper: same result, record, counters"""
    r = tracker(cx, False)
    c, n = Tracked("c", z3.Int("j")), cx.int("n")
    kind, v = cx.attempt(r.get_measurement_outcome_distribution, c, n)
    if kind == "exc":
        return unsaved(cx, r, kind, v)
    cx.same(v, Dist("d", c.key[-1]), "exactly what the wrapped runner returned")
    counters(cx, r, 1, 1, "one run")
    d = {
        "data_type": "measurement outcome distribution",
        "device": "Inner",
        "circuit": Abs("dict of", c.key[-1]),
        "distribution": SStr([("repr", Dist("d", c.key[-1]))]),
        "number_of_gates": SInt(z3.Function("n_ops", Zi, Zi)(c.key[-1])),
        "number_of_shots": n,
    }
    saved(cx, r, (One(PyDict(tuple(One(kv) for kv in d.items()))),))

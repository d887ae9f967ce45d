"""C15: estimation tasks.

A list of any number of tasks; task j has an operator (constant or not), a circuit and a number of shots (or None)."""
from vc.pyvc.driver import *
from vc.pyvc.driver import V, z3
from vc.pyvc.interp import _map_segs
from vc.pyvc.shims import zip_segs
from orquestra.quantum.api.estimation import EstimationTask
from orquestra.quantum.estimation import _estimation as es
from orquestra.quantum.measurements import ExpectationValues
from vc.pyvc import sarr
from vc.proof import c10
from orquestra.quantum.api import wavefunction_simulator as ws
from orquestra.quantum.operators import PauliSum, PauliTerm
from orquestra.quantum.runners import symbolic_simulator as ss

Zi, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Circ(Abs):
    """a circuit"""

    def bind(self, m):
        return Circ("bound", *self.key, *m.key)


class Term(Abs):
    @property
    def coefficient(self):
        return SComplex(self.fterm("re", R), self.fterm("im", R))


class Op(Abs):
    """an operator; every term of a constant operator is a constant"""

    @property
    def is_constant(self):
        return mkbool(const(self.key[-1]))

    @property
    def terms(self):
        v = V.index_var("t")
        return PyList((Fam(nterms(self.key[-1]), v, Term("H", self.key[-1], v)),))


class Shots(Abs):
    """measurements of a circuit"""

    def get_expectation_values(self, op, use_bessel_correction=False):
        return Abs("estimate", op.key[-1], *self.key)


const = z3.Function("const", Zi, B)
nterms = z3.Function("nterms", Zi, Zi)
noshots = z3.Function("noshots", Zi, B)
nshots = z3.Function("nshots", Zi, Zi)


def task(j):
    t = object.__new__(EstimationTask)
    t.__dict__.update(operator=Op("op", j), circuit=Circ("circ", j), number_of_shots=Cases([(noshots(j), None), (z3.Not(noshots(j)), SInt(nshots(j)))]))
    return t


def measured(j):
    return z3.Not(z3.Or(const(j), z3.And(z3.Not(noshots(j)), nshots(j) == 0)))


def tasks(cx):
    N = cx.int("N", 0)
    v = V.index_var("j")
    cx.forall(N, lambda j: SBool(z3.And(nterms(j.t) >= 0, z3.Implies(noshots(j.t), const(j.t)), nshots(j.t) >= 0)))
    ts = PyList((Fam(N.t, v, task(v)),))
    cx.freeze(ts)
    sarr.install(cx.I)
    return ts, N


def pick(N, p, f):
    """[f(j) for j < N if p(j)]"""
    v = V.index_var("j")
    return PyList((Flat(N.t, v, (Guard(p(v), (One(f(v)),)),)),))


@obligation("C15")
def split(cx):
    """split_estimation_tasks_to_measure: the tasks to measure, the others, and the positions of both, in order"""
    ts, N = tasks(cx)
    r = cx.call(es.split_estimation_tasks_to_measure, ts)
    a, b, ia, ib = [s.v for s in V.segs_of(r)]
    other = lambda j: z3.Not(measured(j))
    cx.same(a, pick(N, measured, task), "tasks to measure")
    cx.same(b, pick(N, other, task), "tasks not to measure")
    cx.same(ia, pick(N, measured, SInt), "positions of the tasks to measure")
    cx.same(ib, pick(N, other, SInt), "positions of the other tasks")


def constant(j):
    """the value of a constant operator"""
    v = V.index_var("t")
    c = Term("H", j, v).coefficient
    return SComplex(V.sum_term(nterms(j), v, c.re), V.sum_term(nterms(j), v, c.im))


def unmeasured(j):
    v = constant(j)
    z = z3.RealVal(0)
    return SComplex(z3.If(const(j), v.re, z), z3.If(const(j), v.im, z))


@obligation("C15")
def not_measured(cx):
    """evaluate_non_measured_estimation_tasks: one result per task, in order; the sum of the coefficients of a constant operator,
    zero otherwise; a task that asks for shots is refused"""
    ts, N = tasks(cx)
    kind, r = cx.attempt(es.evaluate_non_measured_estimation_tasks, ts)
    if kind == "exc":
        cx.prove(isinstance(r, RuntimeError), "refused")
        cx.forall(N, lambda j: SBool(z3.Not(measured(j.t))))
        cx.prove(False, "refused only when some task has to be measured")
    cx.each(N, lambda j: SBool(z3.Not(measured(j.t))), "no task asks for shots")
    (f,) = V.norm_segs(V.segs_of(r)) or (None,)
    if f is None:
        cx.prove(N == 0, "one result per task")
        return
    cx.prove(f.n == N.t, "one result per task")
    cx.prove(V.holds_generic(N.t, lambda j: V.eqv(V.force(V.inst(f, j)).values, sarr.FArr.fn((1,), lambda a: unmeasured(j)))), "values")


class Runner(Abs):
    """any runner that returns the measurements of every circuit, in order; asked for positive numbers of shots only"""

    def run_batch_and_measure(self, circuits, n):
        I = self.cx.I
        cs, ns = V.norm_segs(I.iter_segs(circuits)), V.norm_segs(I.iter_segs(n))
        self.cx.prove(SBool(V.segs_len(cs) == V.segs_len(ns)), "one number of shots per circuit")
        return PyList(_map_segs(zip_segs(I, [cs, ns]), lambda x: Shots("shots", *x[0].key, shots_of(x[1]))))


def shots_of(n):
    """the number among the alternatives of an optional number"""
    if isinstance(n, Cases):
        (n,) = [x for _, x in n.alts if x is not None]
    return toint(n)


def estimate(j):
    return Cases([(measured(j), Abs("real part", Abs("estimate", j, "shots", "circ", j, nshots(j)))), (z3.Not(measured(j)), Abs("unmeasured", j))])


@obligation("C15")
def averaging(cx):
    """estimate_expectation_values_by_averaging: one result per task at its position: the real part of the estimate for the
    task's operator from the shots of the task's circuit (with its number of shots), or the value of the task that needs no
    shots; one batch is run"""
    ts, N = tasks(cx)
    r = Runner("runner")
    r.__dict__["cx"] = cx
    cx.contract(es.evaluate_non_measured_estimation_tasks, lambda I, ts: PyList(_map_segs(I.iter_segs(ts), lambda t: Abs("unmeasured", t.operator.key[-1]))))
    cx.contract(es.expectation_values_to_real, lambda I, v: Abs("real part", v))
    got = cx.call(es.estimate_expectation_values_by_averaging, r, ts)
    v = V.index_var("j")
    cx.same(got, PyList((Fam(N.t, v, estimate(v)),)), "one result per task, in order")


@obligation("C15")
def real_part(cx):
    """expectation_values_to_real: the values keep their order and lose their imaginary part"""
    sarr.install(cx.I)
    M = cx.int("M", 0)
    re, im = z3.Function("re", Zi, R), z3.Function("im", Zi, R)
    cplx = cx.pick(2)
    vals = sarr.FArr.fn((M,), (lambda a: SComplex(re(a), im(a))) if cplx else (lambda a: SReal(re(a))))
    r = cx.call(es.expectation_values_to_real, cx.call(ExpectationValues, vals))
    cx.same(cx.get(r, "values"), sarr.FArr.fn((M,), lambda a: SReal(re(a))), "values")


class Simulator(Abs):
    def get_exact_expectation_values(self, c, op):
        return SReal(z3.Function("exact", Zi, Zi, R)(c.key[-1], op.key[-1]))


@obligation("C15")
def exact(cx):
    """calculate_exact_expectation_values: the simulator's exact value of every task's operator in the state of its circuit, in
    order"""
    ts, N = tasks(cx)
    got = cx.call(es.calculate_exact_expectation_values, Simulator("sim"), ts)
    cx.prove(cx.len(got) == N, "one result per task")
    if not cx.choose(N > 0):
        return
    ok = lambda j: V.eqv(V.force(cx.get(item(cx, got, j), "values")), sarr.FArr.fn((1,), lambda a: SReal(z3.Function("exact", Zi, Zi, R)(j, j))))
    cx.prove(V.holds_generic(N.t, ok), "values")


@obligation("C15")
def binding(cx):
    """evaluate_estimation_circuits: task j's circuit bound with map j; operator and number of shots unchanged; the given tasks
    are not touched"""
    ts, N = tasks(cx)
    v = V.index_var("m")
    maps = PyList((Fam(N.t, v, Abs("map", v)),))
    got = cx.call(es.evaluate_estimation_circuits, ts, maps)

    def want(j):
        t = object.__new__(EstimationTask)
        t.__dict__.update({**task(j).__dict__, "circuit": Circ("bound", "circ", j, "map", j)})
        return t

    cx.same(got, PyList((Fam(N.t, v, want(v)),)), "tasks")


def item(cx, xs, j):
    from vc.pyvc.shims import getitem

    return V.force(getitem(cx.I, xs, SInt(j)))


@obligation("C15")
def basis_state(cx):
    """when all shots show the same bitstring (a computational basis state), the estimated value of a term is its coefficient
    times the term's eigenvalue on that bitstring, whatever the number of shots (over the contract of get_expectation_values:
    C10 values)"""
    nq, N = c10.setup(cx)
    b = z3.Function("b", Zi, Zi)
    s = c10.qset(nq, z3.Int("t"))
    one = lambda i: c10.tot(cx, s, i, lambda i, q: b(q))
    q = V.index_var("q")
    i = V.index_var("i")
    cx.e.add(z3.ForAll([i, q], c10.bit(i, q) == b(q), patterns=[c10.bit(i, q)]))
    same = lambda i: c10.tot(cx, s, i) == one(i)
    cx.prove(V.holds_generic(N.t, lambda i: V.prove_sums(same(i))), "every shot has the ones of the basis state")
    cx.e.add_qfact(N.t, i, same(i))
    lam = lambda i: 1 - 2 * (one(i) % 2)
    cx.prove(V.holds_generic(N.t, lambda i: c10.eig(cx, s, i) == lam(i)), "every shot has the eigenvalue of the basis state")
    cx.e.add_qfact(N.t, i, c10.eig(cx, s, i) == lam(i))
    total = lambda h: V.sum_term(N.t, i, h(i))
    cx.prove(total(lambda i: c10.eig(cx, s, i)) == N.t * lam(i), "sum over the shots")
    cx.prove(c10.mean(cx, lambda i: c10.eig(cx, s, i)) == z3.ToReal(lam(i)), "sample mean")


@obligation("C15")
def exact_simulator(cx):
    """get_exact_expectation_values of a simulator: the real part of the operator's expectation value in the state of the
    circuit"""
    sim = cx.call(ss.SymbolicSimulator)
    c, op = Circ("circ", z3.Int("j")), Op("op", z3.Int("k"))
    cx.contract(ws.BaseWavefunctionSimulator.get_wavefunction, lambda I, self, circuit, *a: Abs("state", *circuit.key))
    f, g = z3.Function("re", Zi, Zi, R), z3.Function("im", Zi, Zi, R)
    val = lambda op, w: (op.key[-1], w.key[-1])
    cx.contract(ws.get_expectation_value, lambda I, op, w: SComplex(f(*val(op, w)), g(*val(op, w))))
    r = cx.call(sim.get_exact_expectation_values, c, op)
    cx.same(r, SReal(f(z3.Int("k"), z3.Int("j"))), "expectation value")


class ATerm(Abs):
    _pyclasses = (PauliTerm,)

    @property
    def is_constant(self):
        return self.fbool("constant")


@obligation("C15")
def constants(cx):
    """an operator is constant exactly when every term is (a term: when it acts on no qubit); its terms are those of the sum, or
    the single term itself"""
    M = cx.int("M", 0)
    ts = cx.objs(ATerm, M, "t")
    s = object.__new__(PauliSum)
    s.__dict__["terms"] = ts
    r = cx.get(s, "is_constant")
    at = lambda j: ATerm("t", j).fterm("constant", B)
    if cx.choose(r):
        cx.each(M, lambda j: SBool(at(j.t)), "every term is constant")
    else:
        cx.forall(M, lambda j: SBool(at(j.t)))
        cx.prove(False, "some term is not constant")
    t = object.__new__(PauliTerm)
    t.__dict__.update(_ops={}, coefficient=cx.complex("c"))
    cx.prove(cx.get(t, "is_constant"), "no factors")
    cx.same(cx.get(t, "terms"), cx.list(t), "terms of a term")
    q = cx.int("q", 0)
    t = object.__new__(PauliTerm)
    t.__dict__.update(_ops=PyDict((One((q, "Z")),)), coefficient=cx.complex("c"))
    cx.prove(SBool(z3.Not(zbool(cx.get(t, "is_constant")))), "factors")

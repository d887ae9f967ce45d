"""C04: one numbering of the qubits - indices of amplitudes, texts, tuples, distributions, samples.

Bit p of the index i of an amplitude is BIT(i, p).  Gate embedding (C01) and the sparse operators (C09) have qubit 0 leftmost, which is
the most significant bit: the outcome of qubit q in basis state i is BIT(i, n - 1 - q)."""
from vc.pyvc import bits, sarr
from vc.pyvc.driver import *
from vc.pyvc.driver import V, z3
from vc.pyvc.lin import Meth
from vc.pyvc.shims import distinct_keys
import numpy as np
import orquestra.quantum.wavefunction as wf
from orquestra.quantum import utils as ut
from orquestra.quantum.distributions import _measurement_outcome_distribution as md

TRUSTED = [bits.NOTE, "machine floats are treated as real numbers (no overflow, nan or rounding)"]
ASSUMPTIONS = []
Z, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
RE, IM = z3.Function("re", Z, R), z3.Function("im", Z, R)


def state(cx, low=1):
    """a normalised wavefunction of n qubits with numeric amplitudes"""
    sarr.install(cx.I)
    n = cx.int("n", low)
    N = core.mk_pow2(n.t)
    w = object.__new__(wf.Wavefunction)
    w.__dict__["_amplitude_vector"] = sarr.FArr.fn((N,), lambda i: SComplex(RE(i), IM(i)), "c")
    cx.freeze(w)
    return w, n, N


def prob(i):
    return RE(i) * RE(i) + IM(i) * IM(i)


def outcome(n, i):
    """the outcome of the qubits 0 .. n-1 in basis state i"""
    q = V.index_var("q")
    return PyTuple((Fam(n.t, q, bits.bit(i, z3.simplify(n.t - 1 - q))),))


def text(n, i):
    """the text of get_outcome_probs: qubit n-1 first"""
    q = V.index_var("q")
    return SStr([("join", "", PyList((Fam(n.t, q, SStr([("str", bits.bit(i, q))])),)))])


@obligation("C04")
def outcome_probabilities(cx):
    """get_outcome_probs() of a state of n qubits: one entry for every basis state i in increasing order, the text of its bits with qubit
    n-1 first, and the probability |a_i|^2"""
    w, n, N = state(cx)
    d = cx.call(w.get_outcome_probs)
    cx.prove(cx.len(d) == N, "one entry for every basis state")
    i = V.index_var("i")
    want = PyList((Fam(toint(N), i, (text(n, i), SReal(prob(i)))),))
    cx.same(PyList(V.segs_of(cx.get(d, "items") and cx.I.call(list, [cx.I.call(cx.get(d, "items"), [])]))), want, "entries")


@obligation("C04")
def probabilities(cx):
    """get_probabilities()[i] == |a_i|^2"""
    w, n, N = state(cx)
    r = cx.call(w.get_probabilities)
    cx.same(r, sarr.FArr.fn((N,), lambda i: SReal(prob(i)), "f"), "entries")


@obligation("C04")
def exact_distribution(cx):
    """create_bitstring_distribution_from_probability_distribution(2^n probabilities): the outcome of basis state i (qubit 0 first) with
    probability p_i, for every i"""
    sarr.install(cx.I)
    n = cx.int("n", 1)
    N = core.mk_pow2(n.t)
    P = z3.Function("p", Z, R)
    made = []
    cx.contract(md.MeasurementOutcomeDistribution, lambda I, d, normalize=True: made.append((d, normalize)) or Abs("distribution"))
    r = cx.call(md.create_bitstring_distribution_from_probability_distribution, sarr.FArr.fn((N,), lambda i: SReal(P(i)), "f"))
    cx.same(r, Abs("distribution"), "the distribution")
    cx.prove(len(made) == 1 and made[0][1] is True, "one distribution")
    i = V.index_var("i")
    cx.same(PyList(V.segs_of(made[0][0])), PyList((Fam(toint(N), i, (outcome(n, i), SReal(P(i)))),)), "entries")


@obligation("C04")
def text_to_tuple(cx):
    """bitstring_to_tuple: the digits of a text of n >= 0 binary digits in reverse order; of the text of basis state i: the outcome of
    the qubits 0 .. n-1"""
    n, i = cx.int("n", 0), z3.Int("state")
    cx.same(cx.call(ut.bitstring_to_tuple, text(n, i)), outcome(n, i), "outcome")


@obligation("C04")
def texts_to_tuples(cx):
    """convert_bitstrings_to_tuples of the texts of any number of basis states: their outcomes in order"""
    n, M = cx.int("n", 1), cx.int("M", 0)
    S = z3.Function("state", Z, Z)
    s, t = V.index_var("s"), V.index_var("t")
    r = cx.call(ut.convert_bitstrings_to_tuples, PyList((Fam(M.t, s, text(n, S(s))),)))
    cx.same(r, PyList((Fam(M.t, t, outcome(n, S(t))),)), "outcomes")


@obligation("C04")
def tuple_to_text(cx):
    """tuple_to_bitstring and convert_tuples_to_bitstrings: position q of the text is the outcome at position q"""
    n, i, M = cx.int("n", 1), z3.Int("state"), cx.int("M", 0)
    q = V.index_var("q")
    want = lambda i: SStr([("join", "", PyList((Fam(n.t, q, SStr([("str", bits.bit(i, z3.simplify(n.t - 1 - q)))])),)))])
    cx.same(cx.call(ut.tuple_to_bitstring, outcome(n, i)), want(i), "one text")
    S, s = z3.Function("state", Z, Z), V.index_var("s")
    cx.same(cx.call(ut.convert_tuples_to_bitstrings, PyList((Fam(M.t, s, outcome(n, S(s))),))), PyList((Fam(M.t, s, want(S(s))),)), "texts")


# ---------------------------------------------------------------- sampling
DRAW = z3.Function("drawn position", Z, Z)
TRUSTED.append("numpy Generator.choice(a, size, p): size entries of a at positions of positive probability (p must have one entry for every entry of a); "
               "without p any entry; np.array of a list of tuples and one number with dtype object: the list")


class Entries:
    """one-dimensional array of arbitrary objects"""

    __pyvc_value__ = True

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __pyvc_iter__(self, I):
        return self.segs

    def __pyvc_len__(self, I=None):
        return mkint(V.segs_len(self.segs))

    def __pyvc_getattr__(self, I, name):
        if name == "tolist":
            return Meth(lambda I: PyList(self.segs))
        raise Unsupported(f"{name} of an array of objects")


class Rng:
    __pyvc_value__ = True

    def __init__(self, cx):
        self.cx = cx

    def __pyvc_getattr__(self, I, name):
        if name == "choice":
            return Meth(self.choice)
        raise Unsupported(f"{name} of the generator")

    def choice(self, I, a, size=None, replace=True, p=None, **kw):
        e = I.e
        if replace is not True or kw or size is None:
            raise Unsupported("other kinds of sampling")
        a = force(a)
        segs = V.norm_segs(I.iter_segs(a))
        if not isinstance(a, Entries):
            # numpy converts: texts stay texts, tuples become rows of a matrix
            first = force(segs[0].v) if isinstance(segs[0], One) else force(segs[0].val)
            if not isinstance(first, (str, SStr)):
                raise Unsupported("sampling from something else")
        s = V.index_var("s")
        n = toint(size)
        if p is None:
            raise ProofFailed("sampling", "samples are not weighted by the probabilities")
        ps = V.norm_segs(I.iter_segs(p))
        if not e.valid(V.segs_len(ps) == V.segs_len(segs)):
            raise ProofFailed("sampling", "another number of probabilities")
        self.cx.drawn += 1
        d = DRAW(s)
        e.solver.push()
        try:
            e.add(z3.And(s >= 0, s < n, d >= 0, d < V.segs_len(segs)))
            e.add(self.weight(e, ps, d) > 0)
            v = self.entry(e, segs, d)
        finally:
            e.solver.pop()
        a_ = V.index_var("a")
        e.add_qfact(n, a_, z3.And(DRAW(a_) >= 0, DRAW(a_) < V.segs_len(segs), self.weight(e, ps, DRAW(a_)) > 0))
        return Entries((Fam(n, s, v),))

    @staticmethod
    def weight(e, ps, d):
        """the probability of position d"""
        out, off = z3.RealVal(-1), z3.IntVal(0)
        parts = []
        for x in ps:
            m = V.seg_len(x)
            v = x.v if isinstance(x, One) else V.inst(x, d - off)
            parts.append((z3.And(d >= off, d < off + m), toreal(v)))
            off = off + m
        for c, v in reversed(parts):
            out = z3.If(c, v, out)
        return z3.simplify(out)

    @staticmethod
    def entry(e, segs, d):
        off = z3.IntVal(0)
        for x in segs:
            m = V.seg_len(x)
            if e.valid(z3.And(d >= off, d < off + m)):
                return x.v if isinstance(x, One) else V.inst(x, z3.simplify(d - off))
            off = off + m
        raise ProofFailed("sampling", "an entry that is no outcome of the register can be drawn")


@obligation("C04")
def samples(cx):
    """sample_from_wavefunction(state of n qubits, M, seed): ValueError when M < 1; otherwise M tuples, each the outcome of the qubits 0 .. n-1
    in a basis state of positive probability; with few and with many samples; over the contract of get_outcome_probs"""
    w, n, N = state(cx)
    i = V.index_var("i")
    d = PyDict()
    d.segs = (Fam(toint(N), i, (text(n, i), SReal(prob(i)))),)
    cx.freeze(d)
    cx.contract(wf.Wavefunction.get_outcome_probs, lambda I, self: d)
    cx.drawn = 0
    seeds = []
    S = cx.I.shims
    S[np.random.default_rng] = lambda I, seed=None: seeds.append(seed) or Rng(cx)
    old = S[np.array]

    def array(I, x, dtype=None, **kw):
        segs = V.norm_segs(I.iter_segs(x))
        if any(isinstance(force(x.v if isinstance(x, One) else x.val), (tuple, PyTuple)) for x in segs if isinstance(x, (One, Fam))):
            if dtype is not object or all(isinstance(force(x.v if isinstance(x, One) else x.val), (tuple, PyTuple)) for x in segs):
                raise ProofFailed("sampling", "the tuples become the rows of a matrix")
            return Entries(segs)
        return old(I, x, dtype, **kw)

    S[np.array] = array
    M, seed = cx.int("M"), cx.int("seed")
    given = cx.pick(2) == 1
    k, r = cx.attempt(wf.sample_from_wavefunction, w, M, seed) if given else cx.attempt(wf.sample_from_wavefunction, w, M)
    if k == "exc":
        cx.prove(isinstance(r, ValueError), "ValueError")
        cx.prove(M < 1, "only requests without samples are refused")
        return
    cx.prove(M >= 1, "requests without samples are refused")
    cx.prove(cx.drawn == 1 and len(seeds) == 1, "one generator, sampled once")
    cx.prove(seeds[0] is None if not given else cx.eq(seeds[0], seed), "seeded with the given seed")
    s = V.index_var("s")
    cx.same(r, PyList((Fam(M.t, s, outcome(n, DRAW(s))),)), "outcomes of the drawn basis states")
    cx.each(M, lambda s: z3.And(DRAW(toint(s)) >= 0, DRAW(toint(s)) < toint(N), prob(DRAW(toint(s))) > 0), "every drawn basis state has positive probability")


# ---------------------------------------------------------------- the views of a simulator
from orquestra.quantum.api import wavefunction_simulator as ws  # noqa: E402
from orquestra.quantum.measurements import Measurements  # noqa: E402
from orquestra.quantum.runners.symbolic_simulator import SymbolicSimulator  # noqa: E402


class Wave(Abs):
    """the state of a circuit"""

    def get_probabilities(self):
        return Abs("probabilities", *self.key[1:])


class Shots(Abs):
    """measurements"""

    def get_distribution(self):
        return Abs("distribution", *self.key)


class Circ(Abs):
    free_symbols = property(lambda s: [])


def simulator(cx):
    sim = object.__new__(SymbolicSimulator)
    sim.__dict__.update(seed=Abs("seed"), _n_circuits_executed=0, _n_jobs_executed=0)
    cx.contract(ws.BaseWavefunctionSimulator.get_wavefunction, lambda I, s, c, initial_state=None: Wave("state", *force(c).key[1:]))
    return sim, Circ("circuit", z3.Int("c"))


@obligation("C04")
def sampled_view(cx):
    """run_and_measure(circuit, M) of a simulator: the measurements are the tuples of sample_from_wavefunction(state of the circuit, M,
    its seed), unchanged"""
    sim, c = simulator(cx)
    M = cx.int("M", 1)
    log = []

    def sample(I, w, n, seed=None):
        log.append((force(w), force(n), force(seed)))
        return Abs("tuples")

    cx.contract(ws.sample_from_wavefunction, sample)
    cx.contract(Measurements, lambda I, x=None: Abs("measurements", force(x).key[0]))
    r = cx.call(sim.run_and_measure, c, M)
    cx.prove(len(log) == 1, "one sampling")
    cx.same(log[0][0], Wave("state", z3.Int("c")), "of the state of the circuit")
    cx.same(log[0][1], M, "number of samples")
    cx.same(log[0][2], Abs("seed"), "seed of the simulator")
    cx.same(r, Abs("measurements", "tuples"), "measurements")


@obligation("C04")
def distribution_view(cx):
    """get_measurement_outcome_distribution(circuit) of a simulator: the distribution of the probabilities of the state of the circuit; with a
    number of samples: get_distribution of the measurements of run_and_measure"""
    sim, c = simulator(cx)
    cx.contract(ws.create_bitstring_distribution_from_probability_distribution, lambda I, p: Abs("distribution", *force(p).key))
    if cx.pick(2):
        M = cx.int("M", 1)
        cx.contract(ws.BaseWavefunctionSimulator.run_and_measure, lambda I, s, c, n: Shots("shots", *force(c).key[1:], toint(force(n))))
        r = cx.call(sim.get_measurement_outcome_distribution, c, M)
        cx.same(r, Abs("distribution", "shots", z3.Int("c"), M.t), "distribution of the measurements")
        return
    r = cx.call(sim.get_measurement_outcome_distribution, c)
    cx.same(r, Abs("distribution", "probabilities", z3.Int("c")), "distribution")


@obligation("C04")
def expectation_view(cx):
    """get_exact_expectation_values(circuit, operator): the real part of get_expectation_value(operator, state of the circuit) with the
    qubit order of the operator"""
    sim, c = simulator(cx)
    v = cx.complex("value")
    log = []

    def expectation(I, op, w, reverse_operator=False):
        log.append((op, force(w), force(reverse_operator)))
        return v

    cx.contract(ws.get_expectation_value, expectation)
    op = Abs("operator")
    r = cx.call(sim.get_exact_expectation_values, c, op)
    cx.same(r, SReal(v.re), "real part")
    cx.prove(len(log) == 1 and log[0][2] is False, "one value, qubits not reversed")
    cx.same(log[0][0], op, "the operator")
    cx.same(log[0][1], Wave("state", z3.Int("c")), "the state of the circuit")


@obligation("C04")
def eigenvalue(cx):
    """lemma for Z-type operators: the diagonal entry of Z on the marked qubits in basis state i, the product over the qubits q of
    1 - 2 BIT(i, n-1-q) for the marked q, is 1 - 2 (number of ones of the outcome of i on the marked qubits mod 2), the eigenvalue used
    with measurements (C10): induction over the qubits; off-diagonal entries are 0, so that the quadratic form of C09 is the average of the
    eigenvalues under the probabilities |a_i|^2"""
    n, i = cx.int("n", 1), z3.Int("state")
    MARK = z3.Function("marked", Z, B)
    q = V.index_var("q")
    o = outcome(n, i)
    ones = lambda m: V.sum_term(m, q, z3.If(MARK(q), toint(V.inst(o.segs[0], q)), z3.IntVal(0)))
    prod = z3.Function("product of the first factors", Z, Z)
    k = z3.Int("k")
    eig = lambda m: 1 - 2 * (ones(m) % 2)
    factor = z3.If(MARK(k), 1 - 2 * toint(bits.bit(i, z3.simplify(n.t - 1 - k))), z3.IntVal(1))
    cx.e.add(z3.And(prod(z3.IntVal(0)) == 1, prod(k + 1) == prod(k) * factor))
    cx.prove(SBool(z3.Implies(z3.IntVal(0) == 0, eig(z3.IntVal(0)) == prod(z3.IntVal(0)))), "no qubit")
    s, s1 = ones(k), ones(k + 1)
    cx.e.add(z3.Implies(k >= 0, s1 == s + z3.If(MARK(k), toint(bits.bit(i, z3.simplify(n.t - 1 - k))), z3.IntVal(0))))
    cx.prove(SBool(z3.Implies(z3.And(k >= 0, k < n.t, prod(k) == 1 - 2 * (s % 2)), prod(k + 1) == 1 - 2 * (s1 % 2))), "one more qubit")
    cx.assume(SBool(z3.And(k >= 0, k < n.t)))


# ---------------------------------------------------------------- the other layers, with the same numbering
TRUSTED += borrow("C04", "c09", ["sparse_matrix", "expectation", "expectation_value", "reversal"])
TRUSTED += borrow("C04", "c10", ["parity_vector", "bit_matrix", "expectation", "counts", "values", "distribution"])
TRUSTED += borrow("C04", "c01", ["unitary", "apply_gate"])

# ---------------------------------------------------------------- embedding of gates
from vc.proof import lifting  # noqa: E402

lifting.register("C04")
TRUSTED += lifting.TRUSTED

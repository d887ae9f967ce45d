"""C10: statistics of measurements.

N shots of nq bits; the Ising operator has M terms, each a set of qubits (a membership predicate) and a coefficient."""
import collections

import numpy as np

from vc.pyvc.driver import *
from vc.pyvc.driver import V, z3
from vc.pyvc import count, sarr, text as stext
from vc.pyvc.count import IdxSet
from vc.pyvc.shims import distinct_keys
from orquestra.quantum.measurements import measurements as ms
from orquestra.quantum.measurements import parities as pr
from orquestra.quantum.measurements.expectation_values import ExpectationValues

Zi, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
bit = z3.Function("bit", Zi, Zi, Zi)
chi = z3.Function("chi", Zi, Zi, B)


def qset(nq, t):
    v = V.index_var("q")
    return IdxSet(nq, v, chi(t, v))


class Term(Abs):
    """a Z-type term: coefficient and set of qubits"""

    nq = None

    @property
    def coefficient(self):
        return SComplex(self.fterm("re", R), self.fterm("im", R))

    @property
    def qubits(self):
        return qset(SInt(z3.Int("nq")), self.key[-1])


class Operator(Abs):
    def __init__(self, M, ising=True):
        super().__init__("op")
        self.__dict__["M"], self.__dict__["is_ising"] = M, ising

    @property
    def terms(self):
        v = V.index_var("t")
        return PyList((Fam(toint(self.M), v, Term("H", v)),))


def setup(cx, min_shots=1):
    count.install(cx.I)
    sarr.install(cx.I)
    stext.install(cx.I)
    nq, N = cx.int("nq", 1), cx.int("N", min_shots)
    i, q = V.index_var("i"), V.index_var("q")
    cx.e.add(z3.ForAll([i, q], z3.And(bit(i, q) >= 0, bit(i, q) <= 1), patterns=[bit(i, q)]))
    cx.nq, cx.N = nq, N
    return nq, N


def shot(cx, i):
    q = V.index_var("q")
    return PyTuple((Fam(cx.nq.t, q, SInt(bit(i, q))),))


def shots(cx):
    i = V.index_var("i")
    return PyList((Fam(cx.N.t, i, shot(cx, i)),))


def tot(cx, s, i, f=bit):
    """number of ones of shot i on the set s"""
    q = V.index_var("q")
    return V.sum_term(cx.nq.t, q, z3.If(s.has(q), f(i, q), z3.IntVal(0)))


def eig(cx, s, i, f=bit):
    return 1 - 2 * (tot(cx, s, i, f) % 2)


def mean(cx, h):
    """sample mean over the shots"""
    i = V.index_var("i")
    return V.sum_term(cx.N.t, i, z3.ToReal(h(i))) / z3.ToReal(cx.N.t)


@obligation("C10")
def parity_vector(cx):
    """check_parity_of_vector: entry a is 1 when the number of ones of row a on the marked qubits is even, else 0 (any
    number of rows, any set)"""
    nq, N = setup(cx, 0)
    vec = sarr.FArr.fn((N, nq), lambda a, q: SInt(bit(a, q)))
    s = qset(nq, z3.Int("t"))
    r = cx.call(pr.check_parity_of_vector, vec, s)
    want = sarr.FArr.fn((N,), lambda a: SInt((tot(cx, s, a) + 1) % 2))
    cx.same(r, want, "parity of every row")


@obligation("C10")
def bit_matrix(cx):
    """_convert_bitstrings_to_vector: entry (a, q) is the digit q of bitstring a (any number >= 1 of bitstrings of any equal
    length)"""
    nq, N = setup(cx)
    i, q = V.index_var("i"), V.index_var("q")
    keys = PyList((Fam(N.t, i, text(cx, i)),))
    r = cx.call(ms._convert_bitstrings_to_vector, keys)
    cx.same(r, sarr.FArr.fn((N, nq), lambda a, q: SInt(bit(a, q))), "digits")


def text(cx, i):
    """the bitstring of shot i"""
    q = V.index_var("q")
    return SStr([("join", "", PyTuple((Fam(cx.nq.t, q, SStr([("str", SInt(bit(i, q)))])),)))])


def parity_model(I, vec, s):
    """contract of check_parity_of_vector (obligation parity_vector)"""
    s = V.force(s)
    if isinstance(s, (set, frozenset, PySet)) and not len(s if not isinstance(s, PySet) else s.items_()):
        return sarr.FArr.fn((vec.shape[0],), lambda a: 1)
    if not isinstance(s, IdxSet):
        raise Unsupported("parity of an unexpected set")
    I.e.prove(toint(vec.shape[1]) == toint(s.nq), "the qubits exist in the bitstrings")

    def f(a):
        q = V.index_var("q")
        return SInt((V.sum_term(toint(s.nq), q, z3.If(s.has(q), toint(vec.elem(a, q)), z3.IntVal(0))) + 1) % 2)

    return sarr.FArr.fn((vec.shape[0],), f)


@obligation("C10")
def expectation(cx):
    """get_expectation_value_from_frequencies on the counts of N >= 1 shots: the sample mean of the +-1 eigenvalue"""
    nq, N = setup(cx)
    cx.contract(pr.check_parity_of_vector, parity_model)
    cx.contract(ms._convert_bitstrings_to_vector, matrix_model(cx))
    s = qset(nq, z3.Int("t"))
    counts = cx.call(collections.Counter, PyList((Fam(N.t, (i := V.index_var("i")), text(cx, i)),)))
    cx.freeze(counts)
    r = cx.call(ms.get_expectation_value_from_frequencies, s, counts)
    cx.same(r, SReal(mean(cx, lambda i: eig(cx, s, i))), "sample mean")


def matrix_model(cx):
    """contract of _convert_bitstrings_to_vector (obligation bit_matrix): on a family of bitstrings of width nq"""

    def model(I, bitstrings):
        segs = V.norm_segs(I.iter_segs(bitstrings))
        if len(segs) != 1 or not isinstance(segs[0], Fam):
            raise Unsupported("bitstrings")
        f = segs[0]

        def entry(a, q):
            v = V.force(V.inst(f, a))
            (_, sep, seq), = v.parts
            (g,) = seq.segs
            (_, d), = V.force(V.subst(g.val, [(g.var, q)])).parts
            return d

        return sarr.FArr.fn((mkint(f.n), cx.nq), entry)

    return model


def expectation_model(cx):
    """contract of get_expectation_value_from_frequencies (obligation expectation)"""

    def model(I, qubits, counts):
        qubits = V.force(qubits)
        if not getattr(counts, "is_shot_counts", False):
            raise Unsupported("frequencies that are not the counts of the shots")
        if isinstance(qubits, (set, frozenset)):
            qubits = count.literal(cx.nq, qubits)
        if not isinstance(qubits, IdxSet):
            raise Unsupported("unexpected qubits")
        return SReal(mean(cx, lambda i: eig(cx, qubits, i)))

    return model


def counts_model(cx):
    """contract of Measurements.get_counts (obligation counts)"""

    def model(I, self):
        r = count.counter(I, (Fam(cx.N.t, (i := V.index_var("i")), text(cx, i)),))
        r.is_shot_counts = True
        return r

    return model


def tally_keys(cx):
    """a loop that counts texts: the text of shot j is represented by an unknown code (same text, same code)"""
    code = z3.Function("code of text", Zi, Zi)

    def key(s):
        js = []
        V.subst(s, lambda t: (js.extend(V.index_consts(t)), t)[1])
        for j in {j.get_id(): j for j in js if z3.is_int(j)}.values():
            c = V.eqv(s, text(cx, j))
            if c is True or cx.e.valid(zbool(c)):
                return code(j)
        raise Unsupported("lookup in a symbolic dictionary")

    cx.e.text_key = key
    cx.e.tallies = True


@obligation("C10")
def counts(cx):
    """Measurements.get_counts: the counter of the bitstring texts; the counts add up to the number of shots; the distribution
    is counts / N"""
    nq, N = setup(cx, 0)
    tally_keys(cx)
    m = cx.call(ms.Measurements, shots(cx))
    cx.freeze(m)
    r = cx.call(ms.Measurements.get_counts, m)
    want = cx.call(collections.Counter, PyList((Fam(N.t, (i := V.index_var("i")), text(cx, i)),)))
    cx.same(r, want, "counter of the shots")
    cx.prove(cx.call(sum, cx.I.call(cx.I.getattr(r, "values"), [], {})) == N, "counts add up to the number of shots")


def lam(cx, j, i):
    return eig(cx, qset(cx.nq, j), i)


def lemma_delta(cx, j, k):
    """for every shot: ones on A delta B = ones on A + ones on B - 2 ones on A and B, hence the parity of A delta B"""
    a, b = qset(cx.nq, j), qset(cx.nq, k)
    l = lambda i: tot(cx, a ^ b, i) == tot(cx, a, i) + tot(cx, b, i) - 2 * tot(cx, a & b, i)
    cx.prove(V.holds_generic(cx.N.t, lambda i: V.prove_sums(l(i))), "ones on the symmetric difference")

    def parity(i):
        x, y, d = tot(cx, a, i) % 2, tot(cx, b, i) % 2, tot(cx, a ^ b, i) % 2
        return z3.And(z3.Or(x == 0, x == 1), z3.Or(y == 0, y == 1), d == z3.If(x == y, z3.IntVal(0), z3.IntVal(1)))

    def check(i):
        cx.e.add(l(i))
        return parity(i)

    cx.prove(V.holds_generic(cx.N.t, check), "parity of the symmetric difference")
    i = V.index_var("i")
    cx.e.add_qfact(cx.N.t, i, parity(i))


@obligation("C10", cost=3)
def values(cx):
    """Measurements.get_expectation_values, values: coefficient times sample mean of the eigenvalue for every term"""
    r, M = statistics(cx, cx.bool("bessel"))
    c = lambda j: Term("H", j.t).coefficient
    got = cx.get(r, "values")
    cx.same(got, sarr.FArr.fn((M,), lambda j: c(SInt(j)) * SReal(mean(cx, lambda i: lam(cx, j, i)))), "values")


def statistics(cx, bessel):
    nq, N = setup(cx)
    M = cx.int("M", 1)
    op = Operator(M)
    m = cx.call(ms.Measurements, shots(cx))
    cx.freeze(m)
    cx.assume(z3.Or(N.t >= 2, z3.Not(zbool(bessel))))
    cx.contract(ms.get_expectation_value_from_frequencies, expectation_model(cx))
    cx.contract(ms.Measurements.get_counts, counts_model(cx))
    r = cx.call(ms.Measurements.get_expectation_values, m, op, bessel)
    return r, M


def corr(cx, j, k):
    """the sample mean of the product of the values of the terms j and k"""
    c = lambda j: Term("H", j).coefficient
    return c(j) * c(k) * SReal(mean(cx, lambda i: lam(cx, j, i) * lam(cx, k, i)))


@obligation("C10", cost=3)
def correlations(cx):
    """Measurements.get_expectation_values, correlations: sample means of products of two terms' values"""
    r, M = statistics(cx, cx.bool("bessel"))
    (got,) = [s.v for s in V.segs_of(cx.get(r, "correlations"))]
    cx.prove(len(got.shape) == 2 and got.shape[0] == M and got.shape[1] == M, "shape")

    def body(j, k):
        lemma_delta(cx, j, k)
        lemma_delta(cx, k, j)
        if cx.choose(j == k):
            k = j
        else:
            cx.choose(j < k)
        cx.prove(V.eqv(got.elem(j, k), corr(cx, j, k)), "entry (j, k)")
        return True

    cx.prove(V.holds_generic(M.t, lambda j: V.holds_generic(M.t, lambda k: body(j, k))), "entries")


@obligation("C10", cost=2)
def covariances(cx):
    """Measurements.get_expectation_values, covariances: (correlation - product of the values) / (N, or N - 1 with Bessel's
    correction)"""
    bessel = cx.bool("bessel")
    r, M = statistics(cx, bessel)
    (c,) = [s.v for s in V.segs_of(cx.get(r, "correlations"))]
    v = cx.get(r, "values")
    (got,) = [s.v for s in V.segs_of(cx.get(r, "estimator_covariances"))]
    d = SReal(z3.If(bessel.t, z3.ToReal(cx.N.t) - 1, z3.ToReal(cx.N.t)))
    cx.assume(d.t != 0)
    cx.same(got, sarr.FArr.fn((M, M), lambda j, k: sarr.scalar_op("/", c.elem(j, k) - v.elem(j) * v.elem(k), d)), "covariances")


@obligation("C10")
def not_ising(cx):
    """operators with other than Z factors are refused"""
    setup(cx)
    op = Operator(cx.int("M", 0), False)
    if cx.pick(2):
        cx.raises(TypeError, ms.Measurements.get_expectation_values, cx.call(ms.Measurements, shots(cx)), op)
    else:
        cx.raises(TypeError, pr.get_parities_from_measurements, shots(cx), op)


@obligation("C10")
def distribution(cx):
    """Measurements.get_distribution: every counted bitstring with probability count / N"""
    nq, N = setup(cx)
    m = cx.call(ms.Measurements, shots(cx))
    cx.freeze(m)
    cx.contract(ms.Measurements.get_counts, counts_model(cx))
    got = {}

    def model(I, cls, d, normalize=True):
        got["d"] = d
        return Abs("distribution")

    cx.I.shims[ms.MeasurementOutcomeDistribution] = lambda I, d, *a: got.setdefault("d", d)
    cx.call(ms.Measurements.get_distribution, m)
    c = counts_model(cx)(cx.I, m).counted
    (f,) = V.norm_segs(got["d"].segs)
    cx.prove(f.n == c.m, "one entry per counted bitstring")

    def body(a):
        k, p = V.inst(f, a)
        return V.conj([V.eqv(k, text(cx, c.W(a))), V.eqv(p, SReal(z3.ToReal(c.cnt(a)) / z3.ToReal(N.t)))])

    cx.prove(V.holds_generic(c.m, body), "counts divided by the number of shots")


@obligation("C10")
def counts_in(cx):
    """Measurements.from_counts / add_counts: the list of shots is the previous list followed by every bitstring of the
    dictionary, in order, as often as counted"""
    setup(cx, 0)
    K = cx.int("K", 0)
    cnt = z3.Function("cnt", Zi, Zi)
    cx.forall(K, lambda j: SBool(cnt(j.t) >= 0))
    a, p = V.index_var("a"), V.index_var("p")
    d = PyDict((Fam(K.t, a, (text(cx, a), SInt(cnt(a)))),))
    cx.freeze(d)
    distinct_keys(cx.e, K.t, a, text(cx, a))
    want = (Flat(K.t, a, (Fam(cnt(a), p, shot(cx, a)),)),)
    m = cx.call(ms.Measurements.from_counts, d)
    cx.same(cx.get(m, "bitstrings"), PyList(want), "shots of from_counts")
    P = cx.int("P", 0)
    before = PyList((Fam(P.t, a, Item("shot", a)),))
    m = cx.call(ms.Measurements, before)
    cx.call(ms.Measurements.add_counts, m, d)
    cx.same(cx.get(m, "bitstrings"), PyList((Fam(P.t, a, Item("shot", a)),) + want), "shots of add_counts")


class Item(Abs):
    pass


def tally(cx, h):
    """number of shots with property h"""
    i = V.index_var("i")
    return SInt(V.sum_term(cx.N.t, i, z3.If(h(i), z3.IntVal(1), z3.IntVal(0))))


def parities(cx):
    nq, N = setup(cx)
    M = cx.int("M", 1)
    cx.contract(pr.check_parity_of_vector, parity_model)
    x = shots(cx)
    cx.freeze(x)
    return cx.call(pr.get_parities_from_measurements, x, Operator(M)), M


@obligation("C10")
def parity_values(cx):
    """get_parities_from_measurements, values: how many shots have even and how many have odd parity on every term"""
    r, M = parities(cx)
    got = cx.get(r, "values")
    cx.prove(len(got.shape) == 2 and got.shape[0] == M and got.shape[1] == 2, "shape")
    par = lambda j, i: tot(cx, qset(cx.nq, j), i) % 2
    for b in (0, 1):
        ok = lambda j: V.eqv(got.elem(j, z3.IntVal(b)), tally(cx, lambda i: par(j, i) == b))
        cx.prove(V.holds_generic(M.t, ok), f"column {b}")


@obligation("C10")
def parity_correlations(cx):
    """get_parities_from_measurements, correlations: one frame; entry (j, k) tells how many shots have equal and how many have
    different parities on the terms j and k"""
    r, M = parities(cx)
    (got,) = [s.v for s in V.segs_of(cx.get(r, "correlations"))]
    par = lambda j, i: tot(cx, qset(cx.nq, j), i) % 2
    cx.prove(len(got.shape) == 3 and got.shape[0] == M and got.shape[1] == M and got.shape[2] == 2, "shape")
    for b, rel in ((0, lambda x, y: x == y), (1, lambda x, y: x != y)):
        ok = lambda j, k: V.eqv(got.elem(j, k, z3.IntVal(b)), tally(cx, lambda i: rel(par(j, i), par(k, i))))
        cx.prove(V.holds_generic(M.t, lambda j: V.holds_generic(M.t, lambda k: ok(j, k))), f"slice {b}")


@obligation("C10")
def parity_scalar(cx):
    """check_parity: True exactly when an even number of the marked positions of the bitstring (tuple or text) are one"""
    nq, N = setup(cx, 0)
    s = qset(nq, z3.Int("t"))
    a = z3.Int("shot")
    x = shot(cx, a) if cx.pick(2) else text(cx, a)
    r = cx.call(pr.check_parity, x, s)
    cx.prove(SBool(tot(cx, s, a) % 2 == 0) == r, "parity")

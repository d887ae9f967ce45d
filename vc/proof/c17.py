"""C17: distributions - construction and normalisation, marginals, distances, text keys.

An outcome is a tuple identified by a key; its length and digits are functions of the key.  A dictionary of N outcomes
(N symbolic) has N pairwise different keys."""
from vc.pyvc.driver import *
from vc.pyvc.driver import V, z3
from vc.pyvc.lin import Meth
from vc.pyvc.shims import distinct_keys
import json
import math
import sys
import numpy as np
from orquestra.quantum.distributions import _measurement_outcome_distribution as md, mmd, clipped_negative_log_likelihood as cn, jensen_shannon_divergence as js

TRUSTED = ["dictionaries keep insertion order and have pairwise different keys", "two outcome tuples are equal iff they have the same key",
           "machine floats are treated as real numbers (no overflow, nan or rounding)"]
ASSUMPTIONS = []
MOD = md.MeasurementOutcomeDistribution
Z, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
LEN, DIG = z3.Function("len", Z, Z), z3.Function("digit", Z, Z, Z)
INTEGER = z3.Function("digit is an integer", Z, Z, B)


class Digit:
    """an entry of an unchecked key: an integer, or something else"""

    __pyvc_value__ = True

    def __init__(self, k, i):
        self.k, self.i = k, i

    def __pyvc_isinstance__(self, I, cls):
        if cls is int:
            return I.e.choose(INTEGER(self.k, self.i))
        if cls is np.integer:
            return False
        raise Unsupported("class of a digit")

    def __ge__(self, o):
        return SInt(DIG(self.k, self.i)) >= o

    def __gt__(self, o):
        return SInt(DIG(self.k, self.i)) > o

    def __le__(self, o):
        return SInt(DIG(self.k, self.i)) <= o

    def __lt__(self, o):
        return SInt(DIG(self.k, self.i)) < o

    def __pyvc_subst__(self, f):
        return Digit(f(self.k), f(self.i))

    def __pyvc_syntax__(self):
        return (self.k, self.i)


class Out:
    """an outcome tuple"""

    __pyvc_value__ = True

    def __init__(self, k, checked=True):
        self.k, self.checked = k, checked

    def __pyvc_key__(self):
        return self.k

    def __pyvc_isinstance__(self, I, cls):
        return cls in (tuple, object)

    def __pyvc_class__(self, I):
        return tuple

    def __pyvc_len__(self, I):
        n = LEN(self.k)
        I.e.add(n >= 0)
        return SInt(n)

    def digit(self, i):
        return SInt(DIG(self.k, i)) if self.checked else Digit(self.k, i)

    def __pyvc_iter__(self, I):
        i = V.index_var("d")
        return (Fam(self.__pyvc_len__(I).t, i, self.digit(i)),)

    def __pyvc_getitem__(self, I, i):
        i = toint(force(i))
        if not I.e.choose(z3.And(i >= 0, i < LEN(self.k))):
            raise IndexError("tuple index out of range")
        return self.digit(i)

    def __pyvc_eqv__(self, o):
        return isinstance(o, Out) and self.k == o.k

    def __pyvc_eq__(self, I, o):
        o = force(o)
        if isinstance(o, Out):
            return mkbool(self.k == o.k)
        raise Unsupported("comparison of an outcome")

    def __pyvc_subst__(self, f):
        return Out(f(self.k), self.checked)

    def __pyvc_syntax__(self):
        return (self.k, z3.BoolVal(self.checked))


def table(cx, name, checked=True, low=1):
    """a dictionary of N different outcomes with values"""
    n = cx.int(name + ".n", low)
    K, P = z3.Function(name + ".key", Z, Z), z3.Function(name + ".p", Z, R)
    j = V.index_var("j")
    distinct_keys(cx.e, n.t, j, Out(K(j), checked))
    d = PyDict()
    d.segs = (Fam(n.t, j, (Out(K(j), checked), SReal(P(j)))),)
    d.n, d.K, d.P = n, K, P
    return d


def valid(cx, d, width=True):
    """a well-formed dictionary: values not negative, keys of one length, digits not negative"""
    a, b = V.index_var("a"), V.index_var("b")
    cx.e.add_qfact(d.n.t, a, d.P(a) >= 0)
    d.w = cx.int("w", 0)
    cx.e.add_qfact(d.n.t, a, LEN(d.K(a)) == d.w.t)
    cx.e.add_qfact(d.n.t, a, z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < LEN(d.K(a))), DIG(d.K(a), b) >= 0), patterns=[DIG(d.K(a), b)]))


def total(d):
    j = V.index_var("j")
    return V.sum_term(d.n.t, j, d.P(j))


def plain_dict(d):
    c = PyDict()
    c.segs = d.segs
    return c


@obligation("C17")
def construction(cx):
    """MeasurementOutcomeDistribution(valid input of N outcomes, normalize): the outcomes of the input in order with the values of the
    input divided by their sum (the values themselves when the sum is 1 within 1e-9); the sum of the values is then 1 (within 1e-9); a
    total of 0 or below the smallest float is refused; the input dictionary is not written and not aliased"""
    d = table(cx, "d")
    valid(cx, d)
    cx.freeze(d)
    s = cx.I.call(sum, [cx.I.call(cx.get(d, "values"), [])])
    norm = cx.pick(2) == 1
    k, r = cx.attempt(MOD, d, norm) if cx.pick(2) else cx.attempt(MOD, d, normalize=norm) if not norm else cx.attempt(MOD, d)
    close = cx.I.call(math.isclose, [s, 1])
    if k == "exc":
        cx.prove(isinstance(r, ValueError), "ValueError")
        cx.prove(norm, "only when normalising")
        cx.prove(SBool(z3.And(toreal(s) < toreal(sys.float_info.min))), "only totals that are too small are refused")
        return
    got = cx.get(r, "distribution_dict")
    cx.prove(isinstance(got, PyDict) and got is not d, "a new dictionary")
    cx.prove(cx.len(got) == d.n, "number of outcomes")
    scaled = norm and not cx.choose(zbool(close.t if isinstance(close, SBool) else close))

    def entry(j):
        kv = V.inst(got.segs[0], toint(j)) if len(got.segs) == 1 and isinstance(got.segs[0], Fam) else None
        if kv is None:
            raise Unsupported("entries of the dictionary")
        kk, vv = force(kv[0]), force(kv[1])
        p = d.P(toint(j))
        return z3.And(kk.k == d.K(toint(j)), toreal(vv) * toreal(s) == p if scaled else toreal(vv) == p)

    cx.each(d.n, entry, "entries")
    if norm:
        s2 = cx.I.call(sum, [cx.I.call(cx.get(got, "values"), [])])
        if scaled:
            cx.same(SReal(toreal(s2)), SReal(z3.RealVal(1)), "the values sum to 1")
        else:
            c2 = cx.I.call(math.isclose, [s2, 1])
            cx.prove(c2, "the values sum to 1")
    cx.prove(SBool(toreal(s) >= toreal(sys.float_info.min)) if norm else True, "totals that are too small are refused")
    cx.prove(cx.get(r, "distribution_dict") is got, "the same dictionary")


@obligation("C17")
def rejected(cx):
    """construction of any dictionary of N >= 0 tuples: refused with RuntimeError exactly when it is empty, a value is negative, the lengths
    differ, or a digit is not a non-negative integer"""
    d = table(cx, "d", False, 0)
    k, r = cx.attempt(md.is_measurement_outcome_distribution, d)
    cx.prove(k == "ok", "no error")
    ok = cx.choose(zbool(r.t) if isinstance(r, SBool) else z3.BoolVal(bool(r)))
    n = d.n.t
    if ok:
        cx.prove(SBool(n >= 1), "not empty")
        cx.each(d.n, lambda j: d.P(toint(j)) >= 0, "no negative value")
        cx.each(d.n, lambda j: LEN(d.K(toint(j))) == LEN(d.K(z3.IntVal(0))), "one length")

        def digits(j):
            k = d.K(toint(j))
            return V.holds_generic(LEN(k), lambda i: z3.And(INTEGER(k, toint(i)), DIG(k, toint(i)) >= 0))

        cx.each(d.n, digits, "digits are integers, not negative")
        return
    # a reason exists: the well-formed dictionaries are accepted
    a, b = V.index_var("a"), V.index_var("b")
    cx.assume(n >= 1)
    cx.e.add_qfact(n, a, d.P(a) >= 0)
    cx.e.add_qfact(n, a, LEN(d.K(a)) == LEN(d.K(z3.IntVal(0))))
    cx.e.add_qfact(n, a, z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < LEN(d.K(a))), z3.And(INTEGER(d.K(a), b), DIG(d.K(a), b) >= 0)), patterns=[DIG(d.K(a), b)]))
    cx.prove(SBool(z3.BoolVal(False)), "well-formed dictionaries are accepted")


@obligation("C17")
def refused(cx):
    """construction from a dictionary that is not well-formed: RuntimeError, normalising or not"""
    d = table(cx, "d", False, 0)
    cx.contract(md.is_measurement_outcome_distribution, lambda I, x: False)
    cx.freeze(d)
    cx.raises(RuntimeError, MOD, d, cx.pick(2) == 1)


@obligation("C17")
def keys_of_other_kinds(cx):
    """construction from a dictionary with a key that is neither a tuple nor a text: RuntimeError"""
    d = PyDict.of([((5, None, 1.5)[cx.pick(3)], cx.real("p"))])
    cx.raises(RuntimeError, MOD, d)


# ---------------------------------------------------------------- marginals
class Different:
    """the set of the elements of a list with a repetition"""

    __pyvc_value__ = True

    def __pyvc_len__(self, I):
        return SInt(DIFF)


DIFF = z3.Int("different qubits")
TRUSTED.append("the set of the elements of a list with a repetition has fewer elements than the list")


PROJ = z3.Function("projected", Z, Z)
Q = z3.Function("qubit", Z, Z)


@obligation("C17")
def marginal(cx):
    """subdistribution(m different qubits in any order) of a distribution of N outcomes: one entry for every projected outcome (the digits at
    the listed qubits in the listed order), in order of first occurrence, with the sum of the values of the outcomes projecting to it;
    the source is not written; repeated qubits or qubits out of range: ValueError"""
    d = table(cx, "d")
    valid(cx, d)
    src = object.__new__(MOD)
    src.__dict__["distribution_dict"] = d
    cx.freeze(src)
    m = cx.int("m", 1)
    j = V.index_var("q")
    qs = PyList((Fam(m.t, j, SInt(Q(j))),))
    cx.freeze(qs)
    made = []

    def ctor(I, data, normalize=True):
        made.append((data, normalize))
        o = object.__new__(MOD)
        o.__dict__["distribution_dict"] = data
        return o

    cx.contract(MOD, ctor)
    okq = cx.pick(2) == 1
    if okq:
        a, b = V.index_var("a"), V.index_var("b")
        cx.e.add_qfact(m.t, a, z3.And(Q(a) >= 0, Q(a) < d.w.t))
        distinct_keys(cx.e, m.t, a, SInt(Q(a)))
    else:
        x, y = cx.int("x", 0), cx.int("y", 0)
        cx.assume(x < m)
        if cx.pick(2):
            cx.assume(SBool(Q(x.t) >= d.w.t))
        else:
            cx.assume(x < y)
            cx.assume(y < m)
            cx.assume(SBool(Q(x.t) == Q(y.t)))
            old = cx.I.shims[set]
            cx.I.shims[set] = lambda I, it=(): Different() if force(it) is qs else old(I, it)
            cx.assume(SBool(DIFF < m.t))
        cx.e.reg_index(x.t)
        cx.e.reg_index(z3.simplify(x.t - 1))
        cx.e.reg_index(y.t)
        cx.raises(ValueError, MOD.subdistribution, src, qs)
        return

    def tuple_key(segs):
        """the key of a tuple of digits: only the projection of an outcome has one"""
        if len(segs) != 1 or not isinstance(segs[0], Fam):
            raise ProofFailed("projected outcome", "another number of digits")
        f = segs[0]
        x = force(V.inst(f, z3.Int("ix_probe")))
        t = x.t if isinstance(x, SInt) else None
        if t is None or not (z3.is_app(t) and t.decl().eq(DIG)):
            raise ProofFailed("projected outcome", "entries are not digits of the outcome")
        k = t.arg(0)
        want = PyTuple((Fam(m.t, f.var, SInt(DIG(k, Q(f.var)))),))
        c = V.eqv(PyTuple(segs), want)
        if c is not True and not cx.e.valid(zbool(c)):
            raise ProofFailed("projected outcome", "the digits are not those at the listed qubits")
        return PROJ(k)

    cx.e.tuple_key = tuple_key
    k, r = cx.attempt(MOD.subdistribution, src, qs)
    cx.prove(k == "ok", "no error")
    got, norm = made[0]
    cx.prove(len(made) == 1, "one distribution")
    E = V.index_var("e")
    from vc.pyvc import groups

    gr = groups.grouping(cx.e, d.n.t, E, SInt(PROJ(d.K(E))))
    cx.prove(cx.len(got) == SInt(gr.G), "one entry for every projected outcome")
    u = V.index_var("u")

    def entry(g):
        kv = force(V.inst(got.segs[0], toint(g)))
        g = toint(g)
        key = tuple_key(V.segs_of(force(kv[0])))
        inner = V.sum_term(gr.size(g), u, d.P(gr.mem(g, u)))
        return z3.And(key == PROJ(d.K(gr.mem(g, z3.IntVal(0)))), toreal(kv[1]) == toreal(inner))

    cx.prove(SBool(z3.Implies(zbool(norm), zbool(cx.I.call(math.isclose, [SReal(total(d)), 1])))), "values are scaled only when they sum to 1")
    cx.each(SInt(gr.G), entry, "sums of the values of the outcomes projecting to it")


# ---------------------------------------------------------------- distances
class Prob:
    """the dictionary of a distribution, known through the probability of an outcome (0 when it is not in the dictionary)"""

    __pyvc_value__ = True

    def __init__(self, name):
        self.name = name
        self.IN, self.P = z3.Function(name + " has", Z, B), z3.Function(name + ".p", Z, R)

    def p(self, k):
        core.cur.add(z3.Implies(self.IN(k), self.P(k) >= 0))
        return z3.If(self.IN(k), self.P(k), z3.RealVal(0))

    def __pyvc_getattr__(self, I, name):
        if name == "keys":
            return Meth(lambda I: Keys([self]))
        if name == "get":
            return Meth(self.get)
        raise Unsupported(f"{name} of the dictionary of a distribution")

    def get(self, I, k, default=None):
        k = force(k)
        if not isinstance(k, Out):
            raise Unsupported("key")
        d = force(default)
        if isinstance(d, (int, float)) and not isinstance(d, bool):
            core.cur.add(z3.Implies(self.IN(k.k), self.P(k.k) >= 0))
            return SReal(z3.If(self.IN(k.k), self.P(k.k), toreal(d)))
        if I.e.choose(self.IN(k.k)):
            return SReal(self.P(k.k))
        return default

    def __pyvc_contains__(self, I, k):
        return mkbool(self.IN(force(k).k))

    def __pyvc_getitem__(self, I, k):
        if not I.e.choose(self.IN(force(k).k)):
            raise KeyError("outcome")
        return SReal(self.P(force(k).k))

    def __pyvc_iter__(self, I):
        return Keys([self]).__pyvc_iter__(I)

    def __pyvc_set__(self, I, cls):
        return Keys([self])

    def __pyvc_eqv__(self, o):
        return self is o

    def __pyvc_syntax__(self):
        return (z3.Int(self.name),)

    def __pyvc_subst__(self, f):
        return self


class Keys:
    """the outcomes of some dictionaries, without repetition, in an unknown order"""

    __pyvc_value__ = True

    def __init__(self, of):
        self.of = [x for k, x in enumerate(of) if x not in of[:k]]
        self.name = "+".join(x.name for x in self.of)

    def __pyvc_set__(self, I, cls):
        return self

    def __pyvc_getattr__(self, I, name):
        if name == "union":
            return Meth(lambda I, *o: Keys(self.of + [x for y in o for x in Keys.of(y)]))
        if name == "copy":
            return Meth(lambda I: self)
        raise Unsupported(f"{name} of a set of outcomes")

    @staticmethod
    def of(y):
        y = force(y)
        if isinstance(y, Prob):
            return [y]
        if isinstance(y, Keys):
            return y.of
        raise Unsupported("union with another kind of set")

    def __or__(self, o):
        return Keys(self.of + Keys.of(o))

    def size(self):
        n = z3.Int(f"number of outcomes of {self.name}")
        core.cur.add(n >= 1)
        return n

    def key(self, j):
        k = z3.Function(f"outcome of {self.name}", Z, Z)(j)
        return k

    def __pyvc_len__(self, I):
        return SInt(self.size())

    def __pyvc_iter__(self, I):
        j = V.index_var("k")
        distinct_keys(I.e, self.size(), j, Out(self.key(j)))
        a = V.index_var("a")
        I.e.add_qfact(self.size(), a, z3.Or(*[x.IN(self.key(a)) for x in self.of]))
        I.e.add_qfact(self.size(), a, z3.And(*[z3.Implies(x.IN(self.key(a)), x.P(self.key(a)) >= 0) for x in self.of]))
        return (Fam(self.size(), j, Out(self.key(j))),)

    def __pyvc_eqv__(self, o):
        return isinstance(o, Keys) and set(self.of) == set(o.of)

    def __pyvc_syntax__(self):
        return (z3.Int(self.name),)

    def __pyvc_subst__(self, f):
        return self


Keys.of = staticmethod(Keys.of)


def dist(name):
    o = object.__new__(MOD)
    o.__dict__["distribution_dict"] = Prob(name)
    return o


LOG, EXP = z3.Function("log", R, R), z3.Function("exp", R, R)
TRUSTED += ["the union of the outcomes of two dictionaries has every outcome once", "log x <= x - 1", "the kernel matrix exp(-g (x_i - x_j)^2), g > 0, is positive semi-definite"]


def log_shim(I, x):
    t = toreal(x)
    if not I.e.valid(t > 0):
        raise ValueError("math domain error")
    return SReal(LOG(t))


def pair(cx):
    cx.I.shims[math.log] = log_shim
    t, m = dist("target"), dist("measured")
    cx.freeze(t)
    cx.freeze(m)
    return t, m


def smax(a, b):
    return z3.If(a >= b, a, b)


def likelihood(ks, P, Q, eps):
    j = V.index_var("k")
    k = ks.key(j)
    return -V.sum_term(ks.size(), j, z3.simplify(P.p(k) * LOG(z3.If(Q.p(k) > eps, Q.p(k), eps))))


@obligation("C17")
def likelihood_value(cx):
    """compute_clipped_negative_log_likelihood(P, Q, epsilon or the default 1e-9) == - sum over all outcomes of P or Q of P(k) log(max(epsilon, Q(k)))"""
    t, m = pair(cx)
    P, Q = t.distribution_dict, m.distribution_dict
    if cx.pick(2):
        eps = cx.real("epsilon")
        cx.assume(eps > 0)
        params = PyDict.of([("epsilon", eps)])
    else:
        eps, params = 1e-9, PyDict.of([])
    cx.freeze(params)
    r = cx.call(cn.compute_clipped_negative_log_likelihood, t, m, params)
    cx.same(SReal(toreal(r)), SReal(likelihood(Keys([P, Q]), P, Q, toreal(eps))), "value")


@obligation("C17")
def likelihood_bound(cx):
    """the clipped negative log-likelihood of P under Q is at least the entropy of P minus epsilon times the number of outcomes (lemma over the
    value contract)"""
    t, m = pair(cx)
    P, Q = t.distribution_dict, m.distribution_dict
    eps = cx.real("epsilon")
    cx.assume(eps > 0)
    ks = Keys([P, Q])
    ks.__pyvc_iter__(cx.I)
    j = V.index_var("k")

    def terms(k):
        p, q = P.p(k), Q.p(k)
        M = z3.If(q > eps.t, q, eps.t)
        return p, q, M

    def gap(jj):
        # P log P + Q + epsilon - P - P log M >= 0 for every outcome
        p, q, M = terms(ks.key(toint(jj)))
        L, LP = LOG(M), LOG(p)
        return z3.Implies(z3.Implies(p > 0, p * (L - LP) <= M - p), p * LP * z3.If(p > 0, z3.RealVal(1), z3.RealVal(0)) + q + eps.t - p - p * L >= 0)

    cx.each(SInt(ks.size()), gap, "each outcome, given p (log M - log p) <= M - p")
    # the sums: the difference of the two sides is the sum of the gaps plus sum P - sum Q
    p, q, M = terms(ks.key(j))
    S = lambda t: V.sum_term(ks.size(), j, z3.simplify(t))
    ind = z3.If(p > 0, z3.RealVal(1), z3.RealVal(0))
    G = S(p * LOG(p) * ind + q + eps.t - p - p * LOG(M))
    cx.assume(SBool(z3.And(S(p) == 1, S(q) == 1, G >= 0)))
    H = -S(p * LOG(p) * ind)
    cx.prove(SBool(likelihood(ks, P, Q, eps.t) >= H - eps.t * z3.ToReal(ks.size())), "lower bound")


@obligation("C17")
def divergence(cx):
    """compute_jensen_shannon_divergence(P, Q) == (L(P, Q) + L(Q, P)) / 2 for the likelihood L with the same parameters; symmetric"""
    F = z3.Function("likelihood", Z, Z, Z, R)
    ids = {}

    def L(I, a, b, params):
        n = [ids[id(force(x))] for x in (a, b, params)]
        return SReal(F(*[z3.IntVal(x) for x in n]))

    cx.contract(cn.compute_clipped_negative_log_likelihood, L)
    t, m = pair(cx)
    params = PyDict.of([("epsilon", cx.real("epsilon"))])
    for k, x in enumerate((t, m, params)):
        ids[id(x)] = k
    a = cx.call(js.compute_jensen_shannon_divergence, t, m, params)
    b = cx.call(js.compute_jensen_shannon_divergence, m, t, params)
    V_ = [z3.IntVal(k) for k in range(3)]
    cx.prove(SBool(toreal(a) == (F(V_[0], V_[1], V_[2]) + F(V_[1], V_[0], V_[2])) / 2), "value")
    cx.prove(SBool(toreal(a) == toreal(b)), "symmetric")


CODE = z3.Function("code", Z, Z, Z)
KER = z3.Function("kernel", Z, Z, R)


def kernel_setup(cx):
    from vc.pyvc import sarr

    sarr.install(cx.I)
    old = cx.I.shims.get(np.exp)
    S = cx.I.shims
    S[np.exp] = lambda I, x: force(x).map(lambda v: SReal(EXP(toreal(v)))) if isinstance(force(x), sarr.FArr) else SReal(EXP(toreal(x)))
    return sarr


@obligation("C17")
def kernel(cx):
    """compute_rbf_kernel(x, y, sigma)[i, j] == exp(-(x_i - y_j)^2 / (2 sigma)), sigma != 0"""
    sarr = kernel_setup(cx)
    n, m, s = cx.int("n", 1), cx.int("m", 1), cx.real("sigma")
    cx.assume(SBool(s.t != 0))
    X, Y = z3.Function("x", Z, Z), z3.Function("y", Z, Z)
    x = sarr.FArr.fn((n,), lambda i: SInt(X(i)), "i")
    y = sarr.FArr.fn((m,), lambda i: SInt(Y(i)), "i")
    r = cx.call(mmd.compute_rbf_kernel, x, y, s)
    want = sarr.FArr.fn((n, m), lambda i, j: SReal(EXP(-(1 / (2 * s.t)) * z3.ToReal((X(i) - Y(j)) * (X(i) - Y(j))))), "f")
    cx.same(r, want, "entries")


@obligation("C17")
def kernels(cx):
    """compute_multi_rbf_kernel(x, y, sigmas)[i, j] == mean over the sigmas (any number) of exp(-(x_i - y_j)^2 / (2 sigma))"""
    sarr = kernel_setup(cx)
    n, m, k = cx.int("n", 1), cx.int("m", 1), cx.int("k", 1)
    X, Y, G = z3.Function("x", Z, Z), z3.Function("y", Z, Z), z3.Function("sigma", Z, R)
    x = sarr.FArr.fn((n,), lambda i: SInt(X(i)), "i")
    y = sarr.FArr.fn((m,), lambda i: SInt(Y(i)), "i")
    sig = cx.reals("sigma", k)
    cx.forall(k, lambda j: SBool(G(toint(j)) != 0))
    r = cx.call(mmd.compute_multi_rbf_kernel, x, y, sig)
    q = V.index_var("q")
    want = sarr.FArr.fn((n, m), lambda i, j: SReal(V.sum_term(k.t, q, EXP(-(1 / (2 * G(q))) * z3.ToReal((X(i) - Y(j)) * (X(i) - Y(j))))) / z3.ToReal(k.t)), "f")
    cx.same(r, want, "entries")


def quadratic(ks, P, Q, columns=False):
    i, j = V.index_var("i"), V.index_var("j")
    d = lambda t: P.p(ks.key(t)) - Q.p(ks.key(t))
    inner = V.sum_term(ks.size(), j, z3.simplify((KER(ks.key(j), ks.key(i)) if columns else KER(ks.key(i), ks.key(j))) * d(j)))
    return V.sum_term(ks.size(), i, z3.simplify(d(i) * inner))


@obligation("C17")
def discrepancy(cx):
    """compute_mmd(P, Q) == sum over pairs of outcomes of (P - Q)(a) (P - Q)(b) kernel(a, b), for the default bandwidth, a number or a
    sequence of bandwidths; with the kernel of the integer codes of the outcomes against themselves"""
    sarr = kernel_setup(cx)
    t, m = pair(cx)
    P, Q = t.distribution_dict, m.distribution_dict
    ks = Keys([P, Q])
    k = cx.pick(3)
    sigma = [None, cx.real("sigma"), cx.reals("sigmas", cx.int("k", 1))][k]
    params = PyDict.of([] if k == 0 else [("sigma", sigma)])
    cx.freeze(params)
    cx.contract(mmd._digits_to_int, lambda I, d, base: SInt(CODE(force(d).k, toint(base))))
    calls = []

    def rbf(multi):
        def model(I, x, y, s):
            if multi != (k == 2):
                raise ProofFailed("kernel", "the kernel of the other kind of bandwidth")
            I.e.prove(V.eqv(force(s), sigma if k else 1.0) if k else z3.BoolVal(force(s) == 1.0), "bandwidth")
            x, y = force(x), force(y)

            def key(a):
                t = z3.simplify(toint(a))
                if not (z3.is_app(t) and t.decl().eq(CODE)):
                    raise ProofFailed("kernel", "arguments are not the codes of the outcomes")
                calls.append(t.arg(1))
                return t.arg(0)

            return sarr.FArr.fn((x.shape[0], y.shape[0]), lambda i, j: SReal(KER(key(x.elem(i)), key(y.elem(j)))), "f")

        return model

    cx.contract(mmd.compute_rbf_kernel, rbf(False))
    cx.contract(mmd.compute_multi_rbf_kernel, rbf(True))
    r = cx.call(mmd.compute_mmd, t, m, params)
    cx.prove(SBool(z3.And(*[c == calls[0] for c in calls])), "one base for all codes")
    cx.prove(SBool(toint(calls[0]) >= 2), "base at least 2")
    # every digit of every outcome is smaller than the base: different outcomes of one length have different codes
    ks.__pyvc_iter__(cx.I)
    cx.each(SInt(ks.size()), lambda j: V.holds_generic(LEN(ks.key(toint(j))), lambda i: DIG(ks.key(toint(j)), toint(i)) < calls[0]), "digits are smaller than the base")
    # (two finite sums may be exchanged: row by row or column by column)
    c = V.eqv(SReal(toreal(r)), SReal(quadratic(ks, P, Q)))
    if c is not True and not cx.e.valid(zbool(c)):
        cx.e.trusted.add("the order of two finite sums does not matter")
        c = V.eqv(SReal(toreal(r)), SReal(quadratic(ks, P, Q, True)))
    cx.prove(c, "value")


@obligation("C17")
def discrepancy_laws(cx):
    """lemmas over the value contract of compute_mmd: 0 between a distribution and itself; the same value with the two exchanged"""
    P, Q = Prob("target"), Prob("measured")
    ks = Keys([P, Q])
    cx.same(SReal(quadratic(ks, P, Q)), SReal(quadratic(ks, Q, P)), "symmetric")
    cx.same(SReal(quadratic(Keys([P]), P, P)), SReal(z3.RealVal(0)), "zero")


# ---------------------------------------------------------------- texts of outcomes
def outcome(cx):
    """a tuple of L >= 0 non-negative integers"""
    L = cx.int("L", 0)
    f = z3.Function("entry", Z, Z)
    a = V.index_var("a")
    cx.e.add_qfact(L.t, a, f(a) >= 0)
    cx.e.reg_index(z3.IntVal(0))
    i = V.index_var("i")
    return PyTuple((Fam(L.t, i, SInt(f(i))),))


@obligation("C17")
def text_keys(cx):
    """the outcome -> text -> outcome conversions used by saving and loading: preprocess_distibution_dict({text of k: p}) == {k: p} for
    every tuple k of non-negative integers of any length"""
    k = outcome(cx)
    p = cx.real("p")
    t = cx.call(md.change_tuple_dict_keys_to_comma_separated_integers, PyDict.of([(k, p)]))
    cx.prove(cx.len(t) == 1, "one text")
    r = cx.call(md.preprocess_distibution_dict, t)
    cx.prove(cx.len(r) == 1, "one outcome")
    (kk, v), = [force(s.v) for s in r.segs]
    cx.same(force(kk) if not isinstance(force(kk), tuple) else PyTuple(V.segs_of(force(kk))), k, "outcome")
    cx.same(v, p, "value")


class Text:
    """the text of an outcome: pieces (of the text without trailing commas split at the commas, or the characters when there is no comma) are the
    texts of its digits (text_keys)"""

    __pyvc_value__ = True

    def __init__(self, k, stage="text"):
        self.k, self.stage = k, stage

    def __pyvc_isinstance__(self, I, cls):
        return cls in (str, object)

    def __pyvc_class__(self, I):
        return str

    def __pyvc_key__(self):
        return self.k

    COMMA = z3.Function("text has a comma", Z, B)

    def __pyvc_contains__(self, I, x):
        if self.stage != "text" or force(x) != ",":
            raise Unsupported("substring of the text of an outcome")
        return mkbool(self.COMMA(self.k))

    def __pyvc_getattr__(self, I, name):
        if name == "rstrip" and self.stage == "text":
            return Meth(lambda I, c: Text(self.k, "stripped") if c == "," else _no("rstrip"))
        if name == "split" and self.stage == "stripped":
            return Meth(lambda I, c: Text(self.k, "pieces") if c == "," else _no("split"))
        return _no(name)

    def __pyvc_iter__(self, I):
        if self.stage == "pieces" or self.stage == "text" and not I.e.choose(self.COMMA(self.k)):
            i = V.index_var("d")
            n = LEN(self.k)
            I.e.add(n >= 0)
            return (Fam(n, i, SStr([("str", SInt(DIG(self.k, i)))])),)
        return _no("iteration")

    def __pyvc_eqv__(self, o):
        return isinstance(o, Text) and self.stage == o.stage and self.k == o.k

    def __pyvc_eq__(self, I, o):
        return mkbool(self.k == force(o).k) if isinstance(force(o), Text) else False

    def __pyvc_subst__(self, f):
        return Text(f(self.k), self.stage)

    def __pyvc_syntax__(self):
        return (self.k,)


def _no(what):
    raise Unsupported(f"{what} of the text of an outcome")


def whole_key(cx):
    def tuple_key(segs):
        if len(segs) == 1 and isinstance(segs[0], Fam):
            x = force(V.inst(segs[0], z3.Int("ix_probe")))
            t = x.t if isinstance(x, SInt) else None
            if t is not None and z3.is_app(t) and t.decl().eq(DIG) and cx.e.valid(z3.And(t.arg(1) == z3.Int("ix_probe"), segs[0].n == LEN(t.arg(0)))):
                return t.arg(0)
        raise ProofFailed("outcome", "not the digits of an outcome")

    cx.e.tuple_key = tuple_key


def same_table(cx, got, d, what):
    cx.prove(cx.len(got) == d.n, what + ": number of outcomes")

    def entry(j):
        (s,) = got.segs
        kv = V.inst(s, toint(j))
        kk, vv = force(kv[0]), force(kv[1])
        k = kk.k if isinstance(kk, (Out, Text)) else cx.e.tuple_key(V.segs_of(kk))
        return z3.And(k == d.K(toint(j)), toreal(vv) == d.P(toint(j)))

    cx.each(d.n, entry, what)


@obligation("C17")
def tables_as_texts(cx):
    """dictionaries of N outcomes: change_tuple_dict_keys_to_comma_separated_integers gives the texts of the outcomes with the same values in the
    same order, and preprocess_distibution_dict of it gives the outcomes back (per outcome: text_keys; outcomes without digits, of which
    there is one only: text_keys)"""
    d = table(cx, "d")
    valid(cx, d)
    cx.assume(d.w >= 1)
    cx.freeze(d)
    whole_key(cx)
    cx.contract(md._tuple_to_comma_separated_integers, lambda I, k: Text(force(k).k))
    t = cx.call(md.change_tuple_dict_keys_to_comma_separated_integers, d)
    same_table(cx, t, d, "texts")
    cx.prove(t is not d, "a new dictionary")
    cx.freeze(t)
    r = cx.call(md.preprocess_distibution_dict, t)
    same_table(cx, r, d, "outcomes")


class File:
    """a text file; the ghost disk keeps the documents written"""

    __pyvc_value__ = True

    def __init__(self, disk, name, mode):
        self.disk, self.name, self.mode = disk, name, mode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __pyvc_getattr__(self, I, name):
        if name == "write" and self.mode == "w":
            return Meth(lambda I, x: self.disk[self.name].append(x))
        raise Unsupported(f"{name} of a file")


TRUSTED.append("json.load of a file holding json.dumps(x) alone is x for dictionaries of texts, lists and numbers")


def document(x):
    """what json.load(json.dumps(x)) gives: tuples become lists; numbers, texts and None come back; anything else is refused"""
    if isinstance(x, Cases):
        return Cases([(c, document(v)) for c, v in x.alts])
    if isinstance(x, (PyList, PyTuple, list, tuple)):
        return PyList(_document(V.segs_of(x)))
    if isinstance(x, (dict, PyDict)):
        items = tuple(One((k, v)) for k, v in x.items()) if isinstance(x, dict) else x.segs
        if any(not isinstance(s, One) or not isinstance(force(s.v)[0], str) for s in items):
            raise Unsupported("document with computed keys")
        return PyDict(tuple(One((force(s.v)[0], document(force(s.v)[1]))) for s in items))
    if x is None or isinstance(x, (bool, int, float, str, SInt, SReal, SBool, SStr)) and type(x).__module__ != "numpy":
        return x
    if hasattr(x, "__pyvc_json__"):
        return x.__pyvc_json__()
    if isinstance(x, Abs):
        return x
    raise ProofFailed("document", f"{type(x).__name__} is not JSON serialisable")


def _document(segs):
    out = []
    for s in segs:
        if isinstance(s, One):
            out.append(One(document(s.v)))
        elif isinstance(s, Fam):
            out.append(Fam(s.n, s.var, document(s.val)))
        elif isinstance(s, Flat):
            out.append(Flat(s.n, s.var, _document(s.segs)))
        elif isinstance(s, Guard):
            out.append(Guard(s.c, _document(s.segs)))
        else:
            raise Unsupported("document")
    return tuple(out)


def disk(cx, convert=lambda x: x, libs=(json,)):
    files, texts = {}, {}

    def open_(I, name, mode="r", **kw):
        name = force(name)
        if mode == "w":
            files[name] = []
        elif mode != "r":
            raise Unsupported("mode of a file")
        return File(files, name, mode)

    def dumps(I, x, **kw):
        t = SStr([("repr", Abs("document", z3.IntVal(len(texts))))])
        texts[id(t)] = (t, convert(x))
        return t

    def load(I, f):
        f = force(f)
        if not isinstance(f, File) or len(f.disk[f.name]) != 1 or id(f.disk[f.name][0]) not in texts:
            raise ProofFailed("document", "the file is not one document")
        return texts[id(f.disk[f.name][0])][1]

    def dump(I, x, f, **kw):
        force(f).disk[f.name].append(dumps(I, x))

    def loads(I, t):
        if id(force(t)) not in texts:
            raise ProofFailed("document", "the text is not one document")
        return texts[id(force(t))][1]

    S = cx.I.shims
    S[open] = open_
    for m in libs:
        S[m.dumps], S[m.load], S[m.dump], S[m.loads] = dumps, load, dump, loads


class Other(Abs):
    """not a distribution"""

    def __pyvc_isinstance__(self, I, cls):
        return False


class Made(Abs):
    """the distribution made from the outcomes of a table"""

    @property
    def distribution_dict(self):
        return Abs("outcomes", *self.key[1:])


def texts_of(cx):
    """contract of the conversions (tables_as_texts): tables identified by a key"""
    cx.contract(md.change_tuple_dict_keys_to_comma_separated_integers, lambda I, x: Abs("texts", *force(x).key[1:]) if isinstance(force(x), Abs) and force(x).key[0] == "outcomes" else _no("table"))

    def ctor(I, x, normalize=True):
        x = force(x)
        if not isinstance(x, Abs) or x.key[0] != "texts":
            raise ProofFailed("document", "a distribution is made from something else than the texts of its outcomes")
        return Made("dist", *x.key[1:])

    cx.contract(MOD, ctor)


@obligation("C17")
def saved_and_loaded(cx):
    """load_measurement_outcome_distribution after save_measurement_outcome_distribution(D, file), from the file name or an open file: the
    distribution constructed from the texts of the outcomes of D"""
    disk(cx)
    texts_of(cx)
    D = Made("dist", z3.Int("d"))
    cx.call(md.save_measurement_outcome_distribution, D, "file")
    cx.same(cx.call(md.load_measurement_outcome_distribution, "file" if cx.pick(2) else cx.I.call(open, ["file", "r"])), D, "loaded")


@obligation("C17")
def all_saved_and_loaded(cx):
    """load_measurement_outcome_distributions after save_measurement_outcome_distributions(N distributions, file): the same N in order"""
    disk(cx)
    texts_of(cx)
    n = cx.int("N", 0)
    Ds = cx.objs(Made, n, "dist")
    cx.freeze(Ds)
    cx.call(md.save_measurement_outcome_distributions, Ds, "file")
    cx.same(cx.call(md.load_measurement_outcome_distributions, "file" if cx.pick(2) else cx.I.call(open, ["file", "r"])), Ds, "loaded")


@obligation("C17")
def distance(cx):
    """evaluate_distribution_distance(P, Q, f, **parameters): f(P, Q, **parameters); refused with RuntimeError exactly when the outcomes of P and
    Q have different lengths or one of them only is normalised; TypeError for other kinds of arguments"""
    P, Q = object.__new__(MOD), object.__new__(MOD)
    P.__dict__["distribution_dict"], Q.__dict__["distribution_dict"] = a, b = Other("outcomes", z3.IntVal(0)), Other("outcomes", z3.IntVal(1))
    W, NORM = z3.Function("subsystems", Z, Z), z3.Function("normalised", Z, B)
    no = {id(P): 0, id(Q): 1}
    cx.contract(MOD.get_number_of_subsystems, lambda I, d: SInt(W(z3.IntVal(no[id(force(d))]))))
    cx.contract(md.is_normalized, lambda I, d: SBool(NORM(force(d).key[-1])))
    calls = []

    def f(I, x, y, **kw):
        calls.append((force(x), force(y), kw))
        return Abs("value")

    if cx.pick(2):
        cx.raises(TypeError, md.evaluate_distribution_distance, *((a, Q), (P, b), (a, b))[cx.pick(3)], Meth(f))
        return
    params = {"distance_measure_parameters": Abs("parameters")} if cx.pick(2) else {}
    k, r = cx.attempt(md.evaluate_distribution_distance, P, Q, Meth(f), **params)
    zero, one = z3.IntVal(0), z3.IntVal(1)
    fine = z3.And(W(zero) == W(one), NORM(zero) == NORM(one))
    if k == "exc":
        cx.prove(isinstance(r, RuntimeError), "RuntimeError")
        cx.prove(SBool(z3.Not(fine)), "only inconsistent distributions are refused")
        cx.prove(not calls, "no distance")
        return
    cx.prove(SBool(fine), "inconsistent distributions are refused")
    cx.prove(len(calls) == 1 and calls[0][0] is P and calls[0][1] is Q and list(calls[0][2]) == list(params), "the distance of the two")
    for key in params:
        cx.same(calls[0][2][key], params[key], "parameters")
    cx.same(r, Abs("value"), "value")


@obligation("C17")
def width(cx):
    """get_number_of_subsystems() of a distribution of N outcomes of one length: that length"""
    d = table(cx, "d")
    valid(cx, d)
    src = object.__new__(MOD)
    src.__dict__["distribution_dict"] = d
    cx.freeze(src)
    cx.same(cx.call(MOD.get_number_of_subsystems, src), d.w, "length")


@obligation("C17")
def integer_code(cx):
    """_digits_to_int(L digits, base): the fold c -> base c + digit from 0; one step determines c and the digit when digits are smaller
    than the base, so that different outcomes of one length have different codes (induction on the length)"""
    k, base = z3.Int("o"), cx.int("base", 2)
    o = Out(k)
    fold = z3.Function("fold", Z, Z)  # the code of the first m digits

    def horner(n, i, old, hv, vals):
        if len(vals) != 1 or vals[0][1] != "new" or force(old) != 0 or not isinstance(hv, SInt):
            return None
        if not cx.e.valid(z3.And(n == LEN(k), toint(vals[0][2]) == base.t * hv.t + toint(o.digit(i)))):
            return None
        return lambda m: SInt(fold(toint(m)))

    cx.e.add(fold(z3.IntVal(0)) == 0)
    cx.e.fold_patterns = [horner]
    r = cx.call(mmd._digits_to_int, o, base)
    cx.prove(SBool(toint(r) == fold(o.__pyvc_len__(cx.I).t)), "the fold over all digits in order")
    c, d, c2, d2 = cx.int("c"), cx.int("d", 0), cx.int("c2"), cx.int("d2", 0)
    s, s2 = base.t * c.t + d.t, base.t * c2.t + d2.t
    cx.assume(d < base)
    cx.assume(d2 < base)
    x = c2.t - c.t
    cx.e.add(z3.Implies(z3.And(x >= 1, base.t >= 2), base.t * x >= base.t))  # base (c2 - c) >= base > d - d2
    cx.prove(SBool(z3.Implies(s == s2, c.t >= c2.t)), "one step determines its arguments")

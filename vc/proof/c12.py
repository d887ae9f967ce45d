"""C12: wavefunctions stay normalised.

A vector of numbers is a symbolic complex array; a sympy matrix is a sequence of entries of which each is a number or contains symbols."""
from fractions import Fraction

import numpy as np
import sympy

from vc.pyvc import loops as core_loops
from vc.pyvc import bits, sarr
from vc.pyvc.driver import *
from vc.pyvc.driver import V, z3
from vc.pyvc.lin import Meth
import orquestra.quantum.wavefunction as wf
from orquestra.quantum import utils as ut

TRUSTED = ["machine floats are treated as real numbers (no overflow, nan or rounding)",
           "sympy: complex(x) of an entry succeeds exactly when it contains no symbols; a matrix has free symbols exactly when an entry has",
           "bin(n) of n >= 0 has one digit 1 exactly when n is a power of two"]
Z, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
RE, IM = z3.Function("re", Z, R), z3.Function("im", Z, R)
SYM = z3.Function("contains symbols", Z, B)
HAS = z3.Bool("has symbols")
POP = core.ONES


def prob(i):
    return RE(i) * RE(i) + IM(i) * IM(i)


class Entry:
    """entry i of the vector"""

    __pyvc_value__ = True

    def __init__(self, i):
        self.i = i

    def __pyvc_complex__(self, I):
        if I.e.choose(SYM(toint(self.i))):
            raise TypeError("Cannot convert expression to float")
        return SComplex(RE(toint(self.i)), IM(toint(self.i)))

    def __pyvc_eq__(self, I, o):
        o = force(o)
        if isinstance(o, Entry):
            raise Unsupported("comparison of entries")
        if not core._num_kind(o):
            return False
        o = SComplex.of(o)
        return SBool(z3.And(z3.Not(SYM(toint(self.i))), RE(toint(self.i)) == o.re, IM(toint(self.i)) == o.im))

    def __pyvc_getattr__(self, I, name):
        if name == "free_symbols":
            return Symbols(SYM(toint(self.i)))
        raise Unsupported(f"{name} of an entry")

    def __pyvc_subst__(self, f):
        return Entry(f(SInt(toint(self.i))))

    def __pyvc_syntax__(self):
        return (SInt(toint(self.i)),)

    def __pyvc_eqv__(self, o):
        return toint(self.i) == toint(o.i) if isinstance(o, Entry) else False


class Symbols:
    """the set of free symbols"""

    __pyvc_value__ = True

    def __init__(self, some):
        self.some = some

    def __pyvc_truth__(self, I):
        return SBool(self.some)

    def __pyvc_len__(self, I=None):
        n = core.cur.int()
        core.cur.assume(SBool(z3.And(n.t >= 0, (n.t > 0) == self.some)))
        return n

    def __pyvc_isinstance__(self, I, cls):
        return issubclass(set, cls)


class Vector:
    """a sympy column of d entries"""

    __pyvc_value__ = True

    def __init__(self, d):
        self.d = d

    free_symbols = property(lambda self: Symbols(HAS))

    def __pyvc_getattr__(self, I, name):
        if name == "free_symbols":
            return self.free_symbols
        if name == "shape":
            return (self.d, 1)
        raise Unsupported(f"{name} of a matrix")

    def __pyvc_isinstance__(self, I, cls):
        return issubclass(sympy.Matrix, cls)

    def __pyvc_class__(self, I):
        return sympy.Matrix

    def __pyvc_iter__(self, I):
        i = V.index_var("i")
        return (Fam(toint(self.d), i, Entry(i)),)

    def __pyvc_len__(self, I=None):
        return self.d

    def __pyvc_eqv__(self, o):
        return isinstance(o, Vector) and toint(self.d) == toint(o.d)


class Bag:
    """numpy array of the numbers selected by a condition"""

    __pyvc_value__ = True
    __array_ufunc__ = None

    def __init__(self, n, var, cond, val):
        self.n, self.var, self.cond, self.val = n, var, cond, val

    def map(self, f):
        return Bag(self.n, self.var, self.cond, f(self.val))

    def __abs__(self):
        return self.map(sarr.absolute)

    def __pow__(self, k):
        return self.map(lambda x: x**k)

    def total(self):
        return V.sum_term(toint(self.n), self.var, z3.If(self.cond, toreal(self.val), z3.RealVal(0)))


def vectors(cx):
    sarr.install(cx.I)
    S = cx.I.shims
    d = cx.int("d", 1)
    i = V.index_var("i")
    cx.e.add_qfact(d.t, i, z3.Implies(SYM(i), HAS))
    numbers = lambda: sarr.FArr.fn((d,), lambda i: SComplex(RE(i), IM(i)), "c")

    def around(name, g):
        old = S.get(name)

        def f(I, x, *a, **k):
            r = g(I, force(x), *a, **k)
            return r if r is not NotImplemented else old(I, x, *a, **k) if old else I.native(name, [x, *a], k)

        S[name] = f

    def asarray(I, x, dtype=None):
        if isinstance(x, Vector):
            if dtype not in (complex, np.complex128):
                raise Unsupported("matrix converted to another type")
            if I.e.choose(HAS):
                raise TypeError("Cannot convert expression to float")
            for_all_numbers(I, d)
            return numbers()
        if isinstance(x, PyList) and len(x.segs) == 1 and isinstance(x.segs[0], Flat):
            f = x.segs[0]
            if len(f.segs) == 1 and isinstance(f.segs[0], Guard) and len(f.segs[0].segs) == 1 and isinstance(f.segs[0].segs[0], One):
                g = f.segs[0]
                v = force(g.segs[0].v)
                if isinstance(v, Entry):
                    v = SComplex(RE(toint(v.i)), IM(toint(v.i)))
                    if not V.holds_generic(f.n, lambda j: z3.Implies(V.subst(SBool(g.c), [(f.var, toint(j))]).t, z3.Not(SYM(toint(j))))):
                        raise TypeError("Cannot convert expression to float")
                return Bag(f.n, f.var, g.c, v)
        return NotImplemented

    around(np.array, asarray)
    around(np.asarray, asarray)
    around(np.abs, lambda I, x: abs(x) if isinstance(x, Bag) else NotImplemented)
    around(np.sum, lambda I, x, **k: SReal(x.total()) if isinstance(x, Bag) else NotImplemented)
    return d, numbers


def for_all_numbers(I, d):
    """no symbols at all"""
    i = V.index_var("i")
    I.e.add(z3.Not(HAS))
    I.e.add_qfact(toint(d), i, z3.Not(SYM(i)))


def total(d, part=False):
    i = V.index_var("i")
    return V.sum_term(d.t, i, z3.If(SYM(i), z3.RealVal(0), prob(i)) if part else prob(i))


def near_one(t):
    f = Fraction(1e-8) + Fraction(1e-5)
    tol = z3.Q(f.numerator, f.denominator)
    return z3.And(t - 1 <= tol, 1 - t <= tol)


@obligation("C12")
def check_numbers(cx):
    """_check_normalization of d >= 1 numbers (array, or matrix without symbols): ValueError exactly when the sum of the squared magnitudes
    differs from 1 by more than the tolerance of np.isclose (1e-8 + 1e-5)"""
    d, numbers = vectors(cx)
    if cx.pick(2):
        v = Vector(d)
        for_all_numbers(cx.I, d)
    else:
        v = numbers()
    cx.freeze(v)
    k, r = cx.attempt(wf.Wavefunction._check_normalization, v)
    if k == "exc":
        cx.prove(isinstance(r, ValueError), "ValueError")
        cx.prove(SBool(z3.Not(near_one(total(d)))), "only vectors that are not normalised are refused")
    else:
        cx.prove(SBool(near_one(total(d))), "vectors that are not normalised are refused")


@obligation("C12")
def check_symbols(cx):
    """_check_normalization of d >= 1 entries some of which contain symbols: ValueError exactly when the squared magnitudes of the entries
    without symbols sum to more than 1"""
    d, numbers = vectors(cx)
    cx.assume(SBool(HAS))
    k, r = cx.attempt(wf.Wavefunction._check_normalization, Vector(d))
    if k == "exc":
        if not isinstance(r, ValueError):
            raise r
        cx.prove(SBool(total(d, True) > 1), "only numbers exceeding probability 1 are refused")
    else:
        cx.prove(SBool(total(d, True) <= 1), "numbers exceeding probability 1 are refused")


# ---------------------------------------------------------------- construction and changes, over the contract of the check
class Bin:
    """bin(n)"""

    __pyvc_value__ = True

    def __init__(self, n, prefix=2):
        self.n, self.prefix = n, prefix

    def __pyvc_getitem__(self, I, k):
        if self.prefix != 2 or force(k) != slice(2, None, None):
            raise Unsupported("part of a binary text")
        return Bin(self.n, 0)

    def __pyvc_getattr__(self, I, name):
        if name == "count":
            return Meth(self.count)
        raise Unsupported(f"{name} of a binary text")

    def count(self, I, x):
        if force(x) != "1":
            raise Unsupported("count of another digit")
        if z3.is_app(self.n) and self.n.decl().name() == "pow2" and I.e.valid(self.n.arg(0) >= 0):
            return 1
        return mkint(POP(self.n))

    def __pyvc_len__(self, I=None):
        return mkint(self.prefix + DIGITS(self.n))


DIGITS = core.DIGITS


def binary(cx):
    old = cx.I.shims.get(bin)
    cx.I.shims[bin] = lambda I, v: Bin(toint(force(v))) if isinstance(force(v), SInt) else old(I, v) if old else bin(v)


class Checked(Exception):
    pass


def check_contract(cx, log, good):
    """_check_normalization(v): records v, ValueError unless good"""

    def check(I, v):
        log.append(force(v))
        if not I.e.choose(good):
            raise ValueError("not normalised")

    cx.contract(wf.Wavefunction._check_normalization, check)


@obligation("C12")
def construction(cx):
    """Wavefunction(d entries: numbers as sequence, array or sympy matrix, or entries with symbols as matrix): ValueError exactly when the
    number of entries is no power of two or the check refuses the entries; the object holds an array of the numbers (when there are no
    symbols) or a matrix of the entries"""
    d, numbers = vectors(cx)
    binary(cx)
    log, good = [], z3.Bool("normalised")
    check_contract(cx, log, good)
    made = []

    def matrix(I, x):
        x = force(x)
        if not isinstance(x, Vector):
            raise Unsupported("matrix of something else")
        made.append(1)
        return Vector(x.d)

    cx.I.shims[sympy.Matrix] = matrix
    kind = cx.pick(3)
    i = V.index_var("i")
    if kind == 0:
        v = numbers()
    elif kind == 1:
        v = PyList((Fam(d.t, i, SComplex(RE(i), IM(i))),))
    else:
        v = Vector(d)
    cx.freeze(v)
    k, r = cx.attempt(wf.Wavefunction, v)
    power = POP(d.t) == 1
    if k == "exc":
        if not isinstance(r, ValueError):
            raise r
        cx.prove(SBool(z3.Not(z3.And(power, good))), "only other lengths and refused entries are refused")
        cx.prove(SBool(z3.Implies(power, z3.BoolVal(len(log) == 1))), "entries of a vector with the right length are checked")
        return
    cx.prove(SBool(z3.And(power, good)), "other lengths and refused entries are refused")
    cx.prove(len(log) == 1, "the entries are checked")
    w = cx.get(r, "_amplitude_vector")
    cx.prove(log[0] is w, "the entries held are the checked ones")
    if kind == 2:
        cx.prove(SBool(HAS == z3.BoolVal(isinstance(w, Vector))), "a matrix exactly when there are symbols")
    if isinstance(w, Vector):
        cx.prove(SBool(toint(w.d) == d.t), "all entries")
    else:
        cx.same(w, numbers(), "all entries")


class Store:
    """a mutable vector: its content is a term"""

    __pyvc_value__ = True
    UPD = z3.Function("content after an assignment", Z, Z, Z, Z)

    def __init__(self, t, symbols):
        self.t, self.symbols = t, symbols

    def __pyvc_getattr__(self, I, name):
        if name == "copy":
            return Meth(lambda I: Store(self.t, self.symbols))
        if name == "free_symbols" and self.symbols is not None:
            return Symbols(self.symbols(self.t))
        if name == "free_symbols":
            raise AttributeError(name)
        raise Unsupported(f"{name} of the vector")

    def __pyvc_isinstance__(self, I, cls):
        return issubclass(sympy.Matrix if self.symbols is not None else np.ndarray, cls)

    def __pyvc_setitem__(self, I, k, v):
        k, v = force(k), force(v)
        if not (isinstance(k, Abs) and isinstance(v, Abs)):
            raise Unsupported("other places or values")
        if not I.e.choose(z3.Bool("the place and the value fit")):
            raise Misfit("assignment of this value at this place")
        I.setattr_raw(self, "t", self.UPD(self.t, toint(k.key[1]), toint(v.key[1])))

    def __pyvc_eqv__(self, o):
        return self.t == o.t if isinstance(o, Store) else False


class Misfit(Exception):
    """whatever the vector raises for a place or value it does not take"""


@obligation("C12")
def assignment(cx):
    """w[place] = value for any place and value: the vector after it is a copy of the previous one with that assignment, accepted by the
    check; when the check refuses it (ValueError) or the vector itself does, w holds the same vector, not written"""
    log = []
    OK = z3.Function("is normalised", Z, B)

    def check(I, v):
        v = force(v)
        if not isinstance(v, Store):
            raise ProofFailed("assignment", "something else is checked")
        log.append(v)
        if not I.e.choose(OK(v.t)):
            raise ValueError("not normalised")

    cx.contract(wf.Wavefunction._check_normalization, check)
    t = z3.Int("content")
    symbolic = cx.pick(2) == 1
    v = Store(t, (lambda x: z3.Function("has symbols", Z, B)(x)) if symbolic else None)
    w = object.__new__(wf.Wavefunction)
    w.__dict__["_amplitude_vector"] = v
    cx.assume(SBool(OK(t)))
    place, value = Abs("place", z3.Int("place")), Abs("value", z3.Int("value"))
    k, r = cx.attempt(wf.Wavefunction.__setitem__, w, place, value)
    now = w.__dict__["_amplitude_vector"]
    new = Store.UPD(t, z3.Int("place"), z3.Int("value"))
    fits = z3.Bool("the place and the value fit")
    cx.prove(SBool(v.t == t), "the previous vector is not written")
    cx.prove(SBool(OK(now.t)), "normalised afterwards")
    if k == "exc":
        if not isinstance(r, (ValueError, Misfit)):
            raise r
        cx.prove(now is v, "the same vector after a refused assignment")
        cx.prove(SBool(z3.Not(z3.And(fits, OK(new)))), "only assignments that would break the normalisation are refused")
        cx.prove(isinstance(r, Misfit) or SBool(fits), "ValueError")
        return
    cx.prove(SBool(now.t == new), "the assignment is made")
    cx.prove(len(log) == 1 and log[0] is now, "the vector held is the checked one")


@obligation("C12")
def binding(cx):
    """w.bind(map): w itself when it has no symbols; otherwise a new wavefunction made from the entries with the map substituted, ValueError
    when they are refused; w is not written"""
    log = []
    OK = z3.Function("is normalised", Z, B)
    SUBS = z3.Function("entries with a map substituted", Z, Z, Z)
    has = z3.Bool("has symbols")
    t, m = z3.Int("content"), z3.Int("map")

    class Entries(Store):
        def __pyvc_getattr__(self, I, name):
            if name == "subs":
                return Meth(lambda I, x: Entries(SUBS(self.t, toint(force(x).key[1])), self.symbols))
            return super().__pyvc_getattr__(I, name)

    def ctor(I, cls_or_x, *more):
        x = force(more[0] if more else cls_or_x)
        if not isinstance(x, Entries):
            raise ProofFailed("binding", "made from something else")
        log.append(x)
        if not I.e.choose(OK(x.t)):
            raise ValueError("not normalised")
        r = object.__new__(wf.Wavefunction)
        r.__dict__["_amplitude_vector"] = x
        return r

    cx.contract(wf.Wavefunction, ctor)
    symbolic = cx.pick(2) == 1
    v = Entries(t, (lambda x: has) if symbolic else None)
    w = object.__new__(wf.Wavefunction)
    w.__dict__["_amplitude_vector"] = v
    k, r = cx.attempt(w.bind, Abs("map", m))
    cx.prove(w.__dict__["_amplitude_vector"] is v and SBool(v.t == t), "not written")
    if k == "exc":
        if not isinstance(r, ValueError):
            raise r
        cx.prove(symbolic and SBool(z3.And(has, z3.Not(OK(SUBS(t, m))))), "only refused entries")
        return
    if r is w:
        cx.prove(not symbolic or SBool(z3.Not(has)), "itself only without symbols")
        return
    cx.prove(SBool(z3.And(has, OK(SUBS(t, m)), r.__dict__["_amplitude_vector"].t == SUBS(t, m))), "the entries with the map substituted")


# ---------------------------------------------------------------- views and special states
def power_vector(cx, low=0):
    sarr.install(cx.I)
    binary(cx)
    n = cx.int("n", low)
    return n, core.mk_pow2(n.t)


@obligation("C12")
def zero_state(cx):
    """zero_state(n), n >= 1: 2^n amplitudes, 1 for basis state 0 and 0 for the others, which the constructor accepts; ValueError for n < 1"""
    cx.e.__dict__.setdefault("sum_rewrites", {})["points"] = V.point_sums
    n, N = power_vector(cx, None)
    k, r = cx.attempt(wf.Wavefunction.zero_state, n)
    if k == "exc":
        if not isinstance(r, ValueError):
            raise r
        cx.prove(n < 1, "only for numbers of qubits below 1")
        return
    cx.prove(n >= 1, "refused for numbers of qubits below 1")
    cx.same(cx.get(r, "_amplitude_vector"), sarr.FArr.fn((N,), lambda i: SComplex(z3.If(i == 0, z3.RealVal(1), z3.RealVal(0)), z3.RealVal(0)), "c"), "amplitudes")


# ---------------------------------------------------------------- Dicke states
from vc.pyvc.runs import Runs  # noqa: E402

TRUSTED += ["two's complement integers: +1, -1, negation, |, &, shifts and division by powers of two act on runs of bits as usual (vc/pyvc/runs.py); "
            "every positive integer ends with k >= 0 zeros, then r >= 1 ones, then a zero"]
WEIGHT = z3.Function("ones of", Z, Z)


@obligation("C12")
def next_number(cx):
    """_get_next_number_with_same_hamming_weight of the number with binary digits h 0 1^r 0^k (any h, r >= 1, k >= 0): h 1 0^(k+1) 1^(r-1)"""
    k, r = cx.int("k", 0), cx.int("r", 1)
    one = z3.IntVal(1)
    v = Runs([(k.t, 0), (r.t, 1), (one, 0)], ("h", "h"))
    cx.same(cx.call(wf._get_next_number_with_same_hamming_weight, v), Runs([(r.t - 1, 1), (k.t + 1, 0), (one, 1)], ("h", "h")), "next number")


@obligation("C12")
def next_is_smallest(cx):
    """lemma: with v = h 0 1^r 0^k and n = h 1 0^(k+1) 1^(r-1): n > v, n has as many ones, and no number between them has (n is the next number
    with that weight)"""
    # 2^k, 2^(k + r), 2^(r - 1) with the facts about powers that are needed
    k, r, h = cx.int("k", 0), cx.int("r", 1), cx.int("h", 0)
    K, M, Q = z3.Int("2^k"), z3.Int("2^(k+r)"), z3.Int("2^(r-1)")
    W = WEIGHT
    cx.assume(SBool(z3.And(K >= 1, Q >= 1, M >= 2 * K, M >= 2 * Q)))
    hM = z3.Int("2h * 2^(k+r)")
    v, n = hM + M - K, hM + M + Q - 1
    cx.prove(SBool(n > v), "larger")
    cx.assume(SBool(z3.And(W(v) == W(h.t) + r.t, W(n) == W(h.t) + 1 + (r.t - 1))))
    cx.prove(SBool(W(v) == W(n)), "same weight")
    y = z3.Int("y")  # x = 2h 2^(k+r) + y
    cx.assume(SBool(z3.And(hM + y > v, hM + y < n)))
    if cx.choose(y < M):
        # x = (2h) 2^(k+r) + y, y = 1^r 0^k + z with 0 < z < 2^k
        z = y - (M - K)
        cx.prove(SBool(z3.And(y >= 0, z > 0, z < K)), "split")
        cx.assume(SBool(z3.And(W(hM + y) == W(h.t) + W(y), W(y) == r.t + W(z), z3.Implies(z > 0, W(z) >= 1))))
    else:
        # x = (2h + 1) 2^(k+r) + y', 0 <= y' < 2^(r-1) - 1: fewer than r - 1 ones
        z = y - M
        cx.prove(SBool(z3.And(z >= 0, z < M, z < Q - 1)), "split")
        cx.assume(SBool(z3.And(W(hM + y) == W(h.t) + 1 + W(z), z3.Implies(z < Q - 1, W(z) < r.t - 1))))
    cx.prove(SBool(W(hM + y) != W(v)), "another weight")


SEQ = z3.Function("number of the weight", Z, Z)  # in increasing order
LISTED = z3.Function("is one of the first", Z, Z, B)


@obligation("C12")
def all_numbers(cx):
    """lemma: starting at the smallest number of weight w and taking the next number c times, the numbers listed are exactly the numbers of weight
    w below the one reached (induction over c)"""
    w, c, x = cx.int("w", 1), cx.int("c", 0), cx.int("x", 0)
    W = WEIGHT
    first = core.mk_pow2(w.t) - 1
    inv = lambda c: LISTED(x.t, c) == z3.And(W(x.t) == w.t, x.t < SEQ(c))
    zero = z3.IntVal(0)
    # smallest: no number below 2^w - 1 has w ones
    cx.e.add(z3.And(SEQ(zero) == toint(first), z3.Implies(x.t < toint(first), W(x.t) < w.t), z3.Not(LISTED(x.t, zero))))
    cx.prove(SBool(inv(zero)), "none listed")
    a, b = SEQ(c.t), SEQ(c.t + 1)
    # next_is_smallest
    cx.e.add(z3.And(W(a) == w.t, a < b, z3.Implies(z3.And(a < x.t, x.t < b), W(x.t) != w.t), LISTED(x.t, c.t + 1) == z3.Or(LISTED(x.t, c.t), x.t == a)))
    cx.assume(SBool(inv(c.t)))
    cx.prove(SBool(inv(z3.simplify(c.t + 1))), "one more listed")


@obligation("C12")
def dicke(cx):
    """dicke_state(n, w) with 1 <= w <= n: amplitude 1/sqrt(c) for exactly the c >= 1 numbers of weight w below 2^n and 0 for the others, accepted by
    the constructor; w = 0: the zero state; ValueError for w < 0, w > n or n < 1"""
    cx.e.__dict__.setdefault("sum_rewrites", {})["points"] = V.point_sums
    n, N = power_vector(cx, None)
    w = cx.int("w")
    S, e = cx.I.shims, cx.e
    zero = z3.IntVal(0)

    class Ones:
        __pyvc_value__ = True

    def first(v):
        """2^w - 1, the first number of the weight"""
        v = z3.simplify(v)
        if v.eq(SEQ(zero)):
            return True
        if not e.valid(z3.And(w.t >= 1, v == toint(core.mk_pow2(w.t)) - 1)):
            return False
        e.add(z3.And(SEQ(zero) == toint(core.mk_pow2(w.t)) - 1, z3.Implies(w.t <= n.t, toint(core.mk_pow2(w.t)) <= toint(N))))
        return True

    def next_(I, v):
        v = z3.simplify(toint(force(v)))
        if first(v):
            v = SEQ(zero)
        if not (z3.is_app(v) and v.decl().eq(SEQ)):
            raise Unsupported("next number of another number")
        r = SEQ(z3.simplify(v.arg(0) + 1))
        I.e.add(r > v)
        return SInt(r)

    cx.contract(wf._get_next_number_with_same_hamming_weight, next_)
    old_int = S[int]

    def int_(I, x=0, base=None):
        x = force(x)
        if isinstance(x, SStr) and len(x.parts) == 1 and not isinstance(x.parts[0], str) and x.parts[0][0] == "rep":
            if x.parts[0][1] != "1" or force(base) != 2:
                raise Unsupported("another number")
            if not I.e.valid(z3.And(toint(x.parts[0][2]) == w.t, w.t >= 1)):
                raise ProofFailed("Dicke state", "starts at a number of another weight")
            return SInt(toint(core.mk_pow2(w.t)) - 1)
        return old_int(I, x, *([base] if base is not None else []))

    S[int] = int_
    # bin(x) of a number has at most n digits exactly when x < 2^n
    def digits(I, v):
        v = force(v)
        if not isinstance(v, SInt):
            return bin(v)
        e.digit_facts(v.t)
        return Bin(v.t)

    e.digit_facts = lambda t: e.add((DIGITS(t) <= n.t) == (t < toint(core.mk_pow2(n.t))))
    S[bin] = digits

    def listed(segs, d):
        segs = V.norm_segs(segs)
        count = z3.IntVal(0)
        for s in segs:
            v = V.inst(s, z3.IntVal(0)) if isinstance(s, Fam) else s.v
            j = z3.Int("probe")
            v = V.inst(s, j) if isinstance(s, Fam) else s.v
            if not e.valid(toint(force(v)) == SEQ(count + (j if isinstance(s, Fam) else 0))):
                return None
            count = z3.simplify(count + (s.n if isinstance(s, Fam) else 1))
        if not e.valid(toint(N) == d):
            return None
        c = count
        return lambda x: LISTED(x, c)

    cx.I.index_sets = [listed]

    def counted(n_, var, body):
        # numbers are listed once: the first c numbers are different and below 2^n
        b = z3.simplify(body)
        for a in _apps_of(b, LISTED):
            if a.arg(0).eq(var) and not V.occurs(a.arg(1), [var]) and e.valid(n_ == toint(N)):
                yes, no = (z3.simplify(z3.substitute(b, (a, z3.BoolVal(t)))) for t in (True, False))
                if V.occurs(yes, [var]) or V.occurs(no, [var]):
                    return None
                return z3.simplify(z3.ToReal(n_) * no + z3.ToReal(a.arg(1)) * (yes - no))
        return None

    cx.e.sum_rewrites["listed"] = counted

    class Loop:
        """after k iterations the first k (k + 1 if the first was listed before the loop) numbers are listed, and number k is current"""

        def __init__(self, I, env):
            self.env, self.I, self.lists, self.vars = env, I, [], []
            writes = core_loops.assigned_names(I.while_node) + core_loops.extended_names(I.while_node)
            for name, v in list(env.vars.items()):
                try:
                    v = force(v)
                except Unsupported:
                    continue
                if name not in writes:
                    continue
                if isinstance(v, SInt) and first(v.t):
                    self.vars.append((name, lambda k: SInt(SEQ(k))))
                elif type(v) is int:
                    self.vars.append((name, lambda k, v=v: mkint(z3.simplify(k + v))))
                elif isinstance(v, PyList) and v.concrete and len(v.segs) <= 1:
                    x = force(v.segs[0].v) if v.segs else None
                    if not v.segs or isinstance(x, SInt) and first(x.t):
                        self.lists.append((name, v, len(v.segs)))
            self.names = [x for x, _ in self.vars]

        def conts(self):
            return [id(v) for _, v, _ in self.lists]

        def state(self, k):
            out = []
            for name, f in self.vars:
                out.append((name, lambda name=name: self.env.vars[name], lambda v, name=name: self.I.setvar_env(self.env, name, v), f(k)))
            for name, v, m in self.lists:
                j = V.index_var("j")
                out.append((name, lambda v=v: v.segs, lambda w, v=v: v.set_checked(self.I, w), (Fam(z3.simplify(k + m), j, SInt(SEQ(j))),)))
            return out

        def holds(self, k):
            # every number listed is below 2^n; they increase, so that there are fewer than 2^n of them
            m = max((m for _, _, m in self.lists), default=1)
            below = SEQ(k) < toint(N) if m else z3.Implies(k >= 1, SEQ(z3.simplify(k - 1)) < toint(N))
            return SBool(z3.And(k >= 0, k <= SEQ(k), below))

        def bound(self):
            return toint(N)

    cx.I.while_specs = {"*": Loop}
    k, r = cx.attempt(wf.Wavefunction.dicke_state, n, w)
    if k == "exc":
        if not isinstance(r, ValueError):
            raise r
        cx.prove(SBool(z3.Or(n.t < 1, w.t < 0, w.t > n.t)), "only impossible weights are refused")
        return
    cx.prove(SBool(z3.And(n.t >= 1, w.t >= 0, w.t <= n.t)), "impossible weights are refused")
    v = cx.get(r, "_amplitude_vector")
    if cx.choose(w.t == 0):
        cx.same(v, sarr.FArr.fn((N,), lambda i: SComplex(z3.If(i == 0, z3.RealVal(1), z3.RealVal(0)), z3.RealVal(0)), "c"), "zero state")
        return
    x, c = z3.Int("x"), z3.Int("c")
    cx.e.reg_index(x)
    cx.assume(SBool(z3.And(x >= 0, x < toint(N))))
    a = SComplex.of(v.elem(x))
    apps = _apps_of(z3.simplify(z3.And(a.re == 0, a.im == 0)), LISTED)
    cx.prove(len(apps) == 1 and apps[0].arg(0).eq(x), "depends on the numbers listed")
    c = apps[0].arg(1)
    # all_numbers: the numbers listed are those of weight w below SEQ(c)
    cx.e.add(LISTED(x, c) == z3.And(WEIGHT(x) == w.t, x < SEQ(c)))
    cx.prove(SBool(c >= 1), "some number is listed")
    cx.prove(SBool(z3.And(a.im == 0, z3.If(WEIGHT(x) == w.t, z3.And(a.re > 0, a.re * a.re * z3.ToReal(c) == 1), a.re == 0))), "equal probability for the weight, 0 otherwise")


def _apps_of(t, f):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if z3.is_app(x) and x.decl().eq(f) and not any(x.eq(y) for y in out):
            out.append(x)
        todo += x.children()
    return out


# ---------------------------------------------------------------- reversal of the qubits
TRUSTED += ["numpy: arange(2^m) reshaped to m axes of length 2, transposed and flattened: the entry at j has, for every axis p of the transposed array which was axis "
            "t_p, the bit of the value at axis t_p equal to the bit of j at axis p (axis 0 is the most significant bit)", "numbers below 2^m with the same bits are equal"]
REV = z3.Function("reversed", Z, Z, Z)  # bits, number


class Grid:
    """np.arange(2^m) seen as m axes of length 2, axis p being axis order(p) of the original; flat: again one axis"""

    __pyvc_value__ = True

    def __init__(self, m, order=None, axes=False):
        self.m, self.order, self.axes = m, order, axes

    def __pyvc_getattr__(self, I, name):
        if name == "T":
            return self.transpose(I, ())
        f = {"reshape": self.reshape, "transpose": self.transpose}.get(name)
        if f is None:
            raise Unsupported(f"{name} of a grid")
        f.__func__.stars = True
        return StarMeth(f)

    def args(self, I, segs):
        segs = V.norm_segs(segs)
        if len(segs) == 1 and isinstance(segs[0], One) and not core._num_kind(force(segs[0].v)):
            segs = V.norm_segs(I.iter_segs(force(segs[0].v)))
        return segs

    def reshape(self, I, segs):
        segs, e = self.args(I, segs), I.e
        if len(segs) == 1 and isinstance(segs[0], One) and e.valid(toint(force(segs[0].v)) == toint(core.mk_pow2(self.m))):
            return Grid(self.m, self.order, False)
        n, ok = z3.IntVal(0), True
        for s in segs:
            if isinstance(s, One):
                ok, n = ok and e.valid(toint(force(s.v)) == 2), n + 1
            elif isinstance(s, Fam):
                ok, n = ok and V.holds_generic(s.n, lambda j, s=s: toint(V.inst(s, toint(j))) == 2), n + s.n
            else:
                raise Unsupported("shape")
        if not ok or not e.valid(n == self.m):
            raise Unsupported("another shape")
        if self.axes or self.order is not None:
            raise Unsupported("repeated change of shape")
        return Grid(self.m, None, True)

    def transpose(self, I, segs):
        if not self.axes or self.order is not None:
            raise Unsupported("transposition of another grid")
        segs = self.args(I, segs)
        if not segs:
            return Grid(self.m, lambda p: z3.simplify(self.m - 1 - p), True)
        if len(segs) != 1 or not isinstance(segs[0], Fam) or not I.e.valid(segs[0].n == self.m):
            raise Unsupported("order of axes")
        return Grid(self.m, lambda p: z3.simplify(toint(V.inst(segs[0], p))), True)

    def __pyvc_array__(self):
        return self


class StarMeth(Meth):
    def __pyvc_call__(self, I, segs, kw):
        return self.f(I, segs, **kw)


def grid(cx):
    S = cx.I.shims
    old = S.get(np.arange)

    def arange(I, *a, **k):
        if len(a) == 1 and not k:
            t = z3.simplify(toint(force(a[0])))
            if z3.is_app(t) and t.decl().name() == "pow2":
                return Grid(t.arg(0))
        return old(I, *a, **k) if old else I.native(np.arange, list(a), k)

    S[np.arange] = arange


@obligation("C12")
def ordering(cx):
    """_get_ordering(2^m), m >= 0: entry j is the number whose bit p is bit m - 1 - p of j (bit reversal)"""
    sarr.install(cx.I)
    grid(cx)
    m = cx.int("m", 0)
    g = cx.call(wf._get_ordering, core.mk_pow2(m.t))
    cx.prove(isinstance(g, Grid) and not g.axes, "one axis")
    cx.prove(SBool(toint(g.m) == m.t), "2^m entries")
    # bit at axis order(p) of the value is the bit of j at axis p: the value's bit m-1-order(p) is bit m-1-p of j
    order = g.order or (lambda p: p)
    cx.each(m, lambda p: m.t - 1 - order(toint(p)) == toint(p), "axes reversed: bit p of the entry is bit m - 1 - p of its place")


@obligation("C12")
def involution(cx):
    """lemma: reversing the bits twice gives the number back (so the reversal permutes the numbers below 2^m)"""
    m, j, p = cx.int("m", 0), cx.int("j", 0), cx.int("p", 0)
    cx.assume(SBool(z3.And(j.t < toint(core.mk_pow2(m.t)), p.t < m.t)))
    r = REV(m.t, j.t)
    for x, y in ((j.t, r), (r, REV(m.t, r))):
        for q in (p.t, z3.simplify(m.t - 1 - p.t)):
            cx.e.add(bits.BIT(y, q) == bits.BIT(x, z3.simplify(m.t - 1 - q)))
    cx.prove(SBool(bits.BIT(REV(m.t, r), p.t) == bits.BIT(j.t, p.t)), "the same bits")


@obligation("C12")
def flipped(cx):
    """flip_amplitudes(2^m amplitudes): the amplitude at the bit reversal of every place, in a new array; flip_wavefunction: the wavefunction of
    these amplitudes"""
    sarr.install(cx.I)
    m = cx.int("m", 0)
    N = core.mk_pow2(m.t)
    i = V.index_var("i")
    order = sarr.FArr.fn((N,), lambda j: SInt(REV(m.t, j)), "i")
    cx.e.add_qfact(toint(N), i, z3.And(REV(m.t, i) >= 0, REV(m.t, i) < toint(N)))

    def ordering_(I, k):
        if not I.e.valid(toint(force(k)) == toint(N)):
            raise ProofFailed("reversal", "ordering of another number of amplitudes")
        return order

    cx.contract(wf._get_ordering, ordering_)
    cx.freeze(order)
    v = sarr.FArr.fn((N,), lambda i: SComplex(RE(i), IM(i)), "c")
    cx.freeze(v)
    want = sarr.FArr.fn((N,), lambda i: SComplex(RE(REV(m.t, i)), IM(REV(m.t, i))), "c")
    kind = cx.pick(3)
    if kind < 2:
        r = cx.call(wf.flip_amplitudes, v if kind else PyList((Fam(toint(N), i, SComplex(RE(i), IM(i))),)))
        cx.same(r, want, "amplitudes")
        cx.prove(r is not v, "a new array")
        return
    w = object.__new__(wf.Wavefunction)
    w.__dict__["_amplitude_vector"] = v
    cx.freeze(w)
    made = []
    cx.contract(wf.Wavefunction, lambda I, x: made.append(x) or Abs("wavefunction"))
    r = cx.call(wf.flip_wavefunction, w)
    cx.same(r, Abs("wavefunction"), "a wavefunction")
    cx.prove(len(made) == 1, "one wavefunction")
    cx.same(made[0], want, "of the reversed amplitudes")


# ---------------------------------------------------------------- saving and loading
from vc.proof.c17 import disk  # noqa: E402

TRUSTED += ["files: what is written is read back; json: loads of dumps of lists of floats and dictionaries with text keys gives equal ones"]


@obligation("C12")
def arrays_as_dictionaries(cx):
    """convert_dict_to_array(convert_array_to_dict(array of d numbers, real or complex)) is the array"""
    sarr.install(cx.I)
    d = cx.int("d", 1)
    if cx.pick(2):
        v = sarr.FArr.fn((d,), lambda i: SComplex(RE(i), IM(i)), "c")
    else:
        v = sarr.FArr.fn((d,), lambda i: SReal(RE(i)), "f")
    cx.freeze(v)
    t = cx.call(ut.convert_array_to_dict, v)
    cx.same(cx.call(ut.convert_dict_to_array, t), v, "the array")


@obligation("C12")
def saved_and_loaded(cx):
    """load_wavefunction after save_wavefunction(w, file), from the file name or an open file: the wavefunction made of the array that the saved
    dictionary of the amplitudes of w stands for (arrays_as_dictionaries)"""
    disk(cx)
    A = Abs("amplitudes", z3.Int("w"))
    D = Abs("dictionary", z3.Int("w"))
    cx.contract(wf.convert_array_to_dict, lambda I, x: D if force(x) is A else _other())
    cx.contract(wf.convert_dict_to_array, lambda I, x: A if force(x) is D else _other())
    made = []
    cx.contract(wf.Wavefunction.amplitudes.fget, lambda I, w: A)
    cx.contract(wf.Wavefunction, lambda I, x: made.append(force(x)) or Abs("wavefunction"))
    w = object.__new__(wf.Wavefunction)
    w.__dict__["_amplitude_vector"] = A
    cx.freeze(w)
    cx.call(wf.save_wavefunction, w, "file")
    src = "file" if cx.pick(2) else cx.I.call(open, ["file"])
    r = cx.call(wf.load_wavefunction, src)
    cx.same(r, Abs("wavefunction"), "a wavefunction")
    cx.prove(len(made) == 1 and made[0] is A, "of the amplitudes saved")


def _other():
    raise ProofFailed("document", "another content")


@obligation("C12")
def amplitudes(cx):
    """amplitudes: the vector of numbers held; of a matrix: its entries as complex numbers when there are no symbols, as they are otherwise"""
    d, numbers = vectors(cx)
    w = object.__new__(wf.Wavefunction)
    log = []
    if cx.pick(2):
        w.__dict__["_amplitude_vector"] = Vector(d)

        class Row:
            __pyvc_value__ = True

            def __init__(self, t):
                self.t = t

            def flatten(self):
                return Abs("entries", self.t)

        def array(I, x, dtype=None):
            if not isinstance(force(x), Vector):
                raise Unsupported("array of something else")
            if dtype in (np.complex128, complex):
                if I.e.choose(HAS):
                    raise TypeError("Cannot convert expression to float")
                return Row("numbers")
            if dtype is object:
                return Row("as they are")
            raise Unsupported("another type of array")

        cx.I.shims[np.array] = array
        r = cx.get(w, "amplitudes")
        if cx.choose(HAS):
            cx.same(r, Abs("entries", "as they are"), "the entries")
        else:
            cx.same(r, Abs("entries", "numbers"), "the entries as numbers")
        return
    v = w.__dict__["_amplitude_vector"] = numbers()
    cx.freeze(w)
    cx.freeze(v)
    cx.same(cx.get(w, "amplitudes"), v, "the vector")


TRUSTED += borrow("C12", "c04", ["probabilities", "outcome_probabilities"])

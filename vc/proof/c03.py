"""C03: Pauli arithmetic is matrix arithmetic.

Terms act on any set of qubits with any letters and any complex coefficients; sums have any number of terms."""
import numpy as np

from vc.pyvc.driver import *
from vc.pyvc.driver import V, z3
from vc.pyvc import count, pauli
from vc.pyvc.count import IdxSet
from vc.pyvc.lin import At
from vc.pyvc.pauli import Letters, PT, NQ, NAMES, CODES, sc, sigma, spelled
from orquestra.quantum.operators import PauliSum, PauliTerm, _pauli_operators as po

Zi, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


def setup(cx):
    count.install(cx.I)
    cx.assume(SBool(NQ >= 1))


def letters(cx, name, top=3):
    f = z3.Function(name, Zi, Zi)
    q = z3.Int("q")
    cx.e.add(z3.ForAll([q], z3.And(f(q) >= 0, f(q) <= top), patterns=[f(q)]))
    return Letters.of(lambda v: f(v))


def real_term(ops, c):
    t = object.__new__(PauliTerm)
    t.__dict__.update(_ops=ops, coefficient=c)
    return t


def new_term(I, operator, coefficient=None):
    """contract of PauliTerm(...): identities dropped, coefficient 1 unless given"""
    d = V.force(operator)
    if isinstance(d, str):
        t = PauliTerm(d)
        if any(x != "I" for x in t._ops.values()) or t._ops:
            raise Unsupported("term from text")
        return PT(1.0 if coefficient is None else coefficient)
    if not isinstance(d, Letters):
        raise Unsupported("term from a dictionary")
    v = V.index_var("q")
    p = d.at(v)
    return real_term(Letters(v, z3.simplify(z3.If(p == 4, 0, p))), 1.0 if coefficient is None else coefficient)


@obligation("C03")
def constructor(cx):
    """PauliTerm(letters, coefficient): the coefficient is kept, exactly the qubits with a letter other than I are kept with their
    letter; the argument is not written"""
    setup(cx)
    d, c = letters(cx, "letter", 4), cx.complex("c")
    cx.freeze(d)
    t = cx.call(PauliTerm, d, c)
    cx.same(cx.get(t, "coefficient"), c, "coefficient")
    (f,) = d.items()
    p = d.at(f.val[0])
    cx.same(t.__dict__["_ops"], PyDict((Flat(f.n, f.var, (Guard(p != 4, (One(f.val),)),)),)), "letters")
    t1 = cx.call(PauliTerm, d)
    cx.same(cx.get(t1, "coefficient"), 1.0, "default coefficient")


@obligation("C03")
def copies(cx):
    """copy: same letters, same or given coefficient"""
    setup(cx)
    cx.contract(PauliTerm, new_term)
    d, c, x = letters(cx, "letter"), cx.complex("c"), cx.complex("x")
    t = real_term(d, c)
    cx.freeze(t)
    a = cx.call(cx.get(t, "copy"))
    cx.same(cx.get(a, "coefficient"), c, "coefficient kept")
    cx.same(a.__dict__["_ops"], d, "letters kept")
    b = cx.call(cx.get(t, "copy"), x)
    cx.same(cx.get(b, "coefficient"), x, "new coefficient")
    cx.same(b.__dict__["_ops"], d, "letters kept")
    cx.prove(a.__dict__["_ops"] is not d, "the dictionary is not shared")


@obligation("C03")
def letters_of(cx):
    """iterating a term gives (letter, qubit) for every qubit it acts on; term[q] is the letter at q, I elsewhere"""
    setup(cx)
    d = letters(cx, "letter")
    t = real_term(d, cx.complex("c"))
    cx.freeze(t)
    segs = tuple(cx.I.iter_segs(t))
    f = d.set().enumerate_()[0]
    cx.same(PyList(segs), PyList((Fam(f.n, f.var, (pauli.letter_value(d.at(f.val)), f.val)),)), "pairs")
    q = cx.int("q", 0)
    r = cx.call(cx.get(t, "__getitem__"), q)
    cx.prove(SBool(pauli.code_of(r) == z3.If(z3.And(q.t < NQ, d.at(q) != 0), d.at(q), 4)), "letter")


MAT = {0: np.eye(2, dtype=int), 1: np.array([[0, 1], [1, 0]]), 2: np.array([[0, -1j], [1j, 0]]), 3: np.diag([1, -1])}


def pair(a, b):
    """(phase, letter) of the product of two letters, from the 2x2 matrices"""
    m = MAT[a] @ MAT[b]
    for c in range(4):
        for ph in (1, -1, 1j, -1j):
            if np.array_equal(m, ph * MAT[c]):
                return ph, c
    raise AssertionError


@obligation("C03")
def times_letter(cx):
    """_multiply_by_operator: the product of the term with X, Y or Z on one qubit, from the right: the letter at that qubit and the
    phase are those of the product of the 2x2 matrices (all 12 pairs), other qubits are untouched, the term is not changed"""
    setup(cx)
    cx.contract(PauliTerm, new_term)
    d, c = letters(cx, "letter"), cx.complex("c")
    t = real_term(d, c)
    cx.freeze(t)
    q = cx.int("q", 0)
    cx.assume(SBool(q.t < NQ))
    b = cx.pick(3) + 1
    r = cx.call(cx.get(t, "_multiply_by_operator"), NAMES[b], q)
    a = next(a for a in range(4) if a == 3 or cx.choose(d.at(q) == a))
    ph, l = pair(a, b)
    got = r.__dict__["_ops"]
    cx.prove(SBool(got.at(q) == l), f"letter of {NAMES.get(a, 'I')} {NAMES[b]}")
    cx.same(cx.get(r, "coefficient"), c * sc(complex(ph)), "phase")
    cx.each(NQ, lambda j: SBool(z3.Implies(j.t != q.t, got.at(j) == d.at(j))), "other qubits")


# ---------------------------------------------------------------- by denotation
def den(cx):
    """terms by the matrices they denote; contracts of the constructor, copy, iteration and multiplication by a letter"""
    setup(cx)
    cx.contract(PauliTerm, new_term)

    def copy(I, t, new_coefficient=None):
        return PT(t.c, t.w) if new_coefficient is None else t.with_coefficient(new_coefficient)

    cx.contract(PauliTerm.copy, copy)
    cx.contract(PauliTerm._multiply_by_operator, lambda I, t, op, q: t.mul(PT(1.0, (One(sigma(CODES[op], toint(q))),))))


class Spelled(PT):
    """a term with known letters"""

    def __init__(self, c, d):
        PT.__init__(self, c, (One(At("string", (d,))),))
        self.d = d

    def __pyvc_iter__(self, I):
        f = self.d.set().enumerate_()[0]
        return (Fam(f.n, f.var, (pauli.letter_value(self.d.at(f.val)), f.val)),)


@obligation("C03")
def product_of_terms(cx):
    """term * term: coefficients multiplied, the letters of the second multiplied in from the right, so that (with times_letter) the
    result denotes the matrix product"""
    den(cx)
    a, x = PT.string(cx.complex("a"), "A"), letters(cx, "letter")
    b = Spelled(cx.complex("b"), x)
    r = cx.call(PauliTerm.__mul__, a, b)
    cx.prove(isinstance(r, PT), "a term")
    cx.same(PyList(r.w), PyList(a.w + spelled(x)), "product of the strings")
    cx.prove(SBool(V.eqv(r.c, a.c * b.c)), "product of the coefficients")


def numbers(cx):
    k = cx.pick(3)
    x = [cx.int("xi"), cx.real("xr"), cx.complex("xc")][k]
    return x


@obligation("C03")
def scalars(cx):
    """term * number, number * term, term / number"""
    den(cx)
    a, x = PT.string(cx.complex("a"), "A"), numbers(cx)
    for r in (cx.call(PauliTerm.__mul__, a, x), cx.call(PauliTerm.__rmul__, a, x)):
        cx.same(r, a.scaled(x), "scaled")
    y = sc(x)
    cx.assume(SBool(y.re * y.re + y.im * y.im != 0))
    r = cx.call(PauliTerm.__truediv__, a, x)
    cx.same(PyList(r.w), PyList(a.w), "string")
    cx.prove(SBool(V.eqv(r.c * y, a.c)), "quotient")


@obligation("C03")
def identities(cx):
    """PauliTerm.identity() and PauliSum.identity() denote the identity"""
    t = PauliTerm.identity()
    cx.prove(t._ops == {} and t.coefficient == 1, "term")
    s = PauliSum.identity()
    cx.prove(len(s.terms) == 1 and s.terms[0]._ops == {} and s.terms[0].coefficient == 1, "sum")
    z = PauliSum()
    cx.prove(len(z.terms) == 0, "the empty sum")


# ---------------------------------------------------------------- sums
def real_sum(segs):
    s = object.__new__(PauliSum)
    s.__dict__["terms"] = PyList(tuple(segs))
    return s


def term_at(cx, name, j):
    re, im = z3.Function(name + ".re", Zi, R), z3.Function(name + ".im", Zi, R)
    return PT.string(SComplex(re(j), im(j)), name, j)


def some_terms(cx, name, N):
    v = V.index_var("t")
    return (Fam(toint(N), v, term_at(cx, name, v)),)


def summed(cx):
    """contract of simplify: the result denotes the same matrix (obligation simplify); here: the same list of terms"""
    den(cx)
    cx.contract(PauliSum.simplify, lambda I, s: real_sum(V.segs_of(I.getattr(s, "terms"))))

    def mul(I, a, b):
        b = V.force(b)
        return a.mul(b) if isinstance(b, PT) else a.scaled(b)

    cx.contract(PauliTerm.__mul__, mul)


def terms_of(cx, s):
    return PyList(tuple(cx.I.iter_segs(cx.get(s, "terms"))))


@obligation("C03")
def sum_plus(cx):
    """sum + sum, sum + term, sum + number, number + sum: the terms of both"""
    summed(cx)
    A, C = cx.int("A", 0), cx.int("C", 0)
    a, b = real_sum(some_terms(cx, "a", A)), real_sum(some_terms(cx, "b", C))
    cx.freeze(a), cx.freeze(b)
    t, x = PT.string(cx.complex("t"), "T"), numbers(cx)
    k = cx.pick(4)
    if k == 0:
        r, more = cx.call(PauliSum.__add__, a, b), some_terms(cx, "b", C)
    elif k == 1:
        r, more = cx.call(PauliSum.__add__, a, t), (One(t),)
    elif k == 2:
        r, more = cx.call(PauliSum.__add__, a, x), (One(PT(x)),)
    else:
        r, more = cx.call(PauliSum.__radd__, a, x), (One(PT(x)),)
    cx.same(terms_of(cx, r), PyList(some_terms(cx, "a", A) + more), "terms of both")


@obligation("C03")
def term_plus(cx):
    """term + term, term + number, number + term, term + sum"""
    summed(cx)
    C = cx.int("C", 0)
    a, b, x = PT.string(cx.complex("a"), "A"), PT.string(cx.complex("b"), "B"), numbers(cx)
    s = real_sum(some_terms(cx, "s", C))
    cx.freeze(s)
    k = cx.pick(4)
    if k == 3:
        r = cx.call(PauliTerm.__add__, a, s)
        cx.same(terms_of(cx, r), PyList(some_terms(cx, "s", C) + (One(a),)), "terms of both")
        return
    r = cx.call(PauliTerm.__add__, a, b) if k == 0 else cx.call(PauliTerm.__add__, a, x) if k == 1 else cx.call(PauliTerm.__radd__, a, x)
    cx.same(terms_of(cx, r), PyList((One(a), One(b if k == 0 else PT(x)))), "both")


@obligation("C03")
def sum_times(cx):
    """sum * sum: all products of a term of the first with a term of the second, in this order; sum * term, term * sum; sum * number,
    number * sum, sum / number: every term scaled"""
    summed(cx)
    A, C = cx.int("A", 0), cx.int("C", 0)
    a, b = real_sum(some_terms(cx, "a", A)), real_sum(some_terms(cx, "b", C))
    cx.freeze(a), cx.freeze(b)
    t, x = PT.string(cx.complex("t"), "T"), numbers(cx)
    i, j = V.index_var("i"), V.index_var("j")
    ta, tb = term_at(cx, "a", i), term_at(cx, "b", j)
    k = cx.pick(5)
    if k == 0:
        r = cx.call(PauliSum.__mul__, a, b)
        e = (Flat(A.t, i, (Fam(C.t, j, ta.mul(tb)),)),)
    elif k == 1:
        r = cx.call(PauliSum.__mul__, a, t)
        e = (Fam(A.t, i, ta.mul(t)),)
    elif k == 2:
        r = cx.body(PauliTerm.__mul__, t, b)
        e = (Fam(C.t, j, t.mul(tb)),)
    elif k == 3:
        r = cx.call(PauliSum.__mul__, a, x)
        e = (Fam(A.t, i, ta.scaled(x)),)
    else:
        r = cx.call(PauliSum.__rmul__, a, x)
        e = (Fam(A.t, i, ta.scaled(x)),)
    cx.same(terms_of(cx, r), PyList(e), "products")


@obligation("C03")
def differences(cx):
    """a - b and b - a for terms, sums and numbers: the terms of one and the negated terms of the other"""
    summed(cx)
    A, C = cx.int("A", 0), cx.int("C", 0)
    t, u, x = PT.string(cx.complex("t"), "T"), PT.string(cx.complex("u"), "U"), numbers(cx)
    a, b = real_sum(some_terms(cx, "a", A)), real_sum(some_terms(cx, "b", C))
    cx.freeze(a), cx.freeze(b)
    i = V.index_var("i")
    neg = (Fam(C.t, i, term_at(cx, "b", i).scaled(-1.0)),)
    k = cx.pick(9)
    if k == 0:
        r, e = cx.call(PauliTerm.__sub__, t, u), (One(t), One(u.scaled(-1.0)))
    elif k == 1:
        r, e = cx.call(PauliTerm.__sub__, t, x), (One(t), One(PT(x).scaled(-1.0)))
    elif k == 2:
        r, e = cx.call(PauliTerm.__rsub__, t, x), (One(t.scaled(-1.0)), One(PT(x)))
    elif k == 3:
        r, e = cx.call(PauliTerm.__sub__, t, b), neg + (One(t),)
    elif k == 4:
        r, e = cx.call(PauliSum.__sub__, a, b), some_terms(cx, "a", A) + neg
    elif k == 5:
        r, e = cx.call(PauliSum.__sub__, a, t), some_terms(cx, "a", A) + (One(t.scaled(-1.0)),)
    elif k == 6:
        r, e = cx.call(PauliSum.__sub__, a, x), some_terms(cx, "a", A) + (One(PT(x).scaled(-1.0)),)
    elif k == 7:
        r, e = cx.call(PauliSum.__rsub__, b, x), neg + (One(PT(x)),)
    else:
        r, e = cx.call(PauliTerm.__rsub__, t, u), (One(u), One(t.scaled(-1.0)))
    cx.same(terms_of(cx, r), PyList(e), "terms of the difference")


@obligation("C03")
def sum_divided(cx):
    """sum / number: every term, with the coefficient divided"""
    summed(cx)
    A, x = cx.int("A", 0), numbers(cx)
    y = sc(x)
    cx.assume(SBool(y.re * y.re + y.im * y.im != 0))
    a = real_sum(some_terms(cx, "a", A))
    cx.freeze(a)
    r = cx.call(PauliSum.__truediv__, a, x)
    inv = sc(1.0 / x)
    i = V.index_var("i")
    cx.same(terms_of(cx, r), PyList((Fam(A.t, i, term_at(cx, "a", i).scaled(inv)),)), "terms")
    cx.prove(SBool(V.eqv(inv * y, SComplex(z3.RealVal(1), z3.RealVal(0)))), "inverse of the number")


# ---------------------------------------------------------------- powers
class Power:
    """rep ** k as an element of the monoid generated by rep"""

    __pyvc_value__ = True

    def __init__(self, cls, k):
        self.cls, self.k = cls, toint(k)

    def __pyvc_isinstance__(self, I, cls):
        return isinstance(cls, type) and issubclass(self.cls, cls)

    def __pyvc_class__(self, I):
        return self.cls

    def __pyvc_getattr__(self, I, name):
        raise Unsupported(name)

    def __pyvc_eqv__(self, o):
        return isinstance(o, Power) and self.cls is o.cls and mkbool(self.k == o.k)

    def __pyvc_subst__(self, f):
        return Power(self.cls, f(SInt(self.k)))

    def __pyvc_syntax__(self):
        return (SInt(self.k),)

    def __mul__(self, o):
        if not isinstance(o, Power) or o.cls is not self.cls:
            raise Unsupported("product with something else")
        return Power(self.cls, z3.simplify(self.k + o.k))

    def copy(self, *a):
        if a:
            raise Unsupported("copy with a coefficient")
        return self

    def __pyvc_getattr__(self, I, name):
        if name == "copy":
            return self.copy
        raise Unsupported(name)


@obligation("C03")
def power_step(cx):
    """_efficient_exponentiation(rep, n) = rep^n for terms and sums and every n >= 0, assuming it for all smaller exponents
    (products: associativity of the product, obligations product_of_terms, sum_times; identity: obligation identities)"""
    den(cx)
    cls = [PauliTerm, PauliSum][cx.pick(2)]
    cx.contract(cls.identity, lambda I: Power(cls, 0))
    n = cx.int("n", 0)
    rep = Power(cls, 1)

    def smaller(I, r, k):
        k = toint(k)
        cx.prove(SBool(z3.And(k >= 0, k < n.t)), "recursive call on a smaller exponent")
        if not isinstance(r, Power):
            raise Unsupported("power of something else")
        return Power(cls, z3.simplify(r.k * k))

    cx.contract(po._efficient_exponentiation, smaller)
    r = cx.body(po._efficient_exponentiation, rep, n)
    cx.prove(isinstance(r, Power), "a power")
    cx.prove(SBool(r.k == n.t), "exponent")


@obligation("C03")
def powers(cx):
    """rep ** n: the exponentiation for n >= 0; ValueError for negative and for non-integer exponents"""
    den(cx)
    cls = [PauliTerm, PauliSum][cx.pick(2)]
    cx.contract(po._efficient_exponentiation, lambda I, r, k: Power(cls, r.k * toint(k)))
    rep, n = Power(cls, 1), cx.int("n")
    k = cx.pick(3)
    if k == 0:
        cx.assume(n >= 0)
        cx.prove(SBool(cx.call(cls.__pow__, rep, n).k == n.t), "power")
    elif k == 1:
        cx.assume(n < 0)
        cx.raises((ValueError,), cls.__pow__, rep, n)
    else:
        cx.raises((ValueError,), cls.__pow__, rep, cx.real("x"))


# ---------------------------------------------------------------- equality
def compared(cx):
    den(cx)
    cx.contract(PauliTerm.operations.fget, lambda I, t: SInt(t.w[0].v.args[1]) if t.w else 0)


def near(x):
    x = sc(x)
    return zb(core.cur.interp.call(np.isclose, [x, 0.0]))


@obligation("C03")
def equal_terms(cx):
    """term == term, term == number: the coefficients differ by at most 1e-8 and the letters are the same unless both are 0
    (within the tolerance)"""
    compared(cx)
    a, b, x = PT.string(cx.complex("a"), "string", z3.Int("ca")), PT.string(cx.complex("b"), "string", z3.Int("cb")), numbers(cx)
    if cx.pick(2):
        r = cx.call(PauliTerm.__eq__, a, b)
        cx.prove(SBool(zb(r) == z3.And(near(a.c - b.c), z3.Or(near(a.c), z3.Int("ca") == z3.Int("cb")))), "term == term")
    else:
        r = cx.call(PauliTerm.__eq__, a, x)

        cx.prove(SBool(zb(r) == z3.And(near(a.c - sc(x)), z3.Or(near(a.c), z3.Int("ca") == 0))), "term == number")


@obligation("C03")
def equal_sums(cx):
    """sum == sum, sum == number, sum == term, term == sum: the simplified difference has no terms left; an empty sum equals exactly
    the terms with coefficient 0 (within the tolerance)"""
    compared(cx)

    def mul(I, a, b):
        b = V.force(b)
        return a.mul(b) if isinstance(b, PT) else a.scaled(b)

    cx.contract(PauliTerm.__mul__, mul)
    A, C, L = cx.int("A", 0), cx.int("C", 0), z3.Function("left", Zi, Zi)
    cx.assume(SBool(z3.And(L(0) >= 0, L(1) >= 0)))
    seen, negated = [], []

    def simplified(I, s):
        segs = tuple(I.iter_segs(I.getattr(s, "terms")))
        if len(segs) == 1 and isinstance(segs[0], Fam) and not negated:
            v = V.index_var("i")
            if V.seq_eqv(segs, (Fam(C.t, v, term_at(cx, "b", v).scaled(-1.0)),)) is True:
                negated.append(1)
                return real_sum(segs)  # the negated second operand
        if (not segs or len(segs) == 1 and isinstance(segs[0], One)) and not negated:
            negated.append(1)
            return real_sum(segs)
        seen.append(segs)
        return real_sum(some_terms(cx, "rest", SInt(L(0))))

    cx.contract(PauliSum.simplify, simplified)
    a, b = real_sum(some_terms(cx, "a", A)), real_sum(some_terms(cx, "b", C))
    t, x = PT.string(cx.complex("t"), "string", z3.Int("ct")), numbers(cx)
    cx.freeze(a), cx.freeze(b)
    i = V.index_var("i")
    k = cx.pick(4)
    if k == 0:
        r, e = cx.call(PauliSum.__eq__, a, b), (Fam(C.t, i, term_at(cx, "b", i).scaled(-1.0)),)
    elif k == 1:
        r, e = cx.call(PauliSum.__eq__, a, x), (One(PT(x).scaled(-1.0)),)
    else:
        r = cx.call(PauliSum.__eq__, a, t) if k == 2 else cx.call(PauliTerm.__eq__, t, a)
        e = (One(t.scaled(-1.0)),)
        if cx.choose(A.t == 0):
            if seen:
                cx.prove(SBool(zb(r) == (L(0) == 0)), "no terms left")
            else:
                cx.prove(SBool(zb(r) == near(t.c)), "empty sum")
            return
    cx.prove(len(seen) == 1, "one simplified difference")
    cx.same(PyList(seen[0]), PyList(some_terms(cx, "a", A) + e), "the terms of the difference")
    cx.prove(SBool(zb(r) == (L(0) == 0)), "no terms left")


cls = z3.Function("cls", Zi, Zi)


@obligation("C03")
def simplify(cx):
    """PauliSum.simplify, for any list of terms with any coincidences of their strings: one term per string whose coefficients do not
    add up to 0 (within 1e-8), in order of first occurrence, with the sum of the coefficients; hence the denoted matrix does
    not change (up to the dropped ones); the operator is not written"""
    den(cx)
    cx.contract(PauliTerm.operations.fget, lambda I, t: SInt(t.w[0].v.args[1]))
    N = cx.int("N", 0)
    v = V.index_var("t")
    re, im = z3.Function("c.re", Zi, R), z3.Function("c.im", Zi, R)
    t = PT.string(SComplex(re(v), im(v)), "string", cls(v))
    s = real_sum((Fam(N.t, v, t),))
    cx.freeze(s)
    r = cx.call(PauliSum.simplify, s)
    from vc.pyvc import groups

    gr = groups.grouping(cx.e, N.t, v, SInt(cls(v)))
    g, u = V.index_var("g"), V.index_var("u")
    x, y = (V.sum_term(gr.size(g), u, f(gr.mem(g, u))) for f in (re, im))
    total = SComplex(x, y)
    keep = z3.Not(zb(cx.call(np.isclose, total, 0.0)))
    cx.same(terms_of(cx, r), PyList((Flat(gr.G, g, (Guard(keep, (One(PT.string(total, "string", cls(gr.mem(g, z3.IntVal(0))))),)),)),)), "one term per string")


def zb(b):
    return b.t if isinstance(b, SBool) else z3.BoolVal(bool(b))


@obligation("C03")
def close(cx):
    """the tolerance: np.isclose(c, 0) and np.allclose(c, d, rtol=0) mean |c - d| <= 1e-8"""
    c = cx.complex("c")
    cx.e.near_defined = True
    b = zb(cx.call(np.isclose, c, 0.0))
    cx.prove(SBool(b == (c.re * c.re + c.im * c.im <= z3.Q(*(1e-8).as_integer_ratio()) * z3.Q(*(1e-8).as_integer_ratio()))), "isclose")

"""Embedding of a gate matrix into a register (shared by C01 and C04): qubit 0 is the most significant bit of a basis index."""
import functools

import numpy as np
import sympy

from vc.pyvc import bits, sarr
from vc.pyvc.driver import *
from vc.pyvc.driver import V, z3
from vc.pyvc.lin import Meth
from orquestra.quantum.circuits import _unitary_tools as ut

Z, B = z3.IntSort(), z3.BoolSort()
TRUSTED = [bits.NOTE, bits.TEXT,
           "Kronecker product: factors act on consecutive groups of qubits; a Kronecker product of n basis vectors of one qubit is the basis vector with their bits",
           "conjugating by the permutation matrix of an order moves position p to position order[p]"]


def basis_bitstring(cx):
    """_basis_bitstring(i, n), n >= 1: the n bits of i, most significant first"""
    n, i = cx.int("n", 1), cx.int("i", 0)
    cx.assume(i < core.mk_pow2(n.t))
    q = V.index_var("q")
    cx.same(cx.call(ut._basis_bitstring, i, n), PyList((Fam(n.t, q, bits.bit(i.t, z3.simplify(n.t - 1 - q))),)), "bits")


BV = z3.Function("bit of the state", Z, B)


def dense(cx, sym):
    n = cx.int("n", 1)
    q = V.index_var("q")
    state = PyList((Fam(n.t, q, SInt(z3.If(BV(q), z3.IntVal(1), z3.IntVal(0)))),))
    got = []

    def kron(I, segs, **kw):
        got.append(V.norm_segs(segs))
        return Abs("kron")

    kron.stars = True
    S = cx.I.shims
    if sym:
        S[sympy.kronecker_product] = kron
    else:
        def red(I, f, it, *init):
            if init or f is not np.kron:
                raise Unsupported("another product")
            return kron(I, I.iter_segs(it))

        S[functools.reduce] = red
    f = ut._bitstring_to_sympy_dense_vector if sym else ut._bitstring_to_numpy_dense_vector
    cx.same(cx.call(f, state), Abs("kron"), "the product")
    cx.prove(len(got) == 1 and len(got[0]) == 1 and isinstance(got[0][0], Fam), "one factor for every bit")
    (fam,) = got[0]
    cx.prove(SBool(fam.n == n.t), "one factor for every bit")

    def factor(j):
        v = V.inst(fam, toint(j))
        out = []
        for c, x in v.alts if isinstance(v, Cases) else [(z3.BoolVal(True), v)]:
            x = [int(y) for y in np.asarray(x.tolist() if isinstance(x, sympy.MatrixBase) else x).reshape(-1)] if not isinstance(x, sarr.FArr) else [x.elem(0), x.elem(1)]
            want = [z3.If(BV(toint(j)), 0, 1), z3.If(BV(toint(j)), 1, 0)]
            out.append(z3.Implies(c, z3.And(len(x) == 2, *[toint(a) == b for a, b in zip(x, want)])))
        return z3.And(*out)

    cx.each(n, factor, "the basis vector of every bit, in order")


def numpy_vector(cx):
    """_bitstring_to_numpy_dense_vector(n bits): the Kronecker product of the basis vectors of the bits in order"""
    dense(cx, False)


def sympy_vector(cx):
    """_bitstring_to_sympy_dense_vector(n bits): the Kronecker product of the basis vectors of the bits in order"""
    dense(cx, True)


SAME = z3.Function("basis index has the permuted bits of", Z, Z, B)
ORD = z3.Function("order", Z, Z)


class Order:
    """a permutation of 0 .. m-1"""

    __pyvc_value__ = True

    def __init__(self, m, ok=True):
        self.m, self.ok = m, ok

    def __pyvc_iter__(self, I):
        p = V.index_var("p")
        return (Fam(toint(self.m), p, SInt(ORD(p))),)

    def __pyvc_len__(self, I=None):
        return mkint(toint(self.m))

    def __pyvc_getitem__(self, I, k):
        return SInt(ORD(toint(force(k))))

    def __pyvc_sorted__(self, I, *a, **k):
        p = V.index_var("p")
        if self.ok:
            return PyList((Fam(toint(self.m), p, SInt(p)),))
        return PyList((Fam(toint(self.m), p, SInt(z3.Function("sorted", Z, Z)(p))),))


def permutation_matrix(cx):
    """_permutation_matrix(order of m >= 1 qubits): column i is the basis vector whose bit at position p is bit order[p] of i, for every
    basis index i; ValueError when the order is no permutation"""
    sarr.install(cx.I)
    m = cx.int("m", 1)
    M = core.mk_pow2(m.t)
    good = cx.pick(2) == 1
    a = V.index_var("a")
    if good:
        cx.e.add_qfact(m.t, a, z3.And(ORD(a) >= 0, ORD(a) < m.t))
    else:
        x = cx.int("x", 0)
        cx.assume(x < m)
        cx.e.reg_index(x.t)
        cx.assume(SBool(z3.Function("sorted", Z, Z)(x.t) != x.t))
    order = Order(m, good)
    cx.contract(ut._basis_bitstring, lambda I, i, n: bits_of(I, i, n))

    def vector(I, state):
        segs = V.norm_segs(I.iter_segs(state))
        if len(segs) != 1 or not isinstance(segs[0], Fam) or not I.e.valid(segs[0].n == m.t):
            raise ProofFailed("permutation", "another number of bits")
        d = bits.digit_of(V.inst(segs[0], z3.Int("probe")))
        if d is None:
            raise Unsupported("not bits of the basis index")
        i = d[0]
        p = segs[0].var

        def ok(p_):
            d = bits.digit_of(V.inst(segs[0], toint(p_)))
            return z3.And(d[0] == i, d[1] == m.t - 1 - ORD(toint(p_))) if d is not None else z3.BoolVal(False)

        if not V.holds_generic(m.t, ok):
            raise ProofFailed("permutation", "position p does not hold the bit order[p]")
        return sarr.FArr.fn((M,), lambda j: SInt(z3.If(SAME(j, i), z3.IntVal(1), z3.IntVal(0))), "i")

    zeros = lambda I, shape: sarr.FArr.fn(tuple(force(shape)), lambda i, j: 0, "i")
    if not good:
        cx.raises(ValueError, ut._permutation_matrix, order, Meth(zeros), Meth(vector))
        return
    r = cx.call(ut._permutation_matrix, order, Meth(zeros), Meth(vector))
    cx.same(r, sarr.FArr.fn((M, M), lambda j, i: SInt(z3.If(SAME(j, i), z3.IntVal(1), z3.IntVal(0))), "i"), "columns")


def bits_of(I, i, n):
    i, n = toint(i), toint(n)
    if not I.e.valid(z3.And(n >= 1, i >= 0, i < toint(core.mk_pow2(n)))):
        raise ProofFailed("basis states", "_basis_bitstring of a number outside the register")
    q = V.index_var("q")
    return PyList((Fam(n, q, bits.bit(i, z3.simplify(n - 1 - q))),))


QB = z3.Function("qubit", Z, Z)
IN = z3.Function("is a listed qubit", Z, B)


class Qubits:
    """k different qubits"""

    __pyvc_value__ = True

    def __init__(self, k, shift=0):
        self.k = k

    def __pyvc_iter__(self, I):
        j = V.index_var("j")
        return (Fam(toint(self.k), j, SInt(QB(j))),)

    def __pyvc_len__(self, I=None):
        return mkint(toint(self.k))

    def __pyvc_contains__(self, I, x):
        return mkbool(IN(toint(force(x))))

    def __pyvc_getitem__(self, I, j):
        return SInt(QB(toint(force(j))))

    def __pyvc_set__(self, I, cls):
        return QubitSet(self.k)


class QubitSet:
    """the set of the qubits: membership and size"""

    __pyvc_value__ = True

    def __init__(self, k):
        self.k = k

    def __pyvc_len__(self, I=None):
        return mkint(toint(self.k))

    def __pyvc_contains__(self, I, x):
        return mkbool(IN(toint(force(x))))

    def __pyvc_getattr__(self, I, name):
        raise Unsupported(f"{name} of the set of qubits")


def adjacent_order(cx):
    """_permutation_making_qubits_adjacent(qubits, m): the listed qubits in order, then the other positions of 0 .. m-1 in increasing order"""
    k, m = cx.int("k", 1), cx.int("m", 1)
    r = cx.call(ut._permutation_making_qubits_adjacent, Qubits(k), m)
    j, i = V.index_var("j"), V.index_var("i")
    cx.same(r, PyList((Fam(k.t, j, SInt(QB(j))), Flat(m.t, i, (Guard(z3.Not(IN(i)), (One(SInt(i)),)),)))), "order")


# ---------------------------------------------------------------- matrices acting on listed qubits
class On:
    """a matrix of n qubits acting as G on the listed positions (k of them, the function q) and as the identity on the others; G None:
    the identity"""

    __pyvc_value__ = True
    __array_ufunc__ = None

    def __init__(self, n, G=None, k=None, q=None):
        self.n, self.G, self.k, self.q = n, G, k, q

    def moved(self, n, f):
        return On(z3.simplify(n), self.G, self.k, (lambda j, q=self.q: f(q(j))) if self.q else None)

    def __matmul__(self, o):
        return Product([self]) @ o

    def __pyvc_getattr__(self, I, name):
        raise Unsupported(f"{name} of a matrix on a register")


class Perm:
    """the permutation matrix of an order, or its transpose"""

    __pyvc_value__ = True
    __array_ufunc__ = None

    def __init__(self, order, t=False):
        self.order, self.t = order, t

    def __pyvc_getattr__(self, I, name):
        if name in ("transpose", "T", "conj"):
            f = lambda I: Perm(self.order, not self.t)
            return Perm(self.order, not self.t) if name == "T" else Meth(f) if name == "transpose" else Meth(lambda I: self)
        raise Unsupported(f"{name} of a permutation matrix")

    def __matmul__(self, o):
        return Product([self]) @ o


class Product:
    __pyvc_value__ = True
    __array_ufunc__ = None

    def __init__(self, fs):
        self.fs = fs

    def __matmul__(self, o):
        fs = self.fs + (o.fs if isinstance(o, Product) else [o])
        if len(fs) == 3 and isinstance(fs[0], Perm) and isinstance(fs[2], Perm) and fs[0].order is fs[2].order and isinstance(fs[1], On):
            if not fs[0].t or fs[2].t:
                raise ProofFailed("lifting", "conjugation by the inverse permutation")
            order, x = fs[0].order, fs[1]
            if not core.cur.valid(toint(order.m) == toint(x.n)):
                raise ProofFailed("lifting", "dimensions of the permutation and of the matrix differ")
            return x.moved(toint(x.n), order.at)
        return Product(fs)


class Listed:
    """the order made by _permutation_making_qubits_adjacent: it starts with the listed positions"""

    __pyvc_value__ = True

    def __init__(self, k, f, m):
        self.k, self.f, self.m = k, f, m

    def at(self, p):
        if not core.cur.valid(z3.And(p >= 0, p < self.k)):
            raise Unsupported("position of another qubit")
        return self.f(p)


class Gate:
    """the matrix of a gate of k qubits"""

    __pyvc_value__ = True
    __array_ufunc__ = None

    def __pyvc_array__(self):
        return self


def lift(cx):
    """_lift_matrix_numpy / _lift_matrix_sympy(matrix of k qubits, k different qubits, n): acts as the matrix on the named qubits in the listed
    order (the first listed is the most significant of the matrix) and as the identity on the others, on exactly n qubits; for every k,
    every order and every n; over the contracts of the permutation"""
    k, n = cx.int("k", 1), cx.int("n", 1)
    a = V.index_var("a")
    cx.e.add_qfact(k.t, a, z3.And(QB(a) >= 0, QB(a) < n.t))
    G = Gate()
    e = cx.e
    low, high = z3.Int("smallest"), z3.Int("largest")
    cx.e.add_qfact(k.t, a, z3.And(QB(a) >= low, QB(a) <= high))
    cx.assume(SBool(z3.And(low >= 0, low <= high, high < n.t, high - low + 1 >= k.t)))
    S = cx.I.shims
    qs = Qubits(k)
    omin, omax = S[min], S[max]
    S[min] = lambda I, *x, **kw: SInt(low) if len(x) == 1 and force(x[0]) is qs and not kw else omin(I, *x, **kw)
    S[max] = lambda I, *x, **kw: SInt(high) if len(x) == 1 and force(x[0]) is qs and not kw else omax(I, *x, **kw)
    cx.e.trusted.add("k different integers between the smallest and the largest of them: k <= largest - smallest + 1")

    def order(I, lst, m):
        segs = V.norm_segs(I.iter_segs(lst))
        if len(segs) != 1 or not isinstance(segs[0], Fam):
            raise Unsupported("list of positions")
        f = segs[0]
        if not V.holds_generic(f.n, lambda j: z3.And(toint(V.inst(f, toint(j))) >= 0, toint(V.inst(f, toint(j))) < toint(m))):
            raise ProofFailed("lifting", "positions outside the inner register")
        return Listed(f.n, lambda p: toint(V.inst(f, p)), m)

    cx.contract(ut._permutation_making_qubits_adjacent, order)
    cx.contract(ut._permutation_matrix, lambda I, o, zeros, vec: Perm(force(o)))

    def width(d):
        t = z3.simplify(toint(force(d)))
        c = 1
        if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
            c, t = t.arg(0).as_long(), t.arg(1)
        if z3.is_app(t) and t.decl().name() == "pow2" and c > 0 and c & (c - 1) == 0:
            return z3.simplify(t.arg(0) + (c.bit_length() - 1))
        if c != 1:
            raise Unsupported("dimension")
        if z3.is_app(t) and t.decl().name() == "pow2":
            return t.arg(0)
        if z3.is_int_value(t) and t.as_long() & (t.as_long() - 1) == 0 and t.as_long():
            return z3.IntVal(t.as_long().bit_length() - 1)
        for c in getattr(cx, "exponents", []):
            if e.valid(toint(core.mk_pow2(c)) == t):
                return c
        raise Unsupported("dimension")

    def eye(I, d):
        w = width(d)
        if not e.valid(w >= 0):
            raise ProofFailed("lifting", "identity of a negative number of qubits")
        return On(w)

    def kron(I, x, y, *more):
        x, y = force(x), force(y)
        if more:
            return kron(I, kron(I, x, y), *more)
        x, y = [On(k.t, G, k.t, lambda j: j) if v is G else v for v in (x, y)]
        if not isinstance(x, On) or not isinstance(y, On):
            raise Unsupported("Kronecker product of other matrices")
        if x.G is not None and y.G is not None:
            raise ProofFailed("lifting", "the matrix twice")
        n_ = z3.simplify(x.n + y.n)
        return x.moved(n_, lambda p: p) if y.G is None else y.moved(n_, lambda p: z3.simplify(p + x.n))

    old = S.get(np.array)
    numpy = cx.pick(2) == 1
    S[np.array] = lambda I, x, **kw: G if force(x) is G else old(I, x, **kw)
    S[np.eye] = S[sympy.eye] = eye
    S[np.kron] = S[sympy.kronecker_product] = kron
    r = cx.call(ut._lift_matrix_numpy if numpy else ut._lift_matrix_sympy, G, qs, n)
    cx.prove(isinstance(r, On) and r.G is G, "acts as the matrix")
    cx.prove(SBool(r.n == n.t), "on the whole register")
    cx.prove(SBool(toint(r.k) == k.t), "on k qubits")
    cx.each(k, lambda j: r.q(toint(j)) == QB(toint(j)), "on the named qubits in order")


OBS = [basis_bitstring, numpy_vector, sympy_vector, permutation_matrix, adjacent_order, lift]


def register(prop):
    for f in OBS:
        obligation(prop, name=f.__name__)(f)

"""C09: operator-to-matrix conversions.

Terms with any letters on any qubits and any coefficients; sums of any number of terms; any register width."""
import numpy as np
import scipy.sparse

from vc.pyvc.driver import *
from vc.pyvc.driver import V, z3
from vc.pyvc import count, pauli, sparse
from vc.pyvc.lin import At
from vc.pyvc.pauli import Letters, Term, PT, NQ
from vc.pyvc.sparse import SpM, SpSum, ident, scalar
from vc.proof.c03 import setup, summed, letters, real_term, real_sum, some_terms, term_at, terms_of
from orquestra.quantum.operators import PauliSum, PauliTerm, _utils as ou
from orquestra.quantum.operators._openfermion_utils import sparse_tools as sp, operator_utils as opu

from orquestra.quantum.wavefunction import Wavefunction
import scipy.sparse.linalg

Zi, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
Wd = z3.Int("width")  # the operator's own width


def code(f, top=3):
    """any integer as a letter code"""
    r = z3.IntVal(0)
    for k in range(top, 0, -1):
        r = z3.If(f == k, k, r)
    return r


def letter_fn(name, j, width=None):
    """letters of term j: any, on qubits below the width"""
    f = z3.Function(name, Zi, Zi, Zi)
    j = toint(j)
    return Letters.of(lambda q: code(f(j, q)) if width is None else z3.If(q < width, code(f(j, q)), 0))


def terms(cx, name, N, width=None):
    v = V.index_var("t")
    re, im = z3.Function(name + ".re", Zi, R), z3.Function(name + ".im", Zi, R)
    return Fam(toint(N), v, Term(letter_fn(name, v, width), SComplex(re(v), im(v))))


def chain(t, n):
    """the Kronecker product of the definition: qubit 0 leftmost, identities on the qubits without a letter, up to width n"""
    f = t.d.set().enumerate_(increasing=True)[0]
    j, m = f.var, f.n
    q = lambda x: toint(V.inst(f, z3.simplify(toint(x))))
    start = z3.If(j > 0, q(j - 1) + 1, 0)
    p = t.d.at(f.val)
    body = ident(q(j) - start) + tuple(Guard(p == k, (One(At("s", (z3.IntVal(k),))),)) for k in (1, 2, 3))
    return SpM(scalar(t.c) + (Flat(m, j, body),) + ident(toint(n) - z3.If(m > 0, q(m - 1) + 1, 0)))


@obligation("C09")
def sparse_matrix(cx):
    """get_sparse_operator(op, n) for n at least the operator's width (or the width when n is absent): the sum over the terms of the
    coefficient times the Kronecker product, qubit 0 leftmost, identities elsewhere; the zero matrix of the right size for no terms;
    ValueError for n below the width; TypeError for other objects"""
    setup(cx)
    sparse.install(cx.I)
    cx.assume(SBool(z3.And(Wd >= 0, Wd <= NQ)))
    N, n = cx.int("N", 0), cx.int("n", 0)
    f = terms(cx, "letter", N, Wd)
    cx.contract(PauliSum.n_qubits.fget, lambda I, s: SInt(Wd))
    cx.contract(PauliTerm.n_qubits.fget, lambda I, s: SInt(Wd))
    single = cx.pick(2)
    if single:
        t = V.inst(f, z3.IntVal(0))
        op, want = t, (One(t),)
    else:
        op, want = real_sum((f,)), (f,)
        cx.freeze(op)
    given = cx.pick(2)
    if given and not cx.choose(n.t >= Wd):
        cx.raises((ValueError,), sp.get_sparse_operator, op, n)
        return
    r = cx.call(sp.get_sparse_operator, op, n) if given else cx.call(sp.get_sparse_operator, op)
    w = n.t if given else Wd
    cx.prove(isinstance(r, SpSum) and not r.transposed, "a sparse matrix")
    cx.prove(SBool(toint(r.dim) == toint(core.mk_pow2(w))), "dimension")
    if single:
        cx.same(PyList(r.segs), PyList((One(chain(t, w)),)), "Kronecker products")
        return
    cx.same(cx.len(PyList(r.segs)), N, "one product per term")
    if r.segs:
        cx.each(N, lambda j: V.eqv(cx.I.getitem(PyList(r.segs), j), chain(V.inst(f, j.t), w)), "Kronecker products")



@obligation("C09")
def width_of_term(cx):
    """PauliTerm.n_qubits: one more than the largest qubit with a letter, 0 when there is none"""
    setup(cx)
    d = letters(cx, "letter")
    t = real_term(d, cx.complex("c"))
    cx.freeze(t)
    w = toint(cx.get(t, "n_qubits"))
    cx.prove(SBool(z3.And(w >= 0, w <= NQ)), "range")

    def covered(j):
        d.set().position(j.t)
        return SBool(z3.Implies(d.at(j) != 0, j.t < w))

    cx.each(NQ, covered, "covers every letter")
    cx.prove(SBool(z3.Implies(w > 0, d.at(w - 1) != 0)), "no larger")


@obligation("C09")
def width_of_sum(cx):
    """PauliSum.n_qubits: one more than the largest qubit with a letter in any term, 0 when there is none"""
    setup(cx)
    N = cx.int("N", 0)
    f = terms(cx, "letter", N)
    s = real_sum((f,))
    cx.freeze(s)
    w = toint(cx.get(s, "n_qubits"))
    cx.prove(SBool(z3.And(w >= 0, w <= NQ)), "range")

    def covered(t):
        d = V.inst(f, t.t).d

        def at(q):
            d.set().position(q)
            return z3.Implies(d.at(q) != 0, q < w)

        return V.holds_generic(NQ, at)

    cx.each(N, covered, "covers every letter")
    if cx.choose(w > 0):
        v = V.index_var("t")
        cx.e.add_qfact(N.t, v, V.inst(f, v).d.at(w - 1) == 0)
        cx.prove(False, "no larger: some term has a letter on the last qubit")


def appending(cx):
    """contract of sum + term (C03 sum_plus)"""
    cx.contract(PauliSum.__add__, lambda I, s, o: real_sum(tuple(I.iter_segs(I.getattr(s, "terms"))) + tuple(I.iter_segs(I.getattr(V.force(o), "terms")))))


@obligation("C09")
def conjugate(cx):
    """hermitian_conjugated: the coefficient of every term conjugated, the strings kept (strings are their own conjugate transposes);
    TypeError for other objects"""
    summed(cx)
    appending(cx)
    k = cx.pick(5)
    if k >= 2:
        c = (np.ndarray, scipy.sparse.csr_matrix)[k - 2] if k < 4 else None
        if c is None:
            cx.raises((TypeError,), opu.hermitian_conjugated, "X0")
        else:
            m = Lin.of("M", ("n", "n"), c)
            cx.same(cx.call(opu.hermitian_conjugated, m), m.H, "conjugate transpose")
        return
    if k:
        t = PT.string(cx.complex("c"), "A")
        r = cx.call(opu.hermitian_conjugated, t)
        cx.same(r, PT(SComplex(t.c.re, -t.c.im), t.w), "conjugated term")
        return
    N = cx.int("N", 0)
    s = real_sum(some_terms(cx, "a", N))
    cx.freeze(s)
    r = cx.call(opu.hermitian_conjugated, s)
    j = V.index_var("j")
    t = term_at(cx, "a", j)
    cx.same(terms_of(cx, r), PyList((Fam(N.t, j, PT(SComplex(t.c.re, -t.c.im), t.w)),)), "conjugated terms")


@obligation("C09")
def hermitian(cx):
    """is_hermitian(term or sum): the answer of comparing the operator with its Hermitian conjugate (== is C03's, up to tolerance);
    TypeError for other objects"""
    summed(cx)
    B, log = SBool(z3.Bool("equal")), []

    def eq(I, a, b):
        log.append((a, b))
        return B

    cx.contract(PauliSum.__eq__, eq)
    cx.contract(PauliTerm.__eq__, eq)
    cx.contract(opu.hermitian_conjugated, lambda I, a: real_sum((One(PT.string(SComplex(z3.Real("x"), z3.Real("y")), "conj")),)))
    k = cx.pick(3)
    if k == 2:
        cx.raises((TypeError,), opu.is_hermitian, "X0")
        return
    op = PT.string(cx.complex("c"), "A") if k else real_sum(some_terms(cx, "a", cx.int("N", 0)))
    r = cx.call(opu.is_hermitian, op)
    cx.same(r, B, "result of the comparison")
    cx.prove(len(log) == 1, "one comparison")
    (other,) = [x for x in log[0] if x is not op]
    cx.prove(any(x is op for x in log[0]), "of the operator")
    cx.same(terms_of(cx, other), PyList((One(PT.string(SComplex(z3.Real("x"), z3.Real("y")), "conj")),)), "with its conjugate")


class Built:
    """a term as the constructor was asked for it"""

    __pyvc_value__ = True

    def __init__(self, d, c):
        self.d, self.c = d, c

    __pyvc_isinstance__, __pyvc_class__, __pyvc_getattr__ = PT.__pyvc_isinstance__, PT.__pyvc_class__, PT.__pyvc_getattr__

    def __pyvc_eqv__(self, o):
        return isinstance(o, Built) and V.conj([V.eqv(self.c, o.c), V.eqv(self.d, o.d)])

    def __pyvc_subst__(self, f):
        return Built(f(self.d), f(self.c))

    def __pyvc_syntax__(self):
        return (self.d, self.c)


@obligation("C09")
def reversal(cx):
    """reverse_qubit_order(op, n), n at least the width (or the width): in every term the letter at qubit q moves to n - 1 - q, the
    coefficient is kept; ValueError for n below the width"""
    setup(cx)
    appending(cx)
    cx.assume(SBool(z3.And(Wd >= 0, Wd <= NQ)))
    N, n = cx.int("N", 0), cx.int("n", 0)
    f = terms(cx, "letter", N, Wd)
    cx.contract(PauliSum.n_qubits.fget, lambda I, s: SInt(Wd))
    cx.contract(PauliTerm.n_qubits.fget, lambda I, s: SInt(Wd))
    cx.contract(PauliTerm, lambda I, d, c: Built(V.force(d), c))
    single = cx.pick(2)
    op = V.inst(f, z3.IntVal(0)) if single else real_sum((f,))
    cx.freeze(op)
    given = cx.pick(2)
    if given and not cx.choose(n.t >= Wd):
        cx.raises((ValueError,), ou.reverse_qubit_order, op, n)
        return
    r = cx.call(ou.reverse_qubit_order, op, n) if given else cx.call(ou.reverse_qubit_order, op)
    w = n.t if given else Wd
    out = terms_of(cx, r)
    cx.same(cx.len(out), 1 if single else N, "one term per term")

    def check(j):
        t, b = V.inst(f, j.t), V.force(cx.I.getitem(out, j))
        (x,) = t.d.items()
        q = x.val[0].t
        return V.conj([isinstance(b, Built), V.eqv(b.c, t.c), V.eqv(b.d, PyDict((Fam(x.n, x.var, (SInt(w - 1 - q), x.val[1])),)))])

    if single:
        cx.prove(_b(check(SInt(z3.IntVal(0)))), "letters moved")
    elif cx.choose(N.t > 0):
        cx.each(N, check, "letters moved")


def _b(c):
    return c if isinstance(c, bool) else SBool(c)


# ---------------------------------------------------------------- expectation values
class Lin:
    """product of named vectors and matrices: factors (name, conjugated, transposed); dims: per axis "n" or 1"""

    __pyvc_value__ = True
    __array_ufunc__ = None

    def __init__(self, word, dims, cls):
        self.word, self.dims, self.cls = tuple(word), tuple(dims), cls

    @classmethod
    def of(cls, name, dims, c):
        return cls(((name, False, False),), dims, c)

    shape = property(lambda s: tuple(core.mk_pow2(NQ) if d == "n" else 1 for d in s.dims))
    ndim = property(lambda s: len(s.dims))

    def conjugate(self):
        return Lin([(a, not c, t) for a, c, t in self.word], self.dims, self.cls)

    conj = conjugate

    @property
    def T(self):
        if len(self.dims) == 1:
            return self
        return Lin([(a, c, not t) for a, c, t in reversed(self.word)], self.dims[::-1], self.cls)

    H = property(lambda s: s.conjugate().T)

    def transpose(self):
        return self.T

    def getH(self):
        return self.H

    def prod(self, o):
        if not isinstance(o, Lin):
            raise Unsupported("product with something else")
        l, r = self.dims, o.dims
        if not l or not r or l[-1] != r[0]:
            raise ValueError("dimension mismatch")
        w = self.word
        if len(l) == 1 and len(self.word) == 1:
            # a vector on the left is a row
            w = tuple((a, c, True) for a, c, t in w)
        return Lin(w + o.word, l[:-1] + r[1:], self.cls)

    __matmul__ = dot = prod

    def __mul__(self, o):
        if self.cls is np.ndarray:
            raise Unsupported("elementwise product")
        return self.prod(o)

    def diagonal(self):
        if self.dims != ("n", "n"):
            raise Unsupported("diagonal")
        return Diag(self)

    def __pyvc_isinstance__(self, I, cls):
        return isinstance(cls, type) and issubclass(self.cls, cls)

    def __pyvc_getitem__(self, I, k):
        if self.dims == (1, 1) and V.force(k) == (0, 0):
            return Lin(self.word, (), self.cls)
        raise Unsupported("entry of a matrix")

    def __pyvc_eqv__(self, o):
        return isinstance(o, Lin) and self.dims == o.dims and self.word == o.word

    def __pyvc_subst__(self, f):
        return self

    def __pyvc_syntax__(self):
        return ()


class Diag:
    __pyvc_value__ = True
    __array_ufunc__ = None

    def __init__(self, m):
        self.m = m

    def sum(self):
        return Trace(self.m.word)


class Trace:
    """trace of a product: up to cyclic permutation"""

    __pyvc_value__ = True

    def __init__(self, word):
        self.word = min(word[k:] + word[:k] for k in range(len(word)))

    def __pyvc_eqv__(self, o):
        return isinstance(o, Trace) and self.word == o.word


def lin_shims(cx):
    S = cx.I.shims
    S[np.conjugate] = S[np.conj] = lambda I, x: V.force(x).conjugate()
    S[np.dot] = S[np.matmul] = lambda I, a, b: V.force(a).prod(V.force(b))
    S[np.vdot] = lambda I, a, b: V.force(a).conjugate().prod(V.force(b))
    S[np.sum] = lambda I, a: V.force(a).sum()
    S[np.trace] = lambda I, a: V.force(a).diagonal().sum()
    cx.e.trusted.add("numpy / scipy: dot, products, conjugate and transposes denote the mathematical operations")


def quadratic(S="S", psi="psi"):
    return ((psi, True, True), (S, False, False), (psi, False, False))


@obligation("C09")
def expectation(cx):
    """expectation(S, state): <psi|S|psi> for a row or column vector, the trace of state times S for a density matrix; ValueError for a
    linear operator with a density matrix and for other states"""
    lin_shims(cx)
    S = Lin.of("S", ("n", "n"), scipy.sparse.csc_matrix)
    k = cx.pick(5)
    if k == 0:
        cx.same(cx.call(sp.expectation, S, Lin.of("psi", ("n",), np.ndarray)), Lin(quadratic(), (), np.ndarray), "row vector")
    elif k == 1:
        cx.same(cx.call(sp.expectation, S, Lin.of("psi", ("n", 1), np.ndarray)), Lin(quadratic(), (), np.ndarray), "column vector")
    elif k == 2:
        r = cx.call(sp.expectation, S, Lin.of("rho", ("n", "n"), scipy.sparse.csc_matrix))
        cx.same(r, Trace((("rho", False, False), ("S", False, False))), "density matrix")
    elif k == 3:
        L = Lin.of("S", ("n", "n"), scipy.sparse.linalg.LinearOperator)
        cx.raises((ValueError,), sp.expectation, L, Lin.of("rho", ("n", "n"), scipy.sparse.csc_matrix))
    else:
        cx.raises((ValueError,), sp.expectation, S, "state")


class Wave(Abs):
    _pyclasses = (Wavefunction,)
    amplitudes = property(lambda s: Lin.of("psi", ("n",), np.ndarray))


@obligation("C09")
def expectation_value(cx):
    """get_expectation_value(op, wavefunction) on n qubits: the quadratic form of the amplitudes with the matrix of op on n qubits, of
    the operator with reversed qubit order when asked"""
    setup(cx)
    lin_shims(cx)
    log = []

    def matrix(I, op, n_qubits=None):
        log.append((op, n_qubits))
        return Lin.of("S", ("n", "n"), scipy.sparse.csc_matrix)

    def reverse(I, op, n_qubits=None):
        return ("reversed", op, n_qubits)

    cx.contract(sp.get_sparse_operator, matrix)
    cx.contract(ou.reverse_qubit_order, reverse)
    N = cx.int("N", 0)
    op = real_sum(some_terms(cx, "a", N))
    cx.freeze(op)
    rev = cx.pick(3)
    kw = [{}, dict(reverse_operator=False), dict(reverse_operator=True)][rev]
    r = cx.call(ou.get_expectation_value, op, Wave(), **kw)
    cx.same(r, Lin(quadratic(), (), np.ndarray), "quadratic form")
    cx.prove(len(log) == 1, "one matrix")
    o, n = log[0]
    cx.same(n, SInt(NQ), "width of the state")
    if rev == 2:
        cx.prove(isinstance(o, tuple) and o[0] == "reversed" and o[1] is op, "reversed operator")
        cx.same(o[2], SInt(NQ), "reversed on the width of the state")
    else:
        cx.prove(o is op, "the operator")


# ---------------------------------------------------------------- expansion of matrices
LETTERS = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}


def parsed(I, text):
    """contract of PauliTerm(text) (C04 parses it): a number, then letters; the number written by str() reads back as itself"""
    text = V.force(text)
    parts = list(text.parts) if isinstance(text, V.SStr) else [text]
    if len(parts) == 1 and isinstance(parts[0], str):
        t = PauliTerm(parts[0])
        return Built(dict(t._ops), t.coefficient)
    if not isinstance(parts[0], tuple) or not all(isinstance(p, str) for p in parts[1:]):
        raise Unsupported("text of a term")
    rest = "".join(parts[1:])
    if rest and not rest.startswith("*"):
        raise Unsupported("text of a term")
    return Built(dict(PauliTerm(rest[1:])._ops) if rest else {}, parts[0][1])


def expansion(cx, n):
    setup(cx)
    appending(cx)
    cx.contract(PauliTerm, parsed)
    d = 2**n
    m = [[cx.complex(f"m{r}_{c}") for c in range(d)] for r in range(d)]
    op = cx.call(ou.get_pauliop_from_matrix, PyList(tuple(One(PyList(tuple(One(x) for x in row))) for row in m)))
    total = [[SComplex(z3.RealVal(0), z3.RealVal(0)) for _ in range(d)] for _ in range(d)]
    for s in terms_of(cx, op).segs:
        t = V.force(s.v)
        p = np.eye(1)
        for q in range(n):
            p = np.kron(p, LETTERS[t.d.get(q, "I")])
        for r in range(d):
            for c in range(d):
                if p[r, c]:
                    total[r][c] = total[r][c] + pauli.sc(t.c) * pauli.sc(complex(p[r, c]))
    for r in range(d):
        for c in range(d):
            cx.same(total[r][c], m[r][c], f"entry {r}, {c}")


for _n in (0, 1, 2):
    obligation("C09", name=f"pauli_expansion_{_n}", text=f"get_pauliop_from_matrix: the expansion of any {2**_n} x {2**_n} matrix converts back to it",
               bounded=f"{2**_n} x {2**_n} matrices, any entries")(lambda cx, n=_n: expansion(cx, n))


@obligation("C09")
def not_a_qubit_matrix(cx):
    """get_pauliop_from_matrix: matrices that are not square or whose size is not a power of two are refused"""
    k = cx.pick(3)
    r, c = [(2, 3), (3, 3), (6, 6)][k]
    m = PyList(tuple(One(PyList(tuple(One(cx.complex(f"m{i}_{j}")) for j in range(c)))) for i in range(r)))
    cx.raises((Exception,), ou.get_pauliop_from_matrix, m)

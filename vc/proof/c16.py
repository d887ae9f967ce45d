"""C16: time evolution.

A Pauli term acts on any set of qubits of a register of any width, with any letters; sums have any number of terms."""
import numpy as np

from vc.pyvc.driver import *
from vc.pyvc.driver import V, z3
from vc.pyvc import alg, count
from vc.pyvc.alg import Alg, AMat, F
from vc.pyvc.count import IdxSet
from orquestra.quantum import evolution as ev
from orquestra.quantum.circuits import _builtin_gates as bg, _circuit, _gates
from orquestra.quantum.operators import PauliTerm

Zi, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
letter = z3.Function("letter", Zi, Zi, Zi)  # term, qubit -> 0 (nothing) 1 X 2 Y 3 Z
NQ = z3.Int("nq")


class Term(Abs):
    """a Pauli term"""

    _pyclasses = (PauliTerm,)

    def set(self):
        v = V.index_var("q")
        return IdxSet(SInt(NQ), v, letter(self.key[-1], v) != 0)

    @property
    def coefficient(self):
        return SComplex(self.fterm("re", R), self.fterm("im", R))

    @property
    def qubits(self):
        return self.set()

    @property
    def operations(self):
        return self.set()

    @property
    def is_constant(self):
        return mkbool(self.set().size == 0)

    def __pyvc_getitem__(self, I, q):
        p = letter(self.key[-1], toint(q))
        return Cases([(p == 1, "X"), (p == 2, "Y"), (p == 3, "Z"), (z3.Not(z3.Or(p == 1, p == 2, p == 3)), "I")])


def setup(cx):
    count.install(cx.I)
    cx.assume(SBool(NQ >= 1))
    t, q = z3.Ints("t q")
    cx.e.add(z3.ForAll([t, q], z3.And(letter(t, q) >= 0, letter(t, q) <= 3), patterns=[letter(t, q)]))

    # concatenation of circuits: C01 (the width is not part of this property)
    def add(I, a, b):
        b = V.force(b)
        more = V.segs_of(b.__dict__["_operations"]) if isinstance(b, _circuit.Circuit) else (One(b),)
        return make(V.segs_of(a.__dict__["_operations"]) + tuple(more))

    cx.contract(_circuit.Circuit.__add__, add)
    cx.contract(_circuit._circuit_size_by_operations, lambda I, ops: SInt(z3.Int("width")))
    cx.assume(SBool(z3.Int("width") >= 0))


def make(segs):
    c = object.__new__(_circuit.Circuit)
    c.__dict__.update(_operations=PyList(tuple(segs)), _n_qubits=SInt(z3.Int("width")))
    return c


def basis_gates(cx, term, el, inverse=False):
    """the basis change on one qubit"""
    q = SInt(el)
    p = letter(term.key[-1], el)
    h, rx = bg.H, cx.call(bg.RX, np.pi / 2)
    if inverse:
        h, rx = cx.get(h, "dagger"), cx.get(rx, "dagger")
    return (Guard(p == 1, (One(cx.call(h, q)),)), Guard(p == 2, (One(cx.call(rx, q)),)))


@obligation("C16")
def term_circuit(cx):
    """time_evolution_for_term of a Pauli string on any set of qubits with any letters: with q_0 < .. < q_{m-1} the qubits it acts
    on, first H for every X and RX(pi/2) for every Y, then CNOT(q_i, q_{i+1}) in increasing order, RZ(2 * time * coefficient) on
    q_{m-1}, the CNOTs again in decreasing order, the inverse basis changes; the empty circuit for a constant"""
    setup(cx)
    term = Term(z3.Int("t"))
    cx.freeze(term)
    time = cx.real("time")
    kind, c = cx.attempt(ev.time_evolution_for_term, term, time)
    im = toreal(V.force(term.coefficient.imag))
    eps = z3.Q(1, 10**8)
    if cx.choose(z3.Or(im > eps, -im > eps)):
        cx.prove(kind == "exc" and isinstance(c, ValueError), "complex coefficient: ValueError")
        return
    if kind == "exc":
        if cx.choose(im == 0):
            raise c
        cx.prove(isinstance(c, ValueError), "negligible imaginary part: accepted or ValueError")
        return
    m = term.set().size
    got = cx.get(c, "operations")
    if cx.choose(m == 0):
        cx.same(got, cx.list(), "a constant term: no operations")
        return
    el = term.set().enumerate_(increasing=True)[0]
    E = lambda i: subst(el.val, [(el.var, i)]).t
    i, j, k, l = (V.index_var(x) for x in "ijkl")

    rotation = cx.call(cx.call(bg.RZ, 2 * time * term.coefficient.real), SInt(E(m - 1)))
    down = z3.simplify(m - 2 - l)
    expected = PyList((
        Flat(m, i, basis_gates(cx, term, E(i))),
        Fam(m - 1, j, cx.call(bg.CNOT, SInt(E(j)), SInt(E(j + 1)))),
        One(rotation),
        Fam(m - 1, l, cx.call(bg.CNOT, SInt(E(down)), SInt(E(down + 1)))),
        Flat(m, k, basis_gates(cx, term, E(z3.simplify(m - 1 - k)), True)),
    ))
    cx.same(got, expected, "the circuit")


# ---------------------------------------------------------------- the circuit is the exponential
def matrix(cx, g):
    m = cx.get(g, "matrix")
    return m if isinstance(m, AMat) else AMat(m)


PAULI = dict(I=[[1, 0], [0, 1]], X=[[0, 1], [1, 0]], Y=[[0, Alg.cis_pi(F(-1, 2))], [Alg.cis_pi(F(1, 2)), 0]], Z=[[1, 0], [0, -1]])


def pauli(p):
    m = np.empty((2, 2), dtype=object)
    for i in range(2):
        for j in range(2):
            x = PAULI[p][i][j]
            m[i, j] = x if isinstance(x, Alg) else Alg.const(x)
    return AMat(m)


@obligation("C16")
def conjugations(cx):
    """on the library's own gates: conjugating Z by the basis change of a letter gives that letter (H for X, RX(pi/2) for Y,
    nothing for Z); CNOT turns Z on its target into Z Z and keeps Z on its control; CNOT and its inverse are the same; RZ(a) =
    cos(a/2) - i sin(a/2) Z for every a"""
    alg.install(cx.I)
    for letter_, g in (("X", bg.H), ("Y", cx.call(bg.RX, np.pi / 2)), ("Z", None)):
        if g is None:
            continue
        m, d = matrix(cx, g), matrix(cx, cx.get(g, "dagger"))
        cx.prove(d @ m == AMat(alg.eye(2)), f"{letter_}: the second basis change undoes the first")
        cx.prove(d @ pauli("Z") @ m == pauli(letter_), f"{letter_}: Z becomes {letter_}")
    c = matrix(cx, bg.CNOT)
    kr = lambda a, b: AMat(alg.kron(pauli(a).a, pauli(b).a))
    cx.prove(c @ c == AMat(alg.eye(4)), "CNOT undoes itself")
    cx.prove(cx.get(bg.CNOT, "dagger") is bg.CNOT, "the inverse of CNOT is CNOT")
    for a, b in (("I", "Z"), ("Z", "Z"), ("Z", "I"), ("I", "I")):
        x = "Z" if (a == "Z") != (b == "Z") else "I"
        cx.prove(c @ kr(a, b) @ c == kr(x, b), f"CNOT conjugates {a}{b} to {x}{b}")
    t = Alg.var("t")
    rz = matrix(cx, cx.call(bg.RZ, t))
    i = Alg.cis_pi(F(1, 2))
    half = F(1, 2)
    ep, em = alg.exp(i * t * half), alg.exp(i * t * F(-1, 2))
    cos, sin_i = (ep + em) * half, (ep - em) * half
    cx.prove(rz == pauli("I") * cos - pauli("Z") * sin_i, "rotation about Z")


@obligation("C16")
def ladder(cx):
    """conjugating Z on the last qubit by the CNOTs of the ladder (the last one innermost) gives Z on every qubit of the ladder:
    one step, for a ladder of any length"""
    m, i, p = cx.int("m", 1), cx.int("i", 0), cx.int("p", 0)
    cx.assume(SBool(z3.And(i.t < m.t - 1, p.t < m.t)))
    z = lambda at, q: q >= at  # Z on position q after the CNOTs from number `at` on
    after = z3.If(p.t == i.t, z3.Xor(z(i.t + 1, i.t), z(i.t + 1, i.t + 1)), z(i.t + 1, p.t))
    cx.prove(SBool(after == z(i.t, p.t)), "step")
    cx.prove(SBool(z(m.t - 1, p.t) == (p.t == m.t - 1)), "start")
    cx.prove(SBool(z(z3.IntVal(0), p.t)), "every qubit of the ladder")


@obligation("C16")
def shift_rule(cx):
    """for U(a) = cos(a/2) - i sin(a/2) P the three coefficient functions of U^dagger M U satisfy f'(a) = (f(a + pi/2) -
    f(a - pi/2)) / 2, for all a"""
    alg.install(cx.I)
    a = Alg.var("a")
    half = F(1, 2)
    fs = dict(
        cc=(lambda x: alg.cos(x * half) * alg.cos(x * half), alg.sin(a) * F(-1, 2)),
        ss=(lambda x: alg.sin(x * half) * alg.sin(x * half), alg.sin(a) * half),
        sc=(lambda x: alg.sin(x * half) * alg.cos(x * half), alg.cos(a) * half),
    )
    for name, (f, d) in fs.items():
        up, down = f(a + PI * half), f(a - PI * half)
        cx.prove((up - down) * half == d, name)


# ---------------------------------------------------------------- sums
count_ops = z3.Function("termops", Zi, Zi)


class Gate(Abs):
    """operation of the circuit of a term for a time"""


def piece(j, time):
    v = V.index_var("g")
    return Fam(count_ops(j), v, Gate(j, toreal(time), v))


class Hamiltonian(Abs):
    @property
    def terms(self):
        v = V.index_var("h")
        return PyList((Fam(z3.Int("T"), v, Term(v)),))


def sums(cx, real=True):
    setup(cx)
    a = z3.Int("a")
    cx.e.add(z3.ForAll([a], count_ops(a) >= 0, patterns=[count_ops(a)]))
    cx.assume(SBool(z3.Int("T") >= 0))
    if real:
        cx.e.add(z3.ForAll([a], z3.Function("Term..im", Zi, R)(a) == 0))
    cx.contract(ev.time_evolution_for_term, lambda I, t, time: make((piece(t.key[-1], time),)))
    h = Hamiltonian("H")
    return h, z3.Int("T")


def ops_of(cx, c):
    return cx.get(c, "operations")


@obligation("C16")
def steps(cx):
    """time_evolution: for every step, for every term in the order listed, the circuit of the term for time / n_steps"""
    h, T = sums(cx)
    time, n = cx.real("time"), cx.int("n", 1)
    c = cx.call(ev.time_evolution, h, time, "Trotter", n)
    s, j = V.index_var("s"), V.index_var("j")
    cx.same(ops_of(cx, c), PyList((Flat(n.t, s, (Flat(T, j, (piece(j, time / n),)),)),)), "steps of terms")


@obligation("C16")
def steps_default(cx):
    """one step unless said otherwise; other methods: ValueError"""
    h, T = sums(cx)
    time = cx.real("time")
    c = cx.call(ev.time_evolution, h, time)
    j = V.index_var("j")
    cx.same(ops_of(cx, c), PyList((Flat(T, j, (piece(j, time),)),)), "terms")
    cx.raises(ValueError, ev.time_evolution, h, time, "Other")
    cx.raises(ValueError, ev.time_evolution_derivatives, h, time, "Other")


def shifted(i, sign, time, n):
    """one step whose i-th term has its rotation angle 2 * time * c / n shifted by sign * pi / 2"""
    j = V.index_var("j")
    c = z3.Function("Term..re", Zi, R)(i)
    amount = z3.simplify(z3.If(c == 0, time.t / z3.ToReal(n.t), time.t / z3.ToReal(n.t) + sign * PIQ / (4 * c)))
    return (Flat(z3.Int("T"), j, (piece(j, SReal(z3.If(i == j, amount, time.t / z3.ToReal(n.t)))),)),)


PIQ = z3.Q(*np.pi.as_integer_ratio())
PI = Alg.var("pi")


def factor(i, sign, n):
    return SReal(sign * z3.Function("Term..re", Zi, R)(i) / z3.ToReal(n.t))


def pairs(i, time, n, wrap=lambda segs: segs):
    return tuple(One(make(wrap(shifted(i, s, time, n)))) for s in (1, -1))


@obligation("C16")
def derivative_one_step(cx):
    """time_evolution_derivatives with one step: for every term two circuits, its angle shifted by pi/2 and by -pi/2, with factors
    plus and minus its coefficient"""
    h, T = sums(cx)
    time = cx.real("time")
    n = SInt(z3.IntVal(1))
    circuits, factors = cx.call(ev.time_evolution_derivatives, h, time, "Trotter", 1)
    i = V.index_var("i")
    cx.same(factors, PyList((Flat(T, i, (One(factor(i, 1, n)), One(factor(i, -1, n)))),)), "factors")
    cx.same(circuits, PyList((Flat(T, i, pairs(i, time, n)),)), "circuits")


@obligation("C16")
def sequence(cx):
    """_generate_circuit_sequence: length copies, the one at the given position replaced; ValueError when there is no such position"""
    setup(cx)
    A, B_, n, p = cx.int("A", 0), cx.int("B", 0), cx.int("n", 0), cx.int("p", 0)
    same, other = copies(A, B_)
    cx.freeze(same), cx.freeze(other)
    if not cx.choose(p.t < n.t):
        cx.raises(ValueError, ev._generate_circuit_sequence, same, other, n, p)
        return
    c = cx.call(ev._generate_circuit_sequence, same, other, n, p)
    cx.same(ops_of(cx, c), PyList(spliced(same, other, n, p)), "copies")


def copies(A, B_):
    v, w = V.index_var("v"), V.index_var("w")
    return make((Fam(A.t, v, Gate("rep", v)),)), make((Fam(B_.t, w, Gate("diff", w)),))


def spliced(same, other, n, p):
    s = V.index_var("s")
    a, b = (tuple(V.segs_of(x.__dict__["_operations"])) for x in (same, other))
    return (Flat(toint(n), s, (Guard(z3.Not(s == toint(p)), a), Guard(s == toint(p), b))),)


@obligation("C16")
def derivative_steps(cx):
    """time_evolution_derivatives with n > 1 steps: for every step, for every term and sign, n copies of one step of the evolution,
    the one at that position replaced by the step with the shifted angle; factors plus and minus coefficient / n"""
    h, T = sums(cx)
    time, n = cx.real("time"), cx.int("n", 2)
    cx.contract(ev._generate_circuit_sequence, lambda I, a, b, L, p: make(spliced(a, b, L, p)))
    circuits, factors = cx.call(ev.time_evolution_derivatives, h, time, "Trotter", n)
    i, k, j = V.index_var("i"), V.index_var("k"), V.index_var("j")
    cx.same(factors, PyList((Flat(n.t, k, (Flat(T, i, (One(factor(i, 1, n)), One(factor(i, -1, n)))),)),)), "factors")
    step = make((Flat(T, j, (piece(j, time / n),)),))
    wrap = lambda segs: spliced(step, make(segs), n, k)
    cx.same(circuits, PyList((Flat(n.t, k, (Flat(T, i, pairs(i, time, n, wrap)),)),)), "circuits")


@obligation("C16")
def angles(cx):
    """the shifted time of a term with a non-zero coefficient shifts its rotation angle 2 * time * c / n by pi/2"""
    time, n = cx.real("time"), cx.int("n", 1)
    for s in (1, -1):
        segs = shifted(z3.Int("i"), s, time, n)
        t = V.force(segs[0].segs[0].val).key[1]
        t = z3.substitute(t, (segs[0].var, z3.Int("i")))
        c = z3.Function("Term..re", Zi, R)(z3.Int("i"))
        cx.assume(SBool(c != 0))
        cx.prove(SBool(2 * t * c == 2 * time.t * c / z3.ToReal(n.t) + s * PIQ / 2), "angle")

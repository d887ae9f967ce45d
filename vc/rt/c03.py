import itertools

import numpy as np

from orquestra.quantum.operators import PauliSum, PauliTerm

from ..orc import *
from ..rtcore import contract

N = 4


def operand(c, n):
    r = c.rng.random()
    if r < 0.4:
        return random_term(c.rng, n)
    if r < 0.85:
        return random_sum(c.rng, n)
    return coef(c.rng)


def mat(x, n=N):
    if isinstance(x, (PauliTerm, PauliSum)):
        return op_matrix(x, n)
    return complex(x) * np.eye(2**n)


@contract("C03", n=2000)
def binary_operations(c):
    n = c.rng.randint(1, N)
    a, b = operand(c, n), operand(c, n)
    if not isinstance(a, (PauliTerm, PauliSum)) and not isinstance(b, (PauliTerm, PauliSum)):
        a = random_sum(c.rng, n)
    kind = c.rng.choice("+-**+-")
    if isinstance(a, (np.number,)):
        a = a.item()  # numpy scalars on the left dispatch to numpy, not to the library
    c.note(a=a, op=kind, b=b)
    A, B = mat(a, n), mat(b, n)
    if kind == "+":
        r, R = a + b, A + B
    elif kind == "-":
        r, R = a - b, A - B
    else:
        r, R = a * b, A @ B
    c.require(isinstance(r, (PauliTerm, PauliSum)), "result type", got=r)
    c.close(op_matrix(r, n), R, "matrix of the result", tol=2e-7)
    c.close(mat(a, n), A, "left operand changed")
    c.close(mat(b, n), B, "right operand changed")


@contract("C03", n=400)
def division_and_power(c):
    n = c.rng.randint(1, 3)
    a = random_term(c.rng, n) if c.rng.random() < 0.5 else random_sum(c.rng, n, c.rng.randint(0, 3))
    A = op_matrix(a, n)
    if c.rng.random() < 0.4:
        d = coef(c.rng)
        c.note(a=a, div=d)
        c.close(op_matrix(a / d, n), A / complex(d), "division", tol=1e-7)
    else:
        p = c.rng.randint(0, 5)
        if c.rng.random() < 0.3:  # long powers of operators of norm at most 1
            a = random_sum(c.rng, n, c.rng.randint(1, 3)) if c.rng.random() < 0.7 else random_term(c.rng, n)
            a = a * (1 / max(1.0, sum(abs(t.coefficient) for t in a.terms)))
            A = op_matrix(a, n)
            p = c.rng.randint(6, 33)
        c.note(a=a, power=p)
        r = a**p
        c.close(op_matrix(r, n), np.linalg.matrix_power(A, p), "power", tol=2e-7)
        for bad in (-1, 0.5, 1.5):
            c.raises(ValueError, lambda: a**bad, "invalid power")


@contract("C03", enum=lambda t: list(itertools.product("IXYZ", repeat=4)))
def single_qubit_tables(c):
    """all pairs of one/two-qubit terms"""
    a0, a1, b0, b1 = c.case
    a, b = PauliTerm({0: a0, 1: a1}, 2.0), PauliTerm({1: b1, 0: b0}, -1.5j)
    c.note(a=a, b=b)
    c.close(op_matrix(a * b, 2), op_matrix(a, 2) @ op_matrix(b, 2), "product")


@contract("C03", n=400)
def simplify_keeps_matrix(c):
    n = c.rng.randint(1, 4)
    s = random_sum(c.rng, n, c.rng.randint(0, 7))
    if c.rng.random() < 0.3 and len(s.terms):
        # many like terms, individually below the tolerance
        t = c.rng.choice(s.terms)
        s = PauliSum([*s.terms] + [t.copy(0.9e-8)] * 6)
    c.note(s=s)
    M = op_matrix(s, n)
    r = s.simplify()
    c.close(op_matrix(r, n), M, "simplify", tol=5e-8)
    keys = [t.operations for t in r.terms]
    c.eq(len(set(keys)), len(keys), "like terms remain")
    c.require(all(abs(t.coefficient) > 1e-9 for t in r.terms), "zero terms remain")
    c.close(op_matrix(r.simplify(), n), M, "simplify twice", tol=5e-8)


@contract("C03", n=1200)
def equality(c):
    n = c.rng.randint(1, 3)
    a = random_sum(c.rng, n).simplify()
    mode = c.rng.randrange(7)
    terms = [t.copy() for t in a.terms]
    c.rng.shuffle(terms)
    if mode == 0:
        b = PauliSum(terms)
    elif mode == 1:  # tiny perturbation below the tolerance
        b = PauliSum([t.copy(t.coefficient + c.rng.choice([1, -1, 1j]) * 1e-10) for t in terms])
    elif mode == 2 and terms:  # clear difference in one coefficient
        i = c.rng.randrange(len(terms))
        eps = c.rng.choice([1e-2, -1e-3, 1e-4j, 1e-5, 2e-6, 1e-6, -3e-7, 1e-7])
        terms[i] = terms[i].copy(terms[i].coefficient + eps)
        b = PauliSum(terms).simplify()
    elif mode == 3 and terms:  # one operator changed
        i = c.rng.randrange(len(terms))
        o = dict(terms[i]._ops)
        q = c.rng.randrange(n)
        o[q] = c.rng.choice([x for x in "IXYZ" if x != o.get(q, "I")])
        terms[i] = PauliTerm(o, terms[i].coefficient)
        b = PauliSum(terms).simplify()
    elif mode == 4:
        b = random_sum(c.rng, n).simplify()
    elif mode == 5:
        b = random_term(c.rng, n)
        if c.rng.random() < 0.5:
            a = PauliSum([b.copy()])
    else:
        b = coef(c.rng)
        b = complex(b) if isinstance(b, np.number) else b
        if c.rng.random() < 0.5:
            a = PauliSum([PauliTerm({}, b)])
        if c.rng.random() < 0.2:
            a, b = PauliSum(), c.rng.choice([0, 0.0, 0j, 1, 1e-12])
    if len(a.terms) == 1 and c.rng.random() < 0.5:
        a = a.terms[0]
    A, B = mat(a, n), mat(b, n)
    keys = {t.operations: complex(t.coefficient) for t in a.terms}
    kb = {t.operations: complex(t.coefficient) for t in b.terms} if isinstance(b, (PauliTerm, PauliSum)) else {frozenset(): complex(b)}
    d = max([abs(keys.get(k, 0) - kb.get(k, 0)) for k in {*keys, *kb}] or [0])
    c.note(a=a, b=b, largest_coefficient_difference=d)
    if 0.5e-8 < d < 2.1e-8:
        c.skip()
    c.eq(bool(a == b), d < 1e-8, "== differs from equality of the matrices")
    if isinstance(b, (PauliTerm, PauliSum)):
        c.eq(bool(b == a), d < 1e-8, "== not symmetric")


@contract("C03", enum=lambda t: list(range(40)))
def equality_near_rounding_boundaries(c):
    k = c.case
    base = (2 * k + 1) * 0.5e-6 * (1 + 7 * (k % 3))
    a, b = PauliSum([PauliTerm({0: "X"}, base), PauliTerm({1: "Z"}, 1.0)]), PauliSum(
        [PauliTerm({1: "Z"}, 1.0), PauliTerm({0: "X"}, base + (-1) ** k * 1e-10)]
    )
    c.note(a=a, b=b)
    c.require(a == b, "equal within 1e-10 but compared unequal")
    c.require(PauliTerm({0: "X"}, base) == PauliTerm({0: "X"}, base + 1e-10), "terms equal within 1e-10 compared unequal")


@contract("C03", n=300)
def equality_of_zero_and_of_large_coefficients(c):
    a, b = random_term(c.rng, 3), random_term(c.rng, 3)
    kind = c.rng.randrange(4)
    if kind == 0:  # both denote (nearly) the zero matrix, whatever their letters
        a, b = a.copy(c.rng.choice([0, 0.0, 0j, 1e-10])), b.copy(c.rng.choice([0, 0.0, -1e-10, 1e-10j]))
        same = True
    elif kind == 1:  # large coefficients: the tolerance is absolute
        z = c.rng.choice([1e5, -3e6, 2e4j, 1e3 + 1e3j])
        d = c.rng.choice([1e-3, -1e-4, 1e-2j, 0.0])
        a, b = a.copy(z), a.copy(z + d)
        same = d == 0
    elif kind == 2:  # the empty sum
        z = c.rng.choice([0, 1e-10, -1e-10j, 1e-6, 1, 0.5j])
        a, b = PauliSum(), a.copy(z)
        same = abs(z) < 1e-8
    else:  # one of them is zero
        a, b = a.copy(0.0), b.copy(c.rng.choice([1e-6, 1, -1j, 1e-7]))
        same = False
    forms = lambda x: [x] if isinstance(x, PauliSum) else [x, PauliSum([x])]  # noqa: E731
    for x in forms(a):
        for y in forms(b):
            if kind in (0, 3):  # the property speaks of simplified operators
                x = x.simplify() if isinstance(x, PauliSum) else x
                y = y.simplify() if isinstance(y, PauliSum) else y
            c.note(a=x, b=y)
            c.eq(bool(x == y), same, "== differs from equality of the matrices")
            c.eq(bool(y == x), same, "== differs from equality of the matrices (exchanged)")


@contract("C03", n=200)
def far_apart_qubits(c):
    """letters on few, far apart qubits, explicit identities included: products by the table of one qubit"""
    table = {("X", "Y"): ("Z", 1j), ("Y", "Z"): ("X", 1j), ("Z", "X"): ("Y", 1j), ("Y", "X"): ("Z", -1j), ("Z", "Y"): ("X", -1j), ("X", "Z"): ("Y", -1j)}
    qs = c.rng.sample(range(200), 6)

    def side():
        return {q: c.rng.choice("IXYZ") for q in c.rng.sample(qs, c.rng.randint(0, 6))}

    d1, d2 = side(), side()
    a, b = PauliTerm(dict(d1), coef(c.rng)), PauliTerm(dict(d2), coef(c.rng))
    c.note(a=d1, b=d2)
    want, z = {}, complex(a.coefficient) * complex(b.coefficient)
    for q in {*d1, *d2}:
        x, y = d1.get(q, "I"), d2.get(q, "I")
        if x == "I" or y == "I":
            r, w = (y if x == "I" else x), 1
        elif x == y:
            r, w = "I", 1
        else:
            r, w = table[x, y]
        z *= w
        if r != "I":
            want[q] = r
    p = a * b
    c.eq(dict(p.operations), want, "letters of the product")
    c.close(complex(p.coefficient), z, "coefficient of the product")
    c.eq(dict(a.operations), {q: o for q, o in d1.items() if o != "I"}, "letters of a term")
    c.eq(a.n_qubits, max([q + 1 for q, o in d1.items() if o != "I"], default=0), "width")
    s = a + b
    keys = {}
    for t in (a, b):
        keys[t.operations] = keys.get(t.operations, 0) + complex(t.coefficient)
    keys = {k: v for k, v in keys.items() if abs(v) > 1e-8}
    got = {t.operations: complex(t.coefficient) for t in s.terms}
    c.eq(set(got), set(keys), "strings of the sum")
    for k in keys:
        c.close(got[k], keys[k], "coefficient in the sum")

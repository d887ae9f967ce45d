import itertools

import numpy as np

from orquestra.quantum.operators import (
    PauliSum,
    PauliTerm,
    get_expectation_value,
    get_sparse_operator,
    hermitian_conjugated,
    is_hermitian,
    reverse_qubit_order,
)
from orquestra.quantum.operators._openfermion_utils.sparse_tools import expectation
from orquestra.quantum.operators._utils import get_pauliop_from_matrix
from orquestra.quantum.wavefunction import Wavefunction

from ..orc import *
from ..rtcore import contract


def op(c, n, **kw):
    return random_term(c.rng, n, **{k: v for k, v in kw.items()}) if c.rng.random() < 0.35 else random_sum(c.rng, n, **kw)


@contract("C09", n=500)
def sparse_matrix(c):
    w = c.rng.randint(0, 4)
    o = op(c, w)
    if c.rng.random() < 0.1:
        o = c.rng.choice([PauliSum(), PauliTerm({}, 0.0), PauliTerm({0: "Y"}, 0), PauliSum([PauliTerm({}, 2.0)]),
                          PauliSum([PauliTerm({0: "X"}, 0.0), PauliTerm({1: "Y"}, 1.0)])])
    n = max(w, o.n_qubits) + c.rng.choice([0, 0, 1, 2])
    c.note(op=o, n=n)
    m = get_sparse_operator(o, n)
    c.eq(tuple(m.shape), (2**n, 2**n), "shape")
    c.close(m.toarray(), op_matrix(o, n), "sparse matrix")
    c.close(get_sparse_operator(o).toarray(), op_matrix(o, o.n_qubits), "default width")
    if o.n_qubits > 0:
        c.raises(ValueError, lambda: get_sparse_operator(o, o.n_qubits - 1), "too few qubits")


@contract("C09", enum=lambda t: [p for n in (1, 2, 3) for p in itertools.product("IXYZ", repeat=n)])
def sparse_all_strings(c):
    p = c.case
    n = len(p)
    t = PauliTerm(dict(enumerate(p)), 1.0)
    c.note(p="".join(p))
    c.close(get_sparse_operator(t, n).toarray(), kron(*[PAULI[x] for x in p]), "Pauli string")
    c.close(get_sparse_operator(t, n + 1).toarray(), kron(*[PAULI[x] for x in p], PAULI["I"]), "padded")


@contract("C09", n=300)
def hermitian(c):
    n = c.rng.randint(1, 3)
    o = op(c, n, real=c.rng.random() < 0.3)
    if isinstance(o, PauliSum):
        o = o.simplify()
    if c.rng.random() < 0.3:
        d = c.rng.choice([1e-3, 1e-5, 1e-6, 5e-8, 1e-10, 1e-12])
        ts = [t.copy(complex(complex(t.coefficient).real, d)) for t in o.terms]
        o = PauliSum(ts).simplify() if ts else o
    M = op_matrix(o, n)
    c.note(op=o)
    h = hermitian_conjugated(o)
    c.close(op_matrix(h, n), M.conj().T, "hermitian conjugate")
    c.close(op_matrix(hermitian_conjugated(h), n), M, "twice")
    gap = max([abs(complex(t.coefficient).imag) * 2 for t in o.terms] or [0])
    if not 0.5e-8 < gap < 2.1e-8:
        c.eq(bool(is_hermitian(o)), gap < 1e-8, "is_hermitian")
    sp = get_sparse_operator(o, n)
    c.close(hermitian_conjugated(sp).toarray(), M.conj().T, "sparse conjugate")
    c.close(hermitian_conjugated(M), M.conj().T, "array conjugate")


@contract("C09", n=160)
def matrix_expansion(c):
    n = c.rng.choice([0, 1, 1, 2, 2, 3])
    d = 2**n
    kind = c.rng.randrange(4)
    if kind == 0:
        m = c.np.standard_normal((d, d)) + 1j * c.np.standard_normal((d, d))
    elif kind == 1:
        m = c.np.standard_normal((d, d))
    elif kind == 2:
        m = np.zeros((d, d), dtype=complex)
        m[c.rng.randrange(d), c.rng.randrange(d)] = coef(c.rng)
    else:
        m = c.np.integers(-3, 4, (d, d))
    arg = m.tolist() if c.rng.random() < 0.7 else m
    c.note(matrix=arg)
    o = get_pauliop_from_matrix(arg)
    c.close(op_matrix(o, n), m, "expansion denotes the matrix", tol=1e-7)
    c.close(get_sparse_operator(o, n).toarray(), m, "converting back", tol=1e-7)


@contract("C09", n=200)
def reversal(c):
    w = c.rng.randint(0, 4)
    o = op(c, w)
    n = max(w, o.n_qubits) + c.rng.choice([0, 0, 1])
    c.note(op=o, n=n)
    M = op_matrix(o, n)
    P = np.zeros((2**n, 2**n))
    for i in range(2**n):
        P[int(format(i, f"0{n}b")[::-1], 2) if n else 0, i] = 1
    r = reverse_qubit_order(o, n)
    c.close(op_matrix(r, n), P @ M @ P.T, "bit reversal", tol=1e-7)
    c.close(op_matrix(reverse_qubit_order(r, n), n), M, "reversed twice", tol=1e-7)
    if o.n_qubits == n:
        c.close(op_matrix(reverse_qubit_order(o), n), P @ M @ P.T, "default width", tol=1e-7)
    if o.n_qubits:
        c.raises(ValueError, lambda: reverse_qubit_order(o, o.n_qubits - 1), "too few qubits")


@contract("C09", n=250)
def quadratic_form(c):
    n = c.rng.randint(1, 4)
    o = op(c, n)
    psi = random_state(c.np, n)
    M = op_matrix(o, n)
    c.note(op=o, n=n)
    want = psi.conj() @ M @ psi
    wf = Wavefunction(psi)
    c.close(get_expectation_value(o, wf), want, "get_expectation_value")
    P = [int(format(i, f"0{n}b")[::-1], 2) for i in range(2**n)]
    phi = psi[P]
    c.close(get_expectation_value(o, wf, True), phi.conj() @ M @ phi, "reverse_operator=True")
    sp = get_sparse_operator(o, n)
    c.close(expectation(sp, psi), want, "expectation(row vector)")
    c.close(expectation(sp, psi.reshape(-1, 1)), want, "expectation(column vector)")
    import scipy.sparse

    rho = scipy.sparse.csc_matrix(np.outer(psi, psi.conj()))
    c.close(expectation(sp, rho), want, "expectation(density matrix)")


@contract("C09", n=80)
def small_coefficients(c):
    """operators of tiny overall scale, or with tiny terms beside large ones: entries compared relative to the scale of each part"""
    n = c.rng.randint(1, 3)
    o = op(c, n)
    scale = 10.0 ** -c.rng.randint(6, 14)
    T = o.terms
    tiny = PauliSum([PauliTerm(dict(t._ops), complex(t.coefficient) * scale) for t in T])
    c.note(op=o, scale=scale)
    if not T:
        return
    ref = op_matrix(PauliSum([PauliTerm(dict(t._ops), complex(t.coefficient)) for t in T]), n)
    c.close(get_sparse_operator(tiny, n).toarray() / scale, ref, "operator of tiny scale")
    v = random_state(c.np, n)
    c.close(get_expectation_value(tiny, Wavefunction(v)) / scale, np.vdot(v, ref @ v), "expectation of an operator of tiny scale")
    big = PauliTerm({c.rng.randrange(n): "Z"}, 1.0)
    s = 2.0 ** -30  # exact beside 1
    both = PauliSum([PauliTerm(dict(t._ops), s) for t in T] + [big])
    want = op_matrix(PauliSum([PauliTerm(dict(t._ops), 1.0) for t in T]), n)
    got = get_sparse_operator(both, n).toarray() - op_matrix(big, n)
    c.close(got / s, want, "tiny terms beside a large one", tol=1e-5)

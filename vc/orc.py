"""Independent oracles and input generators for layer B (no code of the repository is used as an oracle)."""
import math
from functools import reduce

import numpy as np
import sympy

import orquestra.quantum.circuits as oc
from orquestra.quantum.circuits import _builtin_gates as bg
from orquestra.quantum.circuits import _gates as og

FIXED1 = ["X", "Y", "Z", "H", "I", "S", "SX", "T"]
FIXED2 = ["CNOT", "CZ", "SWAP", "ISWAP"]
PARAM1 = {"RX": 1, "RY": 1, "RZ": 1, "RH": 1, "PHASE": 1, "GPi": 1, "GPi2": 1, "Delay": 1, "U3": 3}
PARAM2 = {"CPHASE": 1, "XX": 1, "YY": 1, "ZZ": 1, "XY": 1, "MS": 2}
ALL_BUILTIN = FIXED1 + FIXED2 + list(PARAM1) + list(PARAM2)


def nparams(name):
    return PARAM1.get(name, PARAM2.get(name, 0))


def nq(name):
    return 2 if name in FIXED2 or name in PARAM2 else 1


# ------------------------------------------------------------------ matrices
def num(m):
    """numeric complex array of a sympy / numpy matrix"""
    if isinstance(m, np.ndarray) and m.dtype != object:
        return m.astype(complex)
    if hasattr(m, "tolist"):
        m = m.tolist()
    return np.array([[cnum(x) for x in row] for row in m], dtype=complex)


def cnum(x):
    if isinstance(x, (int, float, complex, np.number)):
        return complex(x)
    return complex(sympy.sympify(x).evalf(30))


def vec(v):
    v = np.asarray(v)
    return np.array([cnum(x) for x in v.reshape(-1)], dtype=complex)


def embed(u, idx, n):
    """k-qubit matrix u on qubits idx of an n-qubit register (qubit 0 most significant); entry by entry."""
    k = len(idx)
    u = np.asarray(u, dtype=complex).reshape((2,) * (2 * k))
    out = np.zeros((2**n, 2**n), dtype=complex)
    t = np.eye(2**n, dtype=complex).reshape((2,) * (2 * n))
    t = np.tensordot(u, t, axes=(list(range(k, 2 * k)), list(idx)))
    out = np.moveaxis(t, list(range(k)), list(idx)).reshape(2**n, 2**n)
    return out


def circuit_matrix(ops, n):
    m = np.eye(2**n, dtype=complex)
    for op in ops:
        m = embed(num(op.gate.matrix), op.qubit_indices, n) @ m
    return m


def random_state(rng, n):
    v = rng.standard_normal(2**n) + 1j * rng.standard_normal(2**n)
    return v / np.linalg.norm(v)


PAULI = {
    "I": np.eye(2, dtype=complex),
    "X": np.array([[0, 1], [1, 0]], dtype=complex),
    "Y": np.array([[0, -1j], [1j, 0]], dtype=complex),
    "Z": np.array([[1, 0], [0, -1]], dtype=complex),
}


def kron(*ms):
    return reduce(np.kron, ms, np.eye(1, dtype=complex))


def pauli_matrix(ops, n, coef=1.0):
    """ops: dict qubit -> letter"""
    return complex(coef) * kron(*[PAULI[ops.get(q, "I")] for q in range(n)])


def term_ops(term):
    return {q: op for q, op in term.operations} if False else dict(term._ops)


def op_matrix(op, n):
    """matrix of a PauliTerm / PauliSum by definition (reads only stored data)"""
    terms = getattr(op, "terms", None)
    if terms is None:
        terms = [op]
    m = np.zeros((2**n, 2**n), dtype=complex)
    for t in terms:
        m = m + pauli_matrix(dict(t._ops), n, complex(t.coefficient))
    return m


# ------------------------------------------------------------------ parameters
SYMS = [sympy.Symbol(s) for s in ("alpha", "beta", "theta", "theta_1", "theta_2", "theta_10", "x", "gamma", "zeta")]
IDXSYMS = [sympy.Symbol(s) for s in ("th[0]", "th[1]", "th[10]", "w[3]")]


def angle(rng):
    k = rng.randrange(8)
    if k == 0:
        return rng.choice([0, 1, -1, 2, 3, -7])
    if k == 1:
        return rng.choice([math.pi, math.pi / 2, -math.pi / 4, 3 * math.pi, 2 * math.pi, 4 * math.pi + 0.3])
    if k == 2:
        return rng.choice([sympy.pi, sympy.pi / 3, sympy.Rational(1, 3), sympy.Float(0.7), sympy.sqrt(2), sympy.Integer(2)])
    if k == 3:
        return rng.choice([1e-3, 1e-9, 50.5, -123.25, 0.0, 1e3])
    return rng.uniform(-7, 7)


def symbols(rng, n, pool=None):
    return rng.sample(pool or SYMS, n)


def expr(rng, syms):
    """random parameter expression over given symbols"""
    k = rng.randrange(9)
    a = rng.choice(syms)
    b = rng.choice(syms)
    if k <= 1:
        return a
    if k == 2:
        return a + b
    if k == 3:
        return a * b
    if k == 4:
        return rng.choice([2, -1, sympy.Rational(1, 2), 0.25, sympy.pi]) * a + rng.choice([0, 1, 0.5])
    if k == 5:
        return a - b
    if k == 6:
        return sympy.cos(a) + b
    if k == 7:
        return a**2 - 0.5 * b
    return (a + 1) / 2 + b / 3


# ------------------------------------------------------------------ gates
def builtin(name, params=()):
    g = getattr(oc, name, None)
    if g is None:
        g = getattr(bg, name)
    return g(*params) if nparams(name) else g


def random_builtin(rng, max_qubits=2, syms=None, psym=0.4, names=None):
    name = rng.choice(names or ALL_BUILTIN)
    while nq(name) > max_qubits:
        name = rng.choice(names or ALL_BUILTIN)
    ps = []
    for _ in range(nparams(name)):
        if syms and rng.random() < psym:
            ps.append(expr(rng, syms))
        else:
            ps.append(angle(rng))
    return builtin(name, ps)


def random_unitary(nprng, d):
    q, r = np.linalg.qr(nprng.standard_normal((d, d)) + 1j * nprng.standard_normal((d, d)))
    return q * (np.diag(r) / np.abs(np.diag(r)))


def custom_fixed(rng, nprng, k, name=None):
    """custom gate without parameters with a random unitary on k qubits"""
    u = random_unitary(nprng, 2**k)
    d = oc.CustomGateDefinition(name or f"cust{k}_{rng.randrange(10**6)}", sympy.Matrix(u.tolist()), ())
    return d()


def custom_param(rng, name=None, n_par=None):
    """parametrised custom gate definition; returns (definition, function params->numpy matrix)"""
    a, b = sympy.Symbol("a"), sympy.Symbol("b")
    kind = rng.randrange(3)
    nm = name or f"custp_{kind}_{rng.randrange(10**6)}"
    if kind == 0:
        m = sympy.Matrix([[sympy.cos(a), -sympy.sin(a) * sympy.exp(-sympy.I * b)],
                          [sympy.sin(a) * sympy.exp(sympy.I * b), sympy.cos(a)]])

        def f(p, q):
            return np.array([[np.cos(p), -np.sin(p) * np.exp(-1j * q)], [np.sin(p) * np.exp(1j * q), np.cos(p)]])

        return oc.CustomGateDefinition(nm, m, (a, b)), f, 2, 1
    if kind == 1:
        m = sympy.Matrix([[1, 0], [0, sympy.exp(sympy.I * (a - 2 * b))]])

        def f(p, q):
            return np.diag([1, np.exp(1j * (p - 2 * q))])

        return oc.CustomGateDefinition(nm, m, (b, a)), (lambda q, p: f(p, q)), 2, 1
    m = sympy.diag(1, sympy.exp(sympy.I * a), sympy.exp(-sympy.I * a), 1)

    def f(p):
        return np.diag([1, np.exp(1j * p), np.exp(-1j * p), 1])

    return oc.CustomGateDefinition(nm, m, (a,)), f, 1, 2


def random_ops(rng, nprng, n, m, syms=None, maxk=3, wrappers=True, custom=True, psym=0.4):
    """m random gate operations on n qubits, arbitrary (non adjacent, unordered) index tuples"""
    ops = []
    while len(ops) < m:
        g = None
        r = rng.random()
        if custom and r < 0.12 and n >= 1:
            g = custom_fixed(rng, nprng, rng.randint(1, min(n, 2)))
        else:
            g = random_builtin(rng, min(2, n), syms, psym)
        if wrappers:
            g = wrap(rng, g, n, depth=rng.choice([0, 0, 0, 1, 1, 2]))
        k = g.num_qubits
        if k > n or k > maxk:
            continue
        ops.append(g(*rng.sample(range(n), k)))
    return ops


def wrap(rng, g, n, depth=1, kinds=("dagger", "controlled", "power", "exp")):
    for _ in range(depth):
        kind = rng.choice(kinds)
        if kind == "dagger":
            g = g.dagger
        elif kind == "controlled":
            c = rng.randint(1, 2)
            if g.num_qubits + c <= min(n, 4):
                g = g.controlled(c)
        elif kind == "power":
            if not g.free_symbols and g.num_qubits <= 1:
                g = g.power(rng.choice([2, 3, -1, -2]))
    return g


def substitution(rng, syms):
    return {s: rng.uniform(-3, 3) for s in syms}


def gate_repr(g):
    try:
        return str(g)
    except Exception as e:
        return f"<{type(g).__name__}>"


def ops_repr(ops):
    return [f"{gate_repr(getattr(o, 'gate', o))}@{tuple(o.qubit_indices)}" for o in ops]


# ------------------------------------------------------------------ Pauli operators
def coef(rng, kind=None):
    k = kind if kind is not None else rng.randrange(8)
    if k == 0:
        return rng.choice([1, -1, 2, 3, -5])
    if k == 1:
        return complex(rng.uniform(-2, 2), rng.uniform(-2, 2))
    if k == 2:
        return rng.choice([1j, -1j, 0.5j, 2 - 1j, complex(-1.5, 0)])
    if k == 3:
        return rng.choice([1e-3, -1e-4, 1e-6j, 0.25, -0.125])
    if k == 4:
        return np.float64(rng.uniform(-2, 2))
    if k == 5:
        return np.complex128(complex(rng.uniform(-2, 2), rng.uniform(-2, 2)))
    return rng.uniform(-2, 2)


def random_term(rng, n, c="random", ising=False, real=False):
    from orquestra.quantum.operators import PauliTerm

    ops = {}
    for q in rng.sample(range(n), rng.randint(0, n)):
        ops[q] = "Z" if ising else rng.choice("XYZ")
    cc = coef(rng) if c == "random" else c
    if real:
        cc = rng.choice([1.0, -1, 2, rng.uniform(-2, 2), rng.uniform(-2, 2)])
    return PauliTerm(ops, cc)


def random_sum(rng, n, m=None, ising=False, real=False):
    from orquestra.quantum.operators import PauliSum

    m = rng.randint(0, 4) if m is None else m
    ts = [random_term(rng, n, ising=ising, real=real) for _ in range(m)]
    if m >= 2 and rng.random() < 0.4:  # like terms, possibly cancelling
        t = rng.choice(ts)
        ts.append(t.copy(rng.choice([t.coefficient, -t.coefficient, 0.5])))
        rng.shuffle(ts)
    return PauliSum(ts)

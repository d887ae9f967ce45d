import math

import numpy as np
import sympy

from ..orc import *
from ..rtcore import contract

s2 = 1 / math.sqrt(2)
FIXED_TEXT = {
    "X": [[0, 1], [1, 0]], "Y": [[0, -1j], [1j, 0]], "Z": [[1, 0], [0, -1]], "H": [[s2, s2], [s2, -s2]],
    "I": [[1, 0], [0, 1]], "S": [[1, 0], [0, 1j]], "T": [[1, 0], [0, (1 + 1j) * s2]],
    "SX": [[(1 + 1j) / 2, (1 - 1j) / 2], [(1 - 1j) / 2, (1 + 1j) / 2]],
    "CNOT": [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]],
    "CZ": np.diag([1, 1, 1, -1]).tolist(),
    "SWAP": [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]],
}


def _values(tier):
    v = [0, 0.0, 1, -2, math.pi, -math.pi / 2, 4 * math.pi, 2 * math.pi, 1e-12, 1e6, sympy.pi, sympy.pi / 7,
         sympy.Rational(1, 3), sympy.sqrt(3), sympy.Integer(0), 0.37, -5.25]
    return v


@contract("C02", enum=lambda t: [(n, i) for n in ALL_BUILTIN for i in range(10 if t == "quick" else 60)])
def dimension_unitary_hermitian(c):
    name, i = c.case
    vals = _values(c.tier)
    ps = [c.rng.choice(vals) if c.rng.random() < 0.6 else c.rng.uniform(-20, 20) for _ in range(nparams(name))]
    g = builtin(name, ps)
    c.note(gate=name, params=ps)
    m = num(g.matrix)
    c.eq(m.shape, (2**g.num_qubits, 2**g.num_qubits), "shape")
    c.eq(g.num_qubits, nq(name), "declared qubits")
    c.close(m @ m.conj().T, np.eye(len(m)), "unitary")
    c.eq(tuple(g.params), tuple(ps), "params")
    if g.is_hermitian:
        c.close(m, m.conj().T, "flagged self-adjoint")
    c.close(num(g.dagger.matrix), m.conj().T, "dagger")
    if name in FIXED_TEXT:
        c.close(m, np.array(FIXED_TEXT[name]), "textbook matrix")
    # symbolic parameters: same matrix after substitution
    if ps:
        xs = sympy.symbols("x:%d" % len(ps), real=c.rng.random() < 0.5)
        ms = builtin(name, xs).matrix
        c.close(num(sympy.Matrix(ms).subs(dict(zip(xs, ps)))), m, "symbolic matrix substituted")


ADD = ["RX", "RY", "RZ", "RH", "PHASE", "CPHASE", "XX", "YY", "ZZ", "XY"]


@contract("C02", enum=lambda t: [(n, i) for n in ADD for i in range(6 if t == "quick" else 60)])
def additive_groups(c):
    name, i = c.case
    vals = [c.rng.uniform(-10, 10), 0, math.pi, -math.pi, 2 * math.pi, 1e-7, 7]
    a, b = c.rng.choice(vals), c.rng.choice(vals)
    c.note(gate=name, a=a, b=b)
    f = lambda x: num(builtin(name, (x,)).matrix)
    c.close(f(a) @ f(b), f(a + b), "angle addition")
    c.close(f(0), np.eye(2 ** nq(name)), "angle zero")
    c.close(f(a) @ f(-a), np.eye(2 ** nq(name)), "inverse angle")


@contract("C02", enum=lambda t: [(n, k) for n in ADD for k in ("quarter turns", "small", "exact")])
def additive_grid(c):
    """angle addition, identity and unitarity on a grid of special angles: quarter turns over many periods, tiny angles, exact multiples of pi"""
    name, kind = c.case
    dim = 2 ** nq(name)
    if kind == "quarter turns":
        angles = [k * math.pi / 2 for k in range(-16, 17)] + [k * math.pi / 4 for k in (-9, -3, -1, 1, 3, 7)]
    elif kind == "small":
        angles = [x * 10.0**-k for k in range(2, 9) for x in (1, -1, 3)] + [0, 0.0, -0.0]
    else:
        angles = [k * sympy.pi / 2 for k in range(-9, 10, 2)] + [k * sympy.pi for k in (-4, -2, -1, 0, 1, 2, 4, 6)] + [sympy.pi / 3, sympy.Rational(-7, 2)]
    memo = {}

    def f(x):
        if x not in memo:
            memo[x] = num(builtin(name, (x,)).matrix)
        return memo[x]

    c.note(gate=name, angles=kind)
    for a in angles:
        m = f(a)
        c.close(m @ m.conj().T, np.eye(dim), f"unitary at {a}")
        c.close(m @ f(-a), np.eye(dim), f"inverse angle {a}")
    pairs = [(a, b) for a in angles for b in angles]
    for a, b in c.rng.sample(pairs, min(len(pairs), 150)) + [(a, a) for a in angles]:
        c.close(f(a) @ f(b), f(a + b), f"angle addition {a}, {b}", tol=1e-10 if kind == "small" else 1e-8)


@contract("C02", enum=lambda t: [0])
def fixed_relations(c):
    M = {n: num(builtin(n).matrix) for n in FIXED1 + FIXED2}
    c.close(M["S"] @ M["S"], M["Z"], "S*S=Z")
    c.close(M["T"] @ M["T"], M["S"], "T*T=S")
    c.close(M["SX"] @ M["SX"], M["X"], "SX*SX=X")
    c.close(M["H"] @ M["Z"] @ M["H"], M["X"], "HZH=X")
    I2 = np.eye(2)
    c.close(M["CNOT"], np.block([[I2, 0 * I2], [0 * I2, M["X"]]]), "CNOT")
    c.close(M["CZ"], np.block([[I2, 0 * I2], [0 * I2, M["Z"]]]), "CZ")
    a, b = random_state(c.np, 1), random_state(c.np, 1)
    c.close(M["SWAP"] @ np.kron(a, b), np.kron(b, a), "SWAP")
    for d in (0, 3, 0.5, -2.0, sympy.Symbol("t")):
        c.close(num(builtin("Delay", (d,)).matrix), I2, "Delay is the identity")
    c.close(M["X"] @ M["Y"], 1j * M["Z"], "XY=iZ")

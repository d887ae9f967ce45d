import subprocess
import sys

import numpy as np
import scipy.linalg
import sympy

from orquestra.quantum.circuits import _gates as G

from ..orc import *
from ..rtcore import contract


def ctrl(M, k):
    d = len(M)
    out = np.eye(d * 2**k, dtype=complex)
    out[-d:, -d:] = M
    return out


def base_gate(c, maxq=2):
    r = c.rng.random()
    if r < 0.1:
        return custom_fixed(c.rng, c.np, 1)
    if r < 0.3:
        d, f, npar, k = custom_param(c.rng)
        if k <= maxq:
            return d(*[angle(c.rng) for _ in range(npar)])
    return random_builtin(c.rng, maxq)


def _name(g):
    while hasattr(g, "wrapped_gate"):
        g = g.wrapped_gate
    return g.name


@contract("C07", n=300)
def nested_modifiers(c):
    g = base_gate(c)
    M = num(g.matrix)
    params, nqb = tuple(g.params), g.num_qubits
    seq = []
    c.note(gate=gate_repr(g))
    simple = True
    for _ in range(c.rng.randint(1, 4)):
        kind = c.rng.choice(["dagger", "dagger", "controlled", "controlled", "power", "fraction", "exp"])
        before = g
        if kind == "dagger":
            g2, M2 = g.dagger, M.conj().T
        elif kind == "controlled":
            k = c.rng.randint(1, 3)
            if g.num_qubits + k > 4:
                continue
            g2, M2 = g.controlled(k), ctrl(M, k)
            nqb += k
            kind = f"controlled({k})"
        elif kind == "power":
            if not simple or len(M) > 4:
                continue
            p = c.rng.choice([0, 1, 2, 3, -1, -2, 2.0, -1.0])
            g2, M2 = g.power(p), np.linalg.matrix_power(M if p >= 0 else np.linalg.inv(M), abs(int(p)))
            kind = f"power({p})"
        elif kind == "fraction":
            if not simple or len(M) > 4 or any("exp" in s for s in seq):
                continue
            q = c.rng.choice([2, 3, 4, -2])
            g2 = g.power(1 / q)
            m = c.limited(8, lambda: num(g2.matrix))
            mm = np.linalg.matrix_power(m if q > 0 else np.linalg.inv(m), abs(q))
            c.note(seq=seq + [f"power(1/{q})"])
            c.close(mm, M, "q-th power of the fractional power")
            M2 = m
            kind = f"power(1/{q})"
            simple = False
        else:
            if not simple or len(M) > 4 or _name(g) == "T" or any("exp" in s for s in seq):
                continue
            g2, M2 = g.exp, scipy.linalg.expm(M)
            simple = False
            kind = "exp"
        seq.append(kind)
        c.note(seq=seq)
        g = g2
        c.eq(g.num_qubits, nqb, "number of qubits")
        c.eq(tuple(g.params), params, "params")
        got = c.limited(8, lambda: num(g.matrix))
        if (kind == "dagger" and any("1/" in s for s in seq) and not np.allclose(got, M2)):
            # known finding: dagger of a fractional power is taken on the base, which leaves the principal branch
            b = before
            while not isinstance(b, G.Power) and hasattr(b, "wrapped_gate"):
                b = b.wrapped_gate
            if isinstance(b, G.Power):
                w = num(b.wrapped_gate.matrix)
                ev = np.linalg.eigvals(w)
                pred = num(b.wrapped_gate.dagger.matrix ** b.exponent)
                if np.min(np.abs(ev + 1)) < 1e-7 and np.allclose(got[-len(pred):, -len(pred):], pred):
                    c.klass = "fractional-power-dagger"
        c.close(got, M2, f"matrix after {seq}", tol=1e-6)
        M = M2


BASES = [("X", ()), ("Y", ()), ("Z", ()), ("S", ()), ("SX", ()), ("T", ()), ("RZ", (0.7,)), ("PHASE", (2.5,)), ("CZ", ()), ("SWAP", ()), ("GPi", (0.4,)), ("Delay", (1.0,))]


@contract("C07", enum=lambda t: [(b, p, q) for b in BASES for p in (2, -1, 3, -2) for q in (2, 3, -2)] if t != "quick" else
          [(b, p, q) for i, b in enumerate(BASES) for p, q in [((2, 2), (-1, 2), (3, 3), (-2, 2), (2, -2))[(i + j) % 5] for j in range(2)] + [(2, 2)]])
def powers_of_powers(c):
    """a fractional power of an integer power and the other way round: the q-th power of the first is the integer power"""
    (name, ps), p, q = c.case
    g = builtin(name, ps)
    M = num(g.matrix)
    c.note(gate=name, params=ps, p=p, q=q)
    mp = lambda m, k: np.linalg.matrix_power(m if k >= 0 else np.linalg.inv(m), abs(k))
    a = c.limited(8, lambda: num(g.power(p).power(1 / q).matrix))
    c.close(mp(a, q), mp(M, p), "q-th power of the fractional power of an integer power", tol=1e-6)
    a1 = c.limited(8, lambda: num(sympy.Matrix(g.power(p).matrix) ** (1 / q)))
    c.close(a, a1, "fractional power of the matrix of the integer power", tol=1e-6)
    r = c.limited(8, lambda: num(g.power(1 / q).matrix))
    b = c.limited(8, lambda: num(g.power(1 / q).power(p).matrix))
    c.close(b, mp(r, p), "integer power of a fractional power", tol=1e-6)


@contract("C07", n=25)
def many_controls(c):
    """controls added in several calls, up to six of them"""
    g = base_gate(c, 1)
    M, seq = num(g.matrix), []
    dag = False
    while sum(seq) < 4:
        k = c.rng.randint(1, 3)
        if sum(seq) + k > 6:
            break
        seq.append(k)
        g = g.controlled(k)
        if c.rng.random() < 0.3:
            g, dag = g.dagger, not dag
    c.note(gate=gate_repr(g), controls=seq)
    c.eq(g.num_qubits, 1 + sum(seq), "number of qubits")
    c.close(num(g.matrix), ctrl(M.conj().T if dag else M, sum(seq)), "matrix")


@contract("C07", n=120)
def replace_params_commutes(c):
    d = None
    if c.rng.random() < 0.3:
        d, f, npar, k = custom_param(c.rng)
        build = lambda ps: d(*ps)
    else:
        name = c.rng.choice(list(PARAM1) + list(PARAM2))
        npar = nparams(name)
        build = lambda ps: builtin(name, ps)
    old = tuple(c.rng.uniform(-3, 3) for _ in range(npar))
    new = tuple(c.rng.uniform(-3, 3) for _ in range(npar))
    ops = [c.rng.choice(["dagger", "c1", "c2", "p2", "p-1", "p0.5", "exp"]) for _ in range(c.rng.randint(1, 3))]

    def mod(g):
        for o in ops:
            g = {"dagger": lambda: g.dagger, "c1": lambda: g.controlled(1), "c2": lambda: g.controlled(2),
                 "p2": lambda: g.power(2), "p-1": lambda: g.power(-1), "p0.5": lambda: g.power(0.5),
                 "exp": lambda: g.exp}[o]()
        return g

    a, b = mod(build(old)).replace_params(new), mod(build(new))
    c.note(gate=gate_repr(build(old)), mods=ops, new=new)
    c.require(a == b, "replace_params differs", got=gate_repr(a), expected=gate_repr(b))
    c.eq(tuple(a.params), new, "params")
    c.eq(a.num_qubits, b.num_qubits, "num_qubits")
    if sum(o in ("exp", "p0.5", "p-1") for o in ops) <= 1 and a.num_qubits <= 3 and not (
        "exp" in ops and ops.index("exp") < len(ops) - 1
    ):
        c.close(c.limited(6, lambda: num(a.matrix)), c.limited(6, lambda: num(b.matrix)), "matrix")


@contract("C07", n=80)
def symbolic_dagger_and_controlled(c):
    syms = symbols(c.rng, 2)
    g0 = random_builtin(c.rng, 2, syms, 0.9, names=list(PARAM1) + list(PARAM2))
    g = g0
    seq = [c.rng.choice(["dagger", "controlled"]) for _ in range(c.rng.randint(1, 3))]
    sub = substitution(c.rng, syms)
    M = num(sympy.Matrix(g0.matrix).subs(sub))
    c.note(gate=gate_repr(g0), seq=seq)
    nqb = g.num_qubits
    for s in seq:
        if s == "dagger":
            g, M = g.dagger, M.conj().T
        else:
            k = c.rng.randint(1, 2)
            if nqb + k > 4:
                continue
            nqb += k
            g, M = g.controlled(k), ctrl(M, k)
    c.eq(g.num_qubits, nqb, "qubits")
    c.require(tuple(g.params) == tuple(g0.params), "params")
    c.close(num(sympy.Matrix(g.matrix).subs(sub)), M, "matrix")
    if g.free_symbols:
        c.raises(ValueError, lambda: g.power(2), "power of a gate with free symbols")
        c.raises(ValueError, lambda: g.exp, "exp of a gate with free symbols")


@contract("C07", enum=lambda t: [0])
def exp_of_T(c):
    """T.exp in a child process with a CPU/memory limit (sympy blows up on it: known finding)"""
    code = (
        "import resource;resource.setrlimit(resource.RLIMIT_AS,(2<<30,2<<30));resource.setrlimit(resource.RLIMIT_CPU,(8,8));"
        "import numpy as np;from orquestra.quantum.circuits import T;"
        "print(np.array(T.exp.matrix.evalf(),dtype=complex).tolist())"
    )
    r = subprocess.run([sys.executable, "-B", "-W", "ignore", "-c", code], capture_output=True, text=True)
    if r.returncode != 0:
        c.klass = "exp-of-T-not-computable"
        c.require(False, "T.exp.matrix cannot be computed within 8 s CPU / 2 GB: " + r.stderr[-200:])
    c.close(np.array(eval(r.stdout)), scipy.linalg.expm(num(builtin("T").matrix)), "exp(T)")

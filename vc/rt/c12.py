import math
import os
import tempfile

import numpy as np
import sympy

from orquestra.quantum.wavefunction import (
    Wavefunction,
    flip_amplitudes,
    flip_wavefunction,
    load_wavefunction,
    sample_from_wavefunction,
    save_wavefunction,
)

from ..orc import random_state, vec
from ..rtcore import contract

A, B, G = sympy.symbols("a b g")


def entries(w):
    """the amplitudes, one by one, whatever the representation"""
    out = []
    for i in range(len(w)):
        x = w[i]
        while isinstance(x, (np.ndarray, sympy.MatrixBase)):
            x = x.item() if isinstance(x, np.ndarray) else x[0]
        out.append(sympy.sympify(x))
    return out


def snap(w):
    return [str(e) for e in entries(w)], [str(x) for x in np.asarray(w.amplitudes).reshape(-1)], sorted(map(str, w.free_symbols))


def mass(es):
    return sum(abs(complex(e)) ** 2 for e in es if not e.free_symbols)


def invariant(c, w):
    es = entries(w)
    n = len(es)
    c.require(n & (n - 1) == 0 and n > 0, f"{n} amplitudes")
    c.eq(w.n_qubits, n.bit_length() - 1, "n_qubits")
    syms = set().union(*[e.free_symbols for e in es]) if es else set()
    c.eq(set(w.free_symbols), syms, "free symbols")
    m = mass(es)
    if syms:
        c.require(m <= 1 + 1e-5, f"numeric entries of a symbolic wavefunction have squared norm {m}")
    else:
        c.require(abs(m - 1) <= 2e-5, f"squared norm {m}")
        p = np.asarray(w.get_probabilities()).reshape(-1)
        c.close(p, [abs(complex(e)) ** 2 for e in es], "probabilities")
        c.require(abs(float(np.sum(p)) - 1) <= 2e-5, "probabilities do not sum to one")
        pr = w.get_outcome_probs()
        c.eq(len(pr), n, "outcome probabilities")


def admissible(es):
    """True / False / None (too close to call)"""
    m = mass(es)
    if not np.isfinite(m):
        return None
    if any(e.free_symbols for e in es):
        return True if m < 1 - 1e-9 else (False if m > 1 + 1e-5 else None)
    return True if abs(m - 1) < 1e-7 else (False if abs(m - 1) > 1e-4 else None)


def numeric_vector(c, n):
    kind = c.rng.randrange(4)
    if kind == 0:
        v = np.zeros(2**n, dtype=complex)
        v[c.rng.randrange(2**n)] = c.rng.choice([1, -1, 1j])
        return v
    if kind == 1:
        return np.full(2**n, 1 / math.sqrt(2**n), dtype=complex)
    return random_state(c.np, n)


def symbolic_vector(c, n):
    v = [complex(x) for x in numeric_vector(c, n)]
    for _ in range(c.rng.randint(1, 2**n)):
        v[c.rng.randrange(2**n)] = c.rng.choice([A, B, A * B, A + 0.25, sympy.I * B, sympy.cos(G), 2 * A])
    return v


def perturb(c, v):
    v = list(v)
    i = c.rng.randrange(len(v))
    kind = c.rng.randrange(3)
    if kind == 0:
        v[i] = v[i] * c.rng.choice([0.5, 1.5, 2, 0])
    elif kind == 1:
        v = [x * c.rng.choice([1.01, 0.9, 1.2]) for x in v]
    else:
        v[i] = c.rng.choice([3, -2, 1j, 0, 1.5])
    return v


def try_make(c, v):
    es = [sympy.sympify(complex(x) if not isinstance(x, sympy.Basic) else x) for x in v]
    ok = admissible(es)
    form = c.rng.choice(["list", "array", "matrix"])
    arg = list(v)
    if form == "array" and not any(e.free_symbols for e in es):
        arg = np.array(v, dtype=complex)
    if form == "matrix":
        arg = sympy.Matrix(v)
    try:
        w = Wavefunction(arg)
    except ValueError:
        c.require(ok is not True, "valid amplitudes rejected")
        return None
    c.require(ok is not False, "amplitudes violating normalisation accepted")
    return w


@contract("C12", n=300)
def construction(c):
    n = c.rng.randint(0, 4)
    v = numeric_vector(c, n) if c.rng.random() < 0.5 else symbolic_vector(c, n)
    if c.rng.random() < 0.5:
        v = perturb(c, v)
    c.note(v=[str(x) for x in v])
    w = try_make(c, v)
    if w is not None:
        invariant(c, w)
    size = c.rng.choice([0, 3, 5, 6, 7, 9, 12, 15])
    bad = np.zeros(size, dtype=complex)
    if size:
        bad[c.rng.randrange(size)] = 1
    c.raises(ValueError, lambda: Wavefunction(bad), "number of amplitudes that is no power of two")
    c.raises(ValueError, lambda: Wavefunction([A] * max(3, size if size & (size - 1) else 3)), "length not a power of two (symbolic)")
    c.raises(ValueError, lambda: Wavefunction([float("nan")] * 2), "nan amplitudes")


@contract("C12", n=700)
def assignment_and_binding_histories(c):
    n = c.rng.randint(0, 3)
    v = numeric_vector(c, n) if c.rng.random() < 0.3 else symbolic_vector(c, n)
    w = try_make(c, v)
    if w is None:
        c.skip()
    hist = [[str(x) for x in v]]
    for _ in range(c.rng.randint(1, 7)):
        before, es = snap(w), entries(w)
        act = c.rng.random()
        N = len(es)
        if act < 0.6:
            i = c.rng.randrange(-N, N)
            cur = es[i]
            kind = c.rng.randrange(6)
            if kind == 0 and not cur.free_symbols:
                val = complex(cur) * c.rng.choice([1, -1, 1j, -1j])
            elif kind == 1:
                rest = mass([e for k, e in enumerate(es) if k != i % N])
                val = math.sqrt(max(0.0, 1 - rest)) * c.rng.choice([1, -1])
            elif kind == 2:
                val = c.rng.choice([A, B, G, A + B])
            elif kind == 3:
                val = c.rng.choice([2, -1.5, 1j, 0.1, 0, 1])
            elif kind == 4:
                val = sympy.Float(c.rng.choice([0.5, -0.5, 2.0]))
            else:
                val = c.rng.choice([0.5, 0.7, sympy.sqrt(2) / 2, sympy.Rational(1, 2)])
            hist.append(("set", i, str(val)))
            c.note(history=hist)
            new = list(es)
            new[i] = sympy.sympify(val)
            ok = admissible(new)
            isarr = isinstance(w._amplitude_vector, np.ndarray) if hasattr(w, "_amplitude_vector") else None
            try:
                w[i] = val
            except Exception as e:
                symbolic_into_array = bool(getattr(val, "free_symbols", None)) and not w.free_symbols
                if not symbolic_into_array:
                    c.require(isinstance(e, ValueError), f"assignment failed with {type(e).__name__}: {e}")
                    c.require(ok is not True, "valid assignment rejected")
                c.eq(snap(w), before, "failed assignment left a modified object")
            else:
                c.require(ok is not False, "assignment violating normalisation accepted")
                got = entries(w)
                for k, (x, y) in enumerate(zip(got, new)):
                    d = sympy.simplify(x - y)
                    c.require(not d.free_symbols and abs(complex(d)) < 1e-9, f"amplitude {k} is {x} after assignment, not {y}")
        elif act < 0.7 and not w.free_symbols and N > 1:
            i = c.rng.randrange(N - 1)
            val = [[0.9], [0.9]] if np.asarray(w[0]).ndim else [0.9, 0.9]
            hist.append(("slice", i))
            c.note(history=hist)
            try:
                w[i : i + 2] = val
            except Exception:
                c.eq(snap(w), before, "failed slice assignment left a modified object")
        else:
            m = {}
            for s in (A, B, G):
                if c.rng.random() < 0.6:
                    m[s] = c.rng.choice([0.5, 0, 1, -0.5, 0.1, 2, A, sympy.Rational(1, 2), 0.25j, B])
            hist.append(("bind", str(m)))
            c.note(history=hist)
            try:
                w2 = w.bind(m)
            except Exception as e:
                c.require(isinstance(e, ValueError), f"bind failed with {type(e).__name__}: {e}")
                c.eq(snap(w), before, "failed bind modified the object")
            else:
                c.eq(snap(w), before, "bind modified the receiver")
                if not any(getattr(x, "free_symbols", None) for x in m.values()):
                    for x, y in zip(entries(w2), es):
                        d = sympy.simplify(x - y.subs(m, simultaneous=True))
                        c.require(not d.free_symbols and abs(complex(d)) < 1e-9, f"bound amplitude {x}, expected {y} under {m}")
                invariant(c, w2)
                if c.rng.random() < 0.7:
                    w = w2
        invariant(c, w)


def completions(tier):
    out = []
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        for i in range(2**n):
            for via in ("set", "bind", "set-bad", "bind-then-bad"):
                out.append((n, i, via))
    return out


@contract("C12", enum=completions)
def completing_a_symbolic_state(c):
    n, i, via = c.case
    N = 2**n
    x = 1 / math.sqrt(N)
    v = [x] * N
    v[i] = A
    w = Wavefunction(v)
    c.note(n=n, index=i, via=via)
    before = snap(w)
    if via == "set":
        w[i] = x
    elif via == "bind":
        w = w.bind({A: x})
    elif via == "set-bad":
        for bad in (0, 0.9 * x, 2, 1j):
            c.raises(ValueError, lambda: w.__setitem__(i, bad), "assignment completing to a non-normalised vector")
            c.eq(snap(w), before, "failed assignment left a modified object")
        invariant(c, w)
        return
    else:
        w = w.bind({A: x})
        b2 = snap(w)
        for bad in (0, 2, 1.1 * x):
            c.raises(ValueError, lambda: w.__setitem__(i, bad), "assignment violating normalisation")
            c.eq(snap(w), b2, "failed assignment left a modified object")
        c.raises(ValueError, lambda: Wavefunction(v).bind({A: 0}), "binding violating normalisation")
    invariant(c, w)
    c.close(np.asarray(w.amplitudes, dtype=complex).reshape(-1), [x] * N, "amplitudes")
    c.eq(len(sample_from_wavefunction(w, 3, seed=1)), 3, "samples")
    w[i] = -x
    invariant(c, w)


def dicke_cases(tier):
    small = [(n, k) for n in range(1, 9 if tier == "quick" else 13) for k in range(0, n + 1)]
    return small + [(9, 4), (10, 5), (10, 3), (11, 1), (11, 10), (12, 6), (13, 2), (14, 13), (14, 7)]


@contract("C12", enum=dicke_cases)
def dicke(c):
    n, k = c.case
    c.note(n=n, k=k)
    p = Wavefunction.dicke_state(n, k)
    pr = np.asarray(p.get_probabilities())
    want = np.array([1 / math.comb(n, k) if bin(i).count("1") == k else 0.0 for i in range(2**n)])
    c.require(np.all(np.abs(pr - want) <= 1e-12), "Dicke state probabilities")
    for bad in (-1, n + 1, 0.5):
        c.raises(ValueError, lambda: Wavefunction.dicke_state(n, bad), "Hamming weight")
    z = Wavefunction.zero_state(n)
    c.eq([complex(x) for x in z.amplitudes], [1.0] + [0.0] * (2**n - 1), "zero state")


@contract("C12", n=24)
def construction_large(c):
    n = c.rng.randint(7, 11)
    v = random_state(c.np, n)
    c.note(n=n)
    w = Wavefunction(v)
    c.eq(w.n_qubits, n, "n_qubits")
    c.require(abs(float(np.sum(np.asarray(w.get_probabilities()))) - 1) <= 2e-5, "probabilities do not sum to one")
    for bad in (v * 1.2, v * 0.9, np.concatenate([v[:-1], [v[-1] + 1]]), np.zeros(2**n), v[:-1], np.concatenate([v, [0]])):
        c.raises(ValueError, lambda: Wavefunction(bad), "amplitudes that are not normalised or of a wrong number")
    before = vec(w.amplitudes)
    i = c.rng.randrange(2**n)
    c.raises(ValueError, lambda: w.__setitem__(i, 2.0), "assignment violating normalisation")
    c.require(np.array_equal(vec(w.amplitudes), before), "failed assignment left a modified object")
    if n <= 8:
        u = [complex(x) for x in v]
        u[i] = A
        s = Wavefunction(u)
        c.raises(ValueError, lambda: s.bind({A: 2}), "binding violating normalisation")
        c.require(np.allclose(vec(s.bind({A: complex(v[i])}).amplitudes), before), "bound amplitudes")
        u[i - 1] = 1.5
        c.raises(ValueError, lambda: Wavefunction(u), "numeric entries exceeding one")


@contract("C12", n=200)
def flip(c):
    n = c.rng.randint(0, 6)
    w = try_make(c, numeric_vector(c, n)) if c.rng.random() < 0.8 else None
    if w is None:
        w = Wavefunction(random_state(c.np, n))
    a = vec(w.amplitudes)
    c.note(n=n)
    f = flip_wavefunction(w)
    rev = [int(format(i, f"0{n}b")[::-1], 2) if n else 0 for i in range(2**n)]
    c.require(np.array_equal(vec(f.amplitudes), a[rev]), "flip is not the bit reversal")
    c.require(np.array_equal(vec(flip_wavefunction(f).amplitudes), a), "flip is not an involution")
    c.require(np.array_equal(vec(flip_amplitudes(a)), a[rev]), "flip_amplitudes")
    c.require(np.array_equal(vec(flip_amplitudes(list(a))), a[rev]), "flip_amplitudes of a list")
    c.require(np.array_equal(vec(w.amplitudes), a), "flip modified its argument")
    if n:
        sv = [A] + [0.0] * (2**n - 2) + [B]
        c.rng.shuffle(sv)
        c.eq(list(flip_wavefunction(Wavefunction(sv)).amplitudes), [sympy.sympify(sv[r]) for r in rev], "flip of a symbolic state")


@contract("C12", n=120)
def save_load(c):
    n = c.rng.randint(0, 5)
    a = numeric_vector(c, n)
    if c.rng.random() < 0.3:
        a = np.abs(a).astype(float)
    w = Wavefunction(a)
    if n and c.rng.random() < 0.3:
        v = list(a)
        v[0] = A
        w = Wavefunction(v).bind({A: a[0]})
    d = tempfile.mkdtemp()
    p = os.path.join(d, "w.json")
    try:
        save_wavefunction(w, p)
        l = load_wavefunction(p)
        with open(p) as f:
            l2 = load_wavefunction(f)
    finally:
        if os.path.exists(p):
            os.remove(p)
        os.rmdir(d)
    c.note(n=n)
    c.require(np.array_equal(vec(l.amplitudes), vec(w.amplitudes)), "loaded amplitudes differ")
    c.require(np.array_equal(vec(l2.amplitudes), vec(w.amplitudes)), "loaded amplitudes differ (open file)")
    invariant(c, l)


@contract("C12", n=12)
def repeated_assignments(c):
    """many assignments that are each within the tolerance of the current norm: the invariant holds after every one of them"""
    n = c.rng.randint(1, 3)
    w = Wavefunction(random_state(c.np, n))
    up = c.rng.choice([1 + 4e-6, 1 - 4e-6, 1 + 1e-6])
    c.note(n=n, factor=up)
    i = int(np.argmax(np.abs(vec(w.amplitudes))))
    for step in range(120):
        k = i if c.rng.random() < 0.8 else c.rng.randrange(2**n)
        before = snap(w)
        try:
            w[k] = entries(w)[k] * up
        except ValueError:
            c.eq(snap(w), before, "refused assignment changed the wavefunction")
            break
    invariant(c, w)

from collections import Counter
from fractions import Fraction

import numpy as np

from orquestra.quantum.measurements import (
    Measurements,
    check_parity,
    check_parity_of_vector,
    get_expectation_value_from_frequencies,
    get_expectation_values_from_parities,
    get_parities_from_measurements,
)
from orquestra.quantum.operators import PauliSum, PauliTerm

from ..orc import *
from ..rtcore import contract


def shots(c, n=None, zero=False):
    """random multiset of bit tuples; small supports, heavy skew, many repetitions, numpy integers"""
    n = n if n is not None else c.rng.choice([1, 1, 2, 3, 3, 4, 5, 11])
    kind = c.rng.randrange(4)
    m = c.rng.choice([1, 2, 3, 5, 10, 40, 200, 1000])
    if kind == 0:
        b = [tuple(c.rng.randrange(2) for _ in range(n)) for _ in range(m)]
    elif kind == 1:
        pool = [tuple(c.rng.randrange(2) for _ in range(n)) for _ in range(2)]
        b = [c.rng.choice(pool) for _ in range(m)]
    elif kind == 2:
        b = [tuple(int(c.rng.random() < 0.8) for _ in range(n)) for _ in range(m)]
    else:
        b = [tuple(int(q == c.rng.randrange(n)) for q in range(n)) for _ in range(m)]
    if c.rng.random() < 0.15:
        b = [tuple(np.int8(x) for x in t) for t in b]
    return n, b


def ising(c, n):
    o = random_term(c.rng, n, ising=True) if c.rng.random() < 0.2 else random_sum(c.rng, n, ising=True)
    if isinstance(o, PauliSum) and not o.terms:
        o = PauliSum([PauliTerm({}, 2.5)])
    if c.rng.random() < 0.15:  # the constant term in arbitrary positions
        ts = list(o.terms)
        ts.insert(c.rng.randint(0, len(ts)), PauliTerm({}, coef(c.rng)))
        o = PauliSum(ts)
    return o


def eig(t, b):
    return (-1) ** sum(int(b[q]) for q in t._ops)


@contract("C10", n=500)
def expectation_values(c):
    n, b = shots(c)
    o = ising(c, n)
    bessel = c.rng.random() < 0.5 and len(b) > 1
    c.note(shots=Counter(b), op=o, bessel=bessel)
    ev = Measurements(list(b)).get_expectation_values(o, bessel)
    T = o.terms
    co = [complex(t.coefficient) for t in T]
    vals = [[co[i] * eig(t, s) for s in b] for i, t in enumerate(T)]
    mean = np.array([np.mean(v) for v in vals])
    c.close(ev.values, mean, "values")
    corr = np.array([[np.mean([x * y for x, y in zip(vals[i], vals[j])]) for j in range(len(T))] for i in range(len(T))])
    c.eq(len(ev.correlations), 1)
    c.close(ev.correlations[0], corr, "correlations")
    c.eq(len(ev.estimator_covariances), 1)
    cov = (corr - np.outer(mean, mean)) / (len(b) - 1 if bessel else len(b))
    c.close(ev.estimator_covariances[0], cov, "estimator covariances")


@contract("C10", n=300)
def counts_and_distribution(c):
    n, b = shots(c)
    m = Measurements(list(b))
    want = Counter("".join(str(int(x)) for x in t) for t in b)
    c.note(counts=want)
    cnt = m.get_counts()
    c.eq(dict(cnt), dict(want), "counts")
    c.eq(sum(cnt.values()), len(b), "counts sum to the number of shots")
    m2 = Measurements.from_counts(cnt)
    c.eq(Counter(m2.bitstrings), Counter(tuple(map(int, t)) for t in b), "from_counts")
    c.eq(m2.get_counts(), cnt, "from_counts then get_counts")
    k = c.rng.randint(0, len(b))
    m3 = Measurements(list(b[:k]))
    m3.add_counts(Measurements(list(b[k:])).get_counts())
    c.eq(Counter(m3.get_counts()), Counter(cnt), "add_counts")
    d = m.get_distribution().distribution_dict
    c.eq(set(d), {tuple(map(int, t)) for t in b}, "support")
    for key, p in d.items():
        c.close(p, want["".join(map(str, key))] / len(b), "empirical distribution", tol=1e-12)


@contract("C10", n=300)
def frequencies_and_parities(c):
    n, b = shots(c)
    o = ising(c, n)
    c.note(shots=Counter(b), op=o)
    p = get_parities_from_measurements(list(b), o)
    c.eq(tuple(np.shape(p.values)), (len(o.terms), 2))
    for i, t in enumerate(o.terms):
        even = sum(eig(t, s) == 1 for s in b)
        c.eq(tuple(int(x) for x in p.values[i]), (even, len(b) - even), f"parity tally of term {i}")
        for j, u in enumerate(o.terms):
            e2 = sum(eig(t, s) == eig(u, s) for s in b)
            c.eq(tuple(float(x) for x in p.correlations[0][i, j]), (e2, len(b) - e2), f"pair tally {i},{j}")
    ev = get_expectation_values_from_parities(p)
    c.close(ev.values, [np.mean([eig(t, s) for s in b]) for t in o.terms], "values from parities")
    q = set(c.rng.sample(range(n), c.rng.randint(0, n)))
    marked = c.rng.choice([set, list, tuple, frozenset])(q)
    c.note(marked=marked)
    want = [sum(int(s[k]) for k in q) % 2 == 0 for s in b]
    c.eq([bool(check_parity(s, marked)) for s in b], want, "check_parity of tuples")
    strs = ["".join(str(int(x)) for x in s) for s in b]
    c.eq([bool(check_parity(s, marked)) for s in strs], want, "check_parity of strings")
    c.eq([bool(x) for x in check_parity_of_vector(np.array([list(map(int, s)) for s in b]), marked)], want, "vector")
    c.close(get_expectation_value_from_frequencies(marked, dict(Counter(strs))), np.mean([1 if w else -1 for w in want]),
            "expectation value from frequencies")


@contract("C10", n=30)
def non_ising_rejected(c):
    n, b = shots(c)
    o = PauliTerm({c.rng.randrange(n): c.rng.choice("XY")}, 1.5)
    if c.rng.random() < 0.5:
        o = PauliSum([PauliTerm({0: "Z"}), o])
    c.note(op=o)
    c.raises(TypeError, lambda: Measurements(list(b)).get_expectation_values(o))
    c.raises(TypeError, lambda: get_parities_from_measurements(list(b), o))


@contract("C10", n=50)
def wide_registers(c):
    """few terms on far apart qubits of a wide register (indices of one and two digits mixed)"""
    n = c.rng.choice([12, 13, 23, 40, 70])
    m = c.rng.choice([1, 2, 5, 20])
    b = [tuple(c.rng.randrange(2) for _ in range(n)) for _ in range(m)]
    pool = [q for q in (0, 1, 2, 3, 10, 11, 12, 20, 21, 22, 32, 33, 63, 64, n - 1) if q < n]
    T = [PauliTerm({q: "Z" for q in c.rng.sample(pool, c.rng.randint(1, 4))}, coef(c.rng)) for _ in range(c.rng.randint(1, 4))]
    if c.rng.random() < 0.4:
        T += [PauliTerm({1: "Z", 11: "Z"}), PauliTerm({11: "Z", c.rng.choice([0, 1, 2]): "Z"}), PauliTerm({0: "Z", 1: "Z", 2: "Z"})]
    o = PauliSum(T)
    c.note(n=n, shots=m, op=o)
    vals = np.array([[complex(t.coefficient) * eig(t, s) for s in b] for t in T])
    ev = Measurements(list(b)).get_expectation_values(o)
    c.close(ev.values, vals.mean(axis=1), "values")
    c.close(ev.correlations[0], vals @ vals.T / m, "correlations")
    p = get_parities_from_measurements(list(b), o)
    for i, t in enumerate(T):
        even = sum(eig(t, s) == 1 for s in b)
        c.eq(tuple(int(x) for x in p.values[i]), (even, m - even), f"parity tally of term {i}")
        f = dict(Counter("".join(map(str, s)) for s in b))
        c.close(get_expectation_value_from_frequencies(t.qubits, f), (2 * even - m) / m, "expectation value from frequencies")
    c.eq(Counter(Measurements.from_counts(Measurements(list(b)).get_counts()).bitstrings), Counter(b), "counts and back")


@contract("C10", n=60)
def large_counts(c):
    """histograms with far more shots than can be listed"""
    n = c.rng.choice([1, 2, 3, 5])
    top = c.rng.choice([200, 40000, 70000, 2**31 + 7, 2**33 + 1, 2**45])
    keys = {"".join(c.rng.choice("01") for _ in range(n)) for _ in range(c.rng.randint(1, 6))}
    f = {k: c.rng.choice([1, c.rng.randint(1, top), top]) for k in sorted(keys)}
    q = set(c.rng.sample(range(n), c.rng.randint(0, n)))
    c.note(frequencies=f, marked=q)
    want = Fraction(sum(v * (-1) ** sum(int(k[i]) for i in q) for k, v in f.items()), sum(f.values()))
    c.close(get_expectation_value_from_frequencies(q, f), float(want), "expectation value from frequencies", tol=1e-9)
    c.close(get_expectation_value_from_frequencies(q, Counter(f)), float(want), "of a counter", tol=1e-9)

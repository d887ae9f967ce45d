import random
from collections import Counter
from fractions import Fraction

import numpy as np

from orquestra.quantum.circuits import combine_bitstrings, combine_measurement_counts, expand_sample_sizes, split_into_batches
from orquestra.quantum.distributions import MeasurementOutcomeDistribution
from orquestra.quantum.measurements import Measurements
from orquestra.quantum.utils import scale_and_discretize

from ..rtcore import contract


class Obj:
    """an opaque circuit: compared by identity only"""

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return f"<c{self.i}>"


def small_sizes(tier):
    m = 9 if tier == "quick" else 24
    out = [([n], k) for n in range(0, m) for k in range(1, m)]
    out += [([a, b], k) for a in range(1, 6) for b in range(1, 6) for k in range(1, 5)]
    big = [2**31, 2**53 - 1, 2**53, 2**53 + 1, 10**17 + 1, 2**63 + 5, 3 * 2**60 + 1]
    out += [([b, 1, b + 1], k) for b in big for k in (b, b - 1, b + 1, b // 2, b // 2 + 1, b // 3)]
    out += [([], 3)]
    return out


@contract("C13", enum=small_sizes)
def expand_then_combine_enumerated(c):
    n, k = c.case
    expand_check(c, n, k)


@contract("C13", n=400)
def expand_then_combine(c):
    k = c.rng.choice([1, 2, 3, 7, 10, 100, 4096])
    n = [c.rng.choice([1, k, k - 1 or 1, k + 1, 2 * k, c.rng.randint(1, 5 * k)]) for _ in range(c.rng.randint(0, 6))]
    expand_check(c, n, k)


def expand_check(c, n, k):
    c.note(n_samples=n, maximum=k)
    circs = [Obj(i) for i in range(len(n))]
    args = (tuple(circs), tuple(n)) if c.rng.random() < 0.5 else (list(circs), list(n))
    if sum(n) // k > 10**5:
        c.skip()
    newc, newn, mult = expand_sample_sizes(args[0], args[1], k)
    c.eq(list(args[0]), circs, "circuits argument")
    c.eq(list(args[1]), n, "sample sizes argument")
    c.eq(len(mult), len(n), "one multiplicity per circuit")
    c.eq(len(newc), len(newn), "one sample size per copy")
    c.eq(sum(mult), len(newc), "multiplicities sum to the number of copies")
    pos = 0
    for i, m in enumerate(mult):
        cs, ns = newc[pos : pos + m], newn[pos : pos + m]
        c.require(all(x is circs[i] for x in cs), "copies out of order")
        c.require(all(1 <= x <= k for x in ns), f"copy sizes {ns} not within 1..{k}")
        c.eq(sum(ns), n[i], f"shots of circuit {i}")
        pos += m
    c.eq(pos, len(newc), "extra copies")
    if sum(n) < 2000:
        shots = [["%d-%d" % (j, t % 3) for t in range(x)] for j, x in enumerate(newn)]
        counts = [dict(Counter(s)) for s in shots]
        cc = combine_measurement_counts(counts, mult)
        cb = combine_bitstrings(shots, mult)
        c.eq(counts, [dict(Counter(s)) for s in shots], "counts argument")
        pos = 0
        c.eq(len(cc), len(n), "combined counts")
        c.eq(len(cb), len(n), "combined bitstrings")
        for i, m in enumerate(mult):
            want = sum(shots[pos : pos + m], [])
            c.eq(list(cb[i]), want, "combined bitstrings")
            c.eq(dict(cc[i]), dict(Counter(want)), "combined counts")
            c.eq(sum(cc[i].values()), n[i], "combined total")
            pos += m


@contract("C13", n=300)
def combine_shared_keys(c):
    mult = [c.rng.randint(1, 4) for _ in range(c.rng.randint(0, 5))]
    counts = [{b: c.rng.randint(0, 5) for b in c.rng.sample(["00", "01", "10", "11"], c.rng.randint(0, 4))} for _ in range(sum(mult))]
    keep = [dict(d) for d in counts]
    c.note(counts=counts, multiplicities=mult)
    r = combine_measurement_counts(counts, mult)
    c.eq(counts, keep, "arguments")
    c.eq(len(r), len(mult), "number of results")
    pos = 0
    for i, m in enumerate(mult):
        want = Counter()
        for d in keep[pos : pos + m]:
            for b, x in d.items():
                want[b] += x
        c.eq({b: x for b, x in r[i].items() if x}, {b: x for b, x in want.items() if x}, "combined counts")
        pos += m
    shots = [[c.rng.choice(["0", "1", (0, 1)]) for _ in range(c.rng.randint(0, 4))] for _ in range(sum(mult))]
    keep = [list(s) for s in shots]
    rb = combine_bitstrings(shots, mult)
    c.eq(shots, keep, "arguments")
    pos = 0
    for i, m in enumerate(mult):
        c.eq(list(rb[i]), sum(keep[pos : pos + m], []), "combined bitstrings")
        pos += m
    bad = mult + [1] if c.rng.random() < 0.5 or not mult else mult[:-1] + [mult[-1] + 1]
    c.raises(ValueError, lambda: combine_measurement_counts(counts, bad), "multiplicities that do not fit")
    c.raises(ValueError, lambda: combine_bitstrings(shots, bad), "multiplicities that do not fit")


@contract("C13", n=400)
def batches(c):
    k = c.rng.randint(0, 12)
    circs = [Obj(i) for i in range(k)]
    n = [c.rng.randint(1, 50) for _ in range(k)]
    mb = c.rng.choice([1, 2, 3, 4, k or 1, k + 1, max(1, k - 1), 100])
    c.note(n=n, max_batch=mb)
    out = list(split_into_batches(circs, n, mb))
    flat = [x for b, _ in out for x in b]
    c.require(len(flat) == k and all(a is b for a, b in zip(flat, circs)), "batches do not cover the circuits in order")
    pos = 0
    for b, s in out:
        c.require(1 <= len(b) <= mb, f"batch of {len(b)} circuits, maximum {mb}")
        c.require(s >= max(n[pos : pos + len(b)]), f"batch asks for {s} samples of {n[pos:pos+len(b)]}")
        pos += len(b)
    c.raises(ValueError, lambda: split_into_batches(circs, n + [1], mb), "mismatched lengths")
    for bad in (0, -1):
        c.raises(ValueError, lambda: split_into_batches(circs, n, bad), "batch size")


@contract("C13", n=900)
def representing_distribution(c):
    w = c.rng.randint(1, 4)
    k = c.rng.randint(1, 2**w)
    base = c.rng.choice([2, 2, 2, 3, 11])
    keys = set()
    while len(keys) < k:
        keys.add(tuple(c.rng.randrange(base) for _ in range(w)))
    keys = sorted(keys)
    c.rng.shuffle(keys)
    kind = c.rng.randrange(6)
    if kind == 0:
        p = [1.0 / k] * k
    elif kind == 1:
        p = [c.rng.randint(0, 4) for _ in range(k)]
    elif kind == 2:
        p = [c.rng.random() ** 4 for _ in range(k)]
    elif kind == 3:
        p = [0.5 if i == 0 else 0.5 / max(1, k - 1) for i in range(k)]
    elif kind == 4:
        p = [c.rng.choice([1e-9, 1e-3, 1.0]) for _ in range(k)]
    else:
        p = [c.rng.choice([1, 1, 3]) for _ in range(k)]
    if not sum(p):
        p[0] = 1
    d = MeasurementOutcomeDistribution(dict(zip(keys, p)))
    before = dict(d.distribution_dict)
    n = c.rng.choice([0, 1, 2, 3, 5, 7, 10, k, k + 1, 2 * k - 1, c.rng.randint(1, 300)])
    c.note(distribution=before, shots=n)
    m = Measurements.get_measurements_representing_distribution(d, n)
    c.eq(len(m.bitstrings), n, "number of shots")
    sup = {x for x, q in before.items() if q > 0}
    c.require(all(tuple(b) in sup for b in m.bitstrings), "shot outside the support")
    c.eq(d.distribution_dict, before, "distribution argument")
    if all((Fraction(q) * n).denominator == 1 for q in before.values()) and sum(map(Fraction, before.values())) == 1:
        c.eq(dict(Counter(map(tuple, m.bitstrings))), {x: int(q * n) for x, q in before.items() if q * n}, "exactly representable distribution")


@contract("C13", n=900)
def scaling(c):
    k = c.rng.randint(1, 8)
    kind = c.rng.randrange(7)
    if kind == 6:
        v = [c.rng.randint(0, 2 ** c.rng.choice([40, 60])) for _ in range(k)]
    elif kind == 0:
        v = [c.rng.random() for _ in range(k)]
    elif kind == 1:
        v = [c.rng.randint(0, 9) for _ in range(k)]
    elif kind == 2:
        v = [1.0] * k
    elif kind == 3:
        v = [c.rng.choice([1e-12, 1.0, 1e12]) for _ in range(k)]
    elif kind == 4:
        v = [0.1 * c.rng.randint(0, 5) for _ in range(k)]
    else:
        v = [0.0] * (k - 1) + [c.rng.random() + 0.1]
    if not sum(v):
        v[0] = 1
    total = c.rng.choice([0, 1, 2, k, k - 1, 10, 99, 1000, c.rng.randint(0, 10**9), 2**53 + 1, c.rng.randint(0, 2**62)])
    form = c.rng.choice([list, tuple, np.array])
    arg = form(v)
    c.note(values=v, total=total)
    r = scale_and_discretize(arg, total)
    c.eq(list(arg), v, "argument")
    c.eq(len(r), k, "length")
    c.require(all(isinstance(x, (int, np.integer)) for x in r), f"not integers: {r}")
    c.eq(sum(map(int, r)), total, "sum")
    s = sum(map(Fraction, v))
    for x, q in zip(r, v):
        c.require(abs(int(x) - Fraction(q) * total / s) <= 1 + Fraction(1, 10**6), f"{x} is not within one of {float(Fraction(q) * total / s)}")

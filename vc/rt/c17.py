import itertools
import math
import os
import tempfile
import warnings

import numpy as np

from orquestra.quantum.distributions import (
    MeasurementOutcomeDistribution as D,
    change_tuple_dict_keys_to_comma_separated_integers,
    compute_clipped_negative_log_likelihood as cnll,
    compute_jensen_shannon_divergence as jsd,
    compute_mmd as mmd,
    create_bitstring_distribution_from_probability_distribution,
    evaluate_distribution_distance,
    is_normalized,
    load_measurement_outcome_distribution,
    load_measurement_outcome_distributions,
    save_measurement_outcome_distribution,
    save_measurement_outcome_distributions,
)

from ..rtcore import contract


def rand_keys(c, w, k, base):
    k = min(k, base**w)
    keys = set()
    while len(keys) < k:
        keys.add(tuple(c.rng.randrange(base) for _ in range(w)))
    keys = sorted(keys)
    c.rng.shuffle(keys)
    return keys


def weights(c, k):
    kind = c.rng.randrange(6)
    if kind == 0:
        p = [c.rng.random() for _ in range(k)]
    elif kind == 1:
        p = [c.rng.randint(0, 3) for _ in range(k)]
    elif kind == 2:
        p = [1 / k] * k
    elif kind == 3:
        p = [c.rng.choice([1e-12, 1e-3, 1.0, 1e6, 1e-300]) for _ in range(k)]
    elif kind == 4:  # almost normalised
        p = [c.rng.random() + 0.01 for _ in range(k)]
        f = (1 + c.rng.choice([1, -1]) * c.rng.choice([9e-6, 1e-6, 1e-7, 2e-8])) / math.fsum(p)
        p = [x * f for x in p]
    else:
        p = [c.rng.choice([np.float64(0.25), 1, 2.5]) for _ in range(k)]
    if not sum(p):
        p[c.rng.randrange(k)] = 1
    return p


def rand_dist(c, w=None, base=None, k=None):
    w = w if w is not None else c.rng.randint(1, 4)
    base = base or c.rng.choice([2, 2, 2, 3, 12])
    if k is None and c.rng.random() < 0.06:  # many outcomes
        w, k = max(w, 7), c.rng.randint(65, 120)
    keys = rand_keys(c, w, k or c.rng.randint(1, 8), base)
    return D(dict(zip(keys, weights(c, len(keys)))))


@contract("C17", n=500)
def construction(c):
    w = c.rng.randint(0, 4)
    base = c.rng.choice([2, 2, 2, 3, 12])
    keys = rand_keys(c, w, c.rng.randint(1, 8), base)
    p = weights(c, len(keys))
    form = c.rng.choice(["tuple", "tuple", "comma", "digits", "np"])
    src = []
    for k in keys:
        if form == "comma" and w >= 2:
            src.append(",".join(map(str, k)))
        elif form == "digits" and base <= 10:
            src.append("".join(map(str, k)))
        elif form == "np":
            src.append(tuple(np.int64(x) for x in k))
        else:
            src.append(k)
    inp = dict(zip(src, p))
    keep = dict(inp)
    c.note(input=inp)
    d = D(inp)
    c.eq(inp, keep, "input dictionary was modified")
    dd = d.distribution_dict
    c.require(dd is not inp, "distribution aliases its input")
    c.eq(set(dd), set(keys), "outcomes")
    s = math.fsum(dd.values())
    c.require(abs(s - 1) <= 1e-8, f"probabilities sum to {s}")
    tot = math.fsum(p)
    for k, q in zip(keys, p):
        c.require(dd[k] >= 0, "negative probability")
        c.require(abs(dd[k] - q / tot) <= 1e-8 * max(q / tot, 1e-30) + 1e-300, f"proportions changed at {k}: {dd[k]} vs {q / tot}")
    c.eq(d.get_number_of_subsystems(), w, "number of subsystems")
    before = dict(dd)
    D(dd)
    c.eq(dd, before, "constructing from a distribution's dictionary modified it")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        u = D(inp, normalize=False)
    c.eq(u.distribution_dict, dict(zip(keys, p)), "unnormalised distribution")
    c.eq(inp, keep, "input dictionary was modified")


def bad_inputs(tier):
    out = [({}, "empty"), ({(0, 1): -0.5, (1, 1): 1.5}, "negative value"), ({(0,): 0.5, (0, 1): 0.5}, "unequal length"),
           ({"0": 0.5, "01": 0.5}, "unequal length"), ({(0, 0): 0.0, (1, 1): 0}, "all zero"), ({(0, -1): 1.0}, "negative digit"),
           ({(0.5,): 1.0}, "non-integer digit"), ({(0,): float("nan")}, "nan"), ({(0, 1): -1e-12, (1, 1): 1.0}, "slightly negative"),
           ({(0, 1): 0.5, (1, 1): -0.5}, "negative last"), ({(0, 1): 1.0, (1, 1): 0.5, (1,): 0.5}, "short last key"),
           ({(0,): 1e308, (1,): 1e308}, "total overflows"), ({(1, 0): 1.0, (1, 1): -0.0, (0, 1, 0): 0}, "long key with zero weight"),
           ({(0,): 1.0, (): 0.0}, "empty key"), ({("a",): 1.0}, "letters"), ({(0,): 0.5, (1,): float("nan")}, "nan")]
    return out


@contract("C17", enum=bad_inputs)
def rejected_inputs(c):
    inp, why = c.case
    c.note(input=inp, why=why)
    c.raises((RuntimeError, ValueError), lambda: D(inp), f"{why}")
    if why not in ("all zero", "total overflows"):
        c.raises((RuntimeError, ValueError), lambda: D(inp, normalize=False), f"{why} (without normalisation)")


@contract("C17", n=500)
def marginals(c):
    d = rand_dist(c)
    if c.rng.random() < 0.2:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            keys = list(d.distribution_dict)
            d = D(dict(zip(keys, weights(c, len(keys)))), normalize=False)
    w = d.get_number_of_subsystems()
    q = c.rng.sample(range(w), c.rng.randint(1, w))
    src = dict(d.distribution_dict)
    order = list(src)
    c.note(distribution=src, qubits=q)
    arg = list(q)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = d.subdistribution(arg)
        c.eq(d.distribution_dict, src, "the source distribution changed")
        c.eq(list(d.distribution_dict), order, "the source distribution was reordered")
        c.eq(arg, q, "qubit list")
        s2 = d.subdistribution(arg)
    want = {}
    for k, v in src.items():
        kk = tuple(k[i] for i in q)
        want[kk] = want.get(kk, 0) + v
    for r in (s, s2):
        c.eq(set(r.distribution_dict), set(want), "projected outcomes")
        for k, v in want.items():
            x = r.distribution_dict[k]
            c.require(abs(x - v) <= 1e-8 * max(abs(v), 1e-12), f"marginal of {k} is {x}, expected {v}")
    c.raises(ValueError, lambda: d.subdistribution([w]), "qubit out of range")
    c.raises(ValueError, lambda: d.subdistribution([0, 0]), "duplicate qubits")
    c.eq(d.distribution_dict, src, "the source distribution changed")


@contract("C17", n=400)
def distances(c):
    w = c.rng.choice([1, 1, 2, 3, 4, 20, 32, 33, 63, 64, 70])
    base = 2 if w > 4 else c.rng.choice([2, 2, 3, 12])
    p, q = rand_dist(c, w, base, c.rng.randint(1, 8)), rand_dist(c, w, base, c.rng.randint(1, 8))
    if w > 4 and c.rng.random() < 0.1:
        p, q = rand_dist(c, w, base, c.rng.randint(60, 110)), rand_dist(c, w, base, c.rng.randint(60, 110))
    if w > 4 and c.rng.random() < 0.7:
        # outcomes a power of two apart
        j = c.rng.randrange(w)
        k = list(next(iter(p.distribution_dict)))
        k[j] = 1 - k[j]
        q = D({tuple(k): 1.0, next(iter(p.distribution_dict)): c.rng.random()})
    if c.rng.random() < 0.1:
        q = D(dict(reversed(list(p.distribution_dict.items()))))
    c.note(p=p.distribution_dict, q=q.distribution_dict)
    pk, qk = dict(p.distribution_dict), dict(q.distribution_dict)
    sig = c.rng.choice([{}, {"sigma": 0.5}, {"sigma": 3}, {"sigma": [1.0, 0.3]}, {"sigma": np.array([1.0, 4.0, 9.0])}])
    a, b = mmd(p, q, sig), mmd(q, p, sig)
    c.require(np.isfinite(a) and np.isfinite(b), f"MMD is {a}")
    c.require(abs(a - b) <= 1e-9, f"MMD not symmetric: {a} vs {b}")
    c.require(a >= -1e-9, f"MMD negative: {a}")
    c.require(abs(mmd(p, p, sig)) <= 1e-9 and abs(mmd(q, D(dict(qk)), sig)) <= 1e-9, "MMD of a distribution with itself")
    same = all(abs(pk.get(k, 0) - qk.get(k, 0)) < 1e-12 for k in set(pk) | set(qk))
    if w <= 4 and base == 2:
        S = sig.get("sigma", 1.0)
        S = [S] if not hasattr(S, "__len__") else list(S)
        ks = sorted(set(pk) | set(qk))
        v = np.array([pk.get(k, 0) - qk.get(k, 0) for k in ks])
        x = np.array([int("".join(map(str, k)), 2) for k in ks], dtype=float)
        K = sum(np.exp(-((x[:, None] - x[None, :]) ** 2) / (2 * s)) for s in S) / len(S)
        c.close(a, v @ K @ v, "squared MMD", tol=1e-9)
    eps = c.rng.choice([1e-9, 1e-9, 1e-3, 1e-12])
    par = {} if eps == 1e-9 and c.rng.random() < 0.5 else {"epsilon": eps}
    ent = -sum(x * math.log(x) for x in pk.values() if x > 0)
    n = len(set(pk) | set(qk))
    l = cnll(p, q, par)
    c.require(math.isfinite(l) and l >= ent - math.log(1 + eps * n) - 1e-9, f"clipped NLL {l} below the entropy {ent}")
    want = -sum(v * math.log(max(eps, qk.get(k, 0))) for k, v in pk.items())
    c.require(abs(l - want) <= 1e-8 * max(1, abs(want)), f"clipped NLL {l}, expected {want}")
    j1, j2 = jsd(p, q, par), jsd(q, p, par)
    c.require(abs(j1 - j2) <= 1e-9 * max(1, abs(j1)), "symmetrised divergence is not symmetric")
    c.require(abs(j1 - (cnll(p, q, par) + cnll(q, p, par)) / 2) <= 1e-9 * max(1, abs(j1)), "symmetrised divergence")
    for f in (mmd, cnll, jsd):
        kw = {"distance_measure_parameters": sig if f is mmd else par}
        c.close(evaluate_distribution_distance(p, q, f, **kw), f(p, q, kw["distance_measure_parameters"]), "evaluate_distribution_distance", tol=1e-9)
    c.eq((p.distribution_dict, q.distribution_dict), (pk, qk), "arguments changed")
    c.raises(RuntimeError, lambda: evaluate_distribution_distance(p, D({(0,) * (w + 1): 1.0}), mmd, distance_measure_parameters={}), "different widths")


@contract("C17", n=300)
def save_load(c):
    ds = [rand_dist(c) for _ in range(c.rng.randint(1, 4))]
    if c.rng.random() < 0.4:
        ds[0] = rand_dist(c, w=1, base=c.rng.choice([2, 13, 150]))
    c.note(d=[d.distribution_dict for d in ds])
    before = [dict(d.distribution_dict) for d in ds]
    t = tempfile.mkdtemp()
    f1, f2 = os.path.join(t, "a.json"), os.path.join(t, "b.json")
    try:
        save_measurement_outcome_distribution(ds[0], f1)
        save_measurement_outcome_distributions(ds, f2)
        got = [load_measurement_outcome_distribution(f1)]
        with open(f1) as f:
            got.append(load_measurement_outcome_distribution(f))
        lst = [load_measurement_outcome_distributions(f2)]
        with open(f2) as f:
            lst.append(load_measurement_outcome_distributions(f))
    finally:
        for f in (f1, f2):
            if os.path.exists(f):
                os.remove(f)
        os.rmdir(t)
    c.eq([d.distribution_dict for d in ds], before, "saving changed a distribution")
    for g in got:
        c.eq(g.distribution_dict, before[0], "loaded distribution")
        c.require(all(type(x) is int or isinstance(x, np.integer) for k in g.distribution_dict for x in k), "outcome types")
    for g in lst:
        c.eq([d.distribution_dict for d in g], before, "loaded distributions")


@contract("C17", n=200)
def from_probabilities(c):
    n = c.rng.randint(0, 5)
    p = c.np.random(2**n)
    p = p / p.sum()
    c.note(p=list(p))
    d = create_bitstring_distribution_from_probability_distribution(p)
    keys = list(itertools.product([0, 1], repeat=n))
    c.eq(set(d.distribution_dict), set(keys), "outcomes")
    for k, v in zip(keys, p):
        c.require(abs(d.distribution_dict[k] - v) < 1e-12, f"probability of {k}")
    c.require(is_normalized(d.distribution_dict), "not normalised")

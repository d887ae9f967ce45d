import io
import json
import os
import pathlib
import shutil
import tempfile

import numpy as np
import rapidjson

from orquestra.quantum.circuits import layouts
from orquestra.quantum.measurements import (
    ExpectationValues,
    Measurements,
    Parities,
    get_parities_from_measurements,
    load_expectation_values,
    load_parities,
    save_expectation_values,
    save_parities,
)
from orquestra.quantum.operators import (
    PauliSum,
    PauliTerm,
    convert_dict_to_op,
    convert_op_to_dict,
    load_operator,
    load_operator_set,
    save_operator,
    save_operator_set,
)
from orquestra.quantum import utils

from ..orc import *
from ..rtcore import contract

ATOL = 2e-8


def wide_coef(c):
    k = c.rng.randrange(9)
    r = c.rng.random() * c.rng.choice([1, -1])
    if k == 0:
        return r * 10.0 ** c.rng.choice([-7, -5, -4, 3, 15, 16, 17, 20, 30])
    if k == 1:
        return complex(r, c.rng.choice([1, -1]) * c.rng.random() * 10.0 ** c.rng.choice([-6, -5, -4, 0, 5, 18]))
    if k == 2:
        return complex(r * 10.0 ** c.rng.choice([-6, 18]), c.rng.uniform(-1, 1))
    if k == 3:
        return c.rng.choice([0, 0.0, -0.0, 0j, 1, -1, 2, -3, 10**17, 1.0, -1.0, 1j, -1j, 0.5j, -2.5j, complex(-0.0, 1), complex(3, -0.0)])
    if k == 4:
        return complex(0, r * 10.0 ** c.rng.choice([-6, 0, 17]))
    return coef(c.rng)


def operator(c, nmax=4):
    n = c.rng.choice([0, 1, 2, nmax, nmax])
    ts = [random_term(c.rng, n, c=wide_coef(c)) for _ in range(c.rng.choice([0, 1, 1, 2, 3, 5]))]
    if c.rng.random() < 0.2:
        ts.insert(c.rng.randint(0, len(ts)), PauliTerm({}, wide_coef(c)))
    if c.rng.random() < 0.3:
        ts = [PauliTerm({q + (c.rng.choice([7, 23, 100]) if q else 0): p for q, p in t._ops.items()}, t.coefficient)
              for t in ts]
    if c.rng.random() < 0.05:  # many letters, many terms
        ts.append(PauliTerm({q: c.rng.choice("XYZ") for q in c.rng.sample(range(120), c.rng.randint(33, 90))}, wide_coef(c)))
    if c.rng.random() < 0.05:
        ts += [random_term(c.rng, 5, c=wide_coef(c)) for _ in range(c.rng.randint(20, 80))]
    if c.rng.random() < 0.1 and ts:  # the same term twice
        t = c.rng.choice(ts)
        ts.insert(c.rng.randint(0, len(ts)), PauliTerm(dict(t._ops), t.coefficient))
    if c.rng.random() < 0.3 and ts:
        return c.rng.choice(ts)
    s = PauliSum(ts)
    return s.simplify() if c.rng.random() < 0.6 else s


def simp(op):
    """{frozenset(ops): summed coefficient}"""
    d = {}
    for t in op.terms:
        k = frozenset(t._ops.items())
        d[k] = d.get(k, 0) + complex(t.coefficient)
    return d


def same_matrix(c, got, op, msg):
    """equal denoted matrices up to the zero tolerance, per Pauli string (strings are linearly independent)"""
    a, b = simp(got), simp(op)
    for k in set(a) | set(b):
        x, y = a.get(k, 0), b.get(k, 0)
        mag = sum(abs(complex(t.coefficient)) for t in op.terms if frozenset(t._ops.items()) == k)
        c.require(abs(x - y) <= ATOL + 1e-12 * mag, f"{msg}: coefficient of {sorted(k)}: {x!r} instead of {y!r}")


def simplified(op):
    """every term distinct, coefficients above the zero tolerance"""
    d = simp(op)
    return len(d) == len(op.terms) and all(abs(v) > 1.1e-8 for v in d.values())


def exact(c, got, op, msg):
    if not simplified(op):
        return
    c.require(isinstance(got, PauliSum), f"{msg}: not a PauliSum")
    c.eq(len(got.terms), len(op.terms), f"{msg}: number of terms")
    a, b = simp(got), simp(op)
    c.eq(set(a), set(b), f"{msg}: operators and qubit indices")
    for k in b:
        c.eq((a[k].real, a[k].imag), (b[k].real, b[k].imag), f"{msg}: coefficient parts of {sorted(k)}")


@contract("C11", n=600)
def operator_dict(c):
    op = operator(c)
    c.note(op=[(dict(t._ops), t.coefficient) for t in op.terms])
    d = convert_op_to_dict(op)
    for name, dd in (("dict", d), ("json", json.loads(json.dumps(d))), ("rapidjson", rapidjson.loads(rapidjson.dumps(d)))):
        got = convert_dict_to_op(dd)
        same_matrix(c, got, op, name)
        exact(c, got, op, name)


def sources(path):
    """ways to name a saved artefact: path string, path object, open text file"""
    yield "path string", lambda: path, lambda x: None
    yield "open file", lambda: open(path), lambda x: x.close()
    yield "path object", lambda: pathlib.Path(path), lambda x: None


def load_all(c, load, path, check):
    for name, mk, fin in sources(path):
        s = mk()
        try:
            got = load(s)
        finally:
            fin(s)
        check(got, name)


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vc11")
        return os.path.join(self.d, "file.json")

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def dest(c, path):
    return c.rng.choice([path, path, pathlib.Path(path)])


@contract("C11", n=150)
def operator_files(c):
    op = operator(c)
    ops = [operator(c) for _ in range(c.rng.choice([0, 1, 2, 3, 3, 14, 40]))]
    c.note(op=str(op), n=len(ops))
    with scratch() as p:
        save_operator(op, dest(c, p))

        def check(got, src):
            same_matrix(c, got, op, f"load_operator({src})")
            exact(c, got, op, f"load_operator({src})")

        load_all(c, load_operator, p, check)
    with scratch() as p:
        save_operator_set(ops, dest(c, p))

        def check(got, src):
            c.eq(len(got), len(ops), f"load_operator_set({src})")
            for g, o in zip(got, ops):
                same_matrix(c, g, o, f"load_operator_set({src})")
                exact(c, g, o, f"load_operator_set({src})")

        load_all(c, load_operator_set, p, check)


@contract("C11", n=700)
def operator_text(c):
    op = operator(c)
    c.note(op=[(dict(t._ops), t.coefficient) for t in op.terms])
    if isinstance(op, PauliSum):
        if not op.terms:
            c.trivial()
        txt = str(op)
        c.note(text=txt)
        same_matrix(c, PauliSum(txt), op, "PauliSum(str(sum))")
    else:
        txt = str(op)
        c.note(text=txt)
        got = PauliTerm(txt)
        same_matrix(c, got, op, "PauliTerm(str(term))")
        same_matrix(c, PauliSum(txt), op, "PauliSum(str(term))")
    for t in op.terms:
        same_matrix(c, PauliTerm(str(t)), t, "PauliTerm(str(term))")


@contract("C11", n=120)
def measurement_files(c):
    n = c.rng.randint(1, 5)
    b = [tuple(c.rng.randrange(2) for _ in range(n)) for _ in range(c.rng.choice([0, 1, 2, 10, 50]))]
    if c.rng.random() < 0.3:
        b = [tuple(np.int8(x) for x in t) for t in b]
    m = Measurements(list(b))
    c.note(b=b)
    with scratch() as p:
        m.save(dest(c, p))

        def check(got, src):
            c.eq(list(got.bitstrings), [tuple(map(int, t)) for t in b], f"measurements from {src}")
            c.require(all(isinstance(t, tuple) for t in got.bitstrings), "tuples")

        load_all(c, Measurements.load_from_file, p, check)


def rarr(c, shape, cplx=None):
    cplx = c.rng.random() < 0.4 if cplx is None else cplx
    a = c.np.standard_normal(shape) * 10.0 ** c.rng.choice([-12, -3, 0, 0, 5])
    if c.rng.random() < 0.2:
        a = np.round(a)
    if cplx:
        a = a + 1j * (c.np.standard_normal(shape) if c.rng.random() < 0.7 else np.zeros(shape))
    return a


def arr_eq(c, a, b, msg):
    a, b = np.asarray(a), np.asarray(b)
    c.eq(a.shape, b.shape, f"{msg}: shape")
    c.require(np.array_equal(a, b), f"{msg}: {a!r} instead of {b!r}")


@contract("C11", n=150)
def expectation_value_files(c):
    k = c.rng.randint(1, 4)
    k = 0 if c.rng.random() < 0.05 else k  # an empty operator
    frames = c.rng.randint(1, 3)
    frames = c.rng.choice([frames, frames, frames, 0])
    corr = [rarr(c, (k, k)) for _ in range(frames)] if c.rng.random() < 0.7 else None
    cov = [rarr(c, (k, k)) for _ in range(frames)] if c.rng.random() < 0.7 else None
    ev = ExpectationValues(rarr(c, (k,)), corr, cov)
    c.note(values=ev.values, corr=corr, cov=cov)
    with scratch() as p:
        save_expectation_values(ev, dest(c, p))

        def check(got, src):
            arr_eq(c, got.values, ev.values, f"values from {src}")
            for nm in ("correlations", "estimator_covariances"):
                a, b = getattr(got, nm), getattr(ev, nm)
                c.eq(a is None, b is None, f"{nm} from {src}")
                if b is not None:
                    c.eq(len(a), len(b), nm)
                    for x, y in zip(a, b):
                        arr_eq(c, x, y, f"{nm} from {src}")

        load_all(c, load_expectation_values, p, check)


@contract("C11", n=80)
def parity_files(c):
    n = c.rng.randint(1, 4)
    b = [tuple(c.rng.randrange(2) for _ in range(n)) for _ in range(c.rng.choice([1, 2, 10, 50]))]
    op = random_sum(c.rng, n, m=c.rng.randint(1, 4), ising=True)
    par = get_parities_from_measurements(b, op)
    if c.rng.random() < 0.3:
        par = Parities(par.values)
    elif c.rng.random() < 0.5:
        k = len(par.values)
        par = Parities(par.values, [rarr(c, (k, k, 2), False) for _ in range(c.rng.choice([0, 2, 3, 12]))])
    c.note(b=b, op=str(op))
    with scratch() as p:
        save_parities(par, dest(c, p))

        def check(got, src):
            arr_eq(c, got.values, par.values, f"parities from {src}")
            c.eq(got.correlations is None, par.correlations is None, "correlations")
            c.eq(len(got.correlations or []), len(par.correlations or []), "number of correlation arrays")
            for x, y in zip(got.correlations or [], par.correlations or []):
                arr_eq(c, x, y, "correlations")

        load_all(c, load_parities, p, check)


@contract("C11", n=120)
def value_estimate_and_list_files(c):
    v = c.rng.choice([0, -1.5, c.rng.uniform(-1e6, 1e6), c.rng.random() * 1e-12, np.float64(0.1), np.float32(0.25), 1 / 3])
    pr = c.rng.choice([None, 0.0, c.rng.random(), np.float64(0.1), 1e-17, np.float32(0.5)])
    c.note(v=v, pr=pr)
    ve = utils.ValueEstimate(v, pr)
    with scratch() as p:
        utils.save_value_estimate(ve, dest(c, p))

        def check(got, src):
            c.require(isinstance(got, utils.ValueEstimate), "type")
            c.eq((float(got), got.precision), (float(v), pr), f"value estimate from {src}")
            c.require(got == ve, f"value estimate from {src} compares equal")

        load_all(c, utils.load_value_estimate, p, check)
    lst = [c.rng.choice([1, 2.5, "a", None, True, [1, [2.5]], {"k": [1]}, -1e-300, 10**20]) for _ in range(c.rng.randint(0, 5))]
    c.note(lst=lst)
    with scratch() as p:
        utils.save_list(lst, dest(c, p))
        load_all(c, utils.load_list, p, lambda got, src: c.eq(got, lst, f"list from {src}"))


@contract("C11", n=120)
def nmeas_files(c):
    K = c.rng.choice([0.0, c.rng.uniform(0, 1e6), 17, 1e-9])
    nt = c.rng.randint(0, 50)
    fm = c.rng.choice([None, rarr(c, (c.rng.randint(0, 5),), False), np.array([1, 2, 3]), rarr(c, (2, 2))])
    c.note(K=K, nt=nt, fm=fm)
    c.klass = "no-frame-meas" if fm is None else None
    with scratch() as p:
        utils.save_nmeas_estimate(K, nt, dest(c, p), fm)

        def check(got, src):
            c.eq((got[0], got[1]), (K, nt), f"nmeas from {src}")
            if fm is None:
                c.require(got[2] is None, "no frame measurements")
            else:
                arr_eq(c, got[2], fm, f"frame_meas from {src}")

        load_all(c, utils.load_nmeas_estimate, p, check)


@contract("C11", n=100)
def layout_files(c):
    layers = [[tuple(c.rng.sample(range(9), c.rng.randint(1, 3))) for _ in range(c.rng.randint(0, 4))]
              for _ in range(c.rng.randint(0, 4))]
    conn = [tuple(c.rng.sample(range(9), 2)) for _ in range(c.rng.choice([0, 1, 3, 6, 40]))]
    order = c.rng.sample(range(8), 8)
    if c.rng.random() < 0.3:
        cc, ll = layouts.build_circuit_layers_and_connectivity(c.rng.randint(1, 7))
        layers, conn = ll.layers, cc.connectivity
    c.note(layers=layers, conn=conn)
    with scratch() as p:
        layouts.save_circuit_layers(layouts.CircuitLayers(layers), dest(c, p))
        load_all(c, layouts.load_circuit_layers, p, lambda g, s: c.eq(g.layers, layers, f"layers from {s}"))
    with scratch() as p:
        layouts.save_circuit_connectivity(layouts.CircuitConnectivity(conn), dest(c, p))
        load_all(c, layouts.load_circuit_connectivity, p, lambda g, s: c.eq(g.connectivity, conn, f"connectivity from {s}"))
    with scratch() as p:
        layouts.save_circuit_ordering(order, dest(c, p))
        load_all(c, layouts.load_circuit_ordering, p, lambda g, s: c.eq(g, order, f"ordering from {s}"))


@contract("C11", n=150)
def array_dicts(c):
    a = rarr(c, c.rng.choice([(0,), (3,), (2, 2), (1,), (2, 0), (), (0, 0), (0, 3), (0, 0, 2), (2, 0, 3)]))
    c.note(a=a)
    d = json.loads(json.dumps(utils.convert_array_to_dict(a)))
    arr_eq(c, utils.convert_dict_to_array(d), a, "array from dict")

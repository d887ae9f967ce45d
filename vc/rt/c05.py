import io
import json
import keyword
import os
import pathlib
import shutil
import tempfile
from fractions import Fraction

import numpy as np
import rapidjson

import orquestra.quantum.circuits as oc
from orquestra.quantum.circuits import (
    Circuit,
    CustomGateDefinition,
    GateOperation,
    circuit_from_dict,
    circuitset_from_dict,
    load_circuit,
    load_circuitset,
    save_circuit,
    save_circuitset,
    to_dict,
)
from orquestra.quantum.circuits._gates import ControlledGate, CustomGateMatrixFactory, Dagger, Exponential, MatrixFactoryGate, Power
from orquestra.quantum.circuits._serde import custom_gate_def_from_dict, deserialize_expr, serialize_expr

from ..orc import *
from ..rtcore import contract

NAMES = ["alpha", "beta", "gamma", "theta", "zeta", "x", "x[0]", "x[3]", "x[10]", "lambda", "theta_1", "theta_10", "E", "I", "S", "N",
         "Q", "pi", "e", "phi'", "in", "O", "_symbol_0", "_symbol_1", "sin", "Symbol", "re", "t0", "X", "\u03b8", "beta[0][1]", "C", "diff"]
PLAIN = ["alpha", "beta", "gamma", "theta", "zeta", "x", "x[0]", "x[3]", "lambda", "theta_1", "theta_10", "S", "N", "Q", "e", "phi'", "t0", "sin", "_symbol_0"]
CONSTANTS = {"E", "I", "pi"}


def same_number(c, a, b, msg):
    """b is the original"""
    if isinstance(b, (int, float, complex, Fraction, np.number)) and not isinstance(b, bool):
        c.require(complex(a) == complex(b), f"{msg}: {a!r} instead of {b!r}")
        return
    b = sympy.sympify(b)
    a = sympy.sympify(a)
    c.eq(a.free_symbols, b.free_symbols, f"{msg}: free symbols")
    if isinstance(b, sympy.Symbol):
        c.eq(a, b, msg)
        return
    rng = np.random.default_rng(5)
    for _ in range(3):
        s = {y: float(v) for y, v in zip(sorted(b.free_symbols, key=str), rng.uniform(0.3, 2.5, len(b.free_symbols)))}
        x, y = complex(a.evalf(25, subs=s)), complex(b.evalf(25, subs=s))
        c.require(abs(x - y) <= 1e-12 * max(1.0, abs(y)) * 4, f"{msg}: {a} instead of {b}")


def same_gate(c, a, b, msg):
    c.eq(type(a).__name__, type(b).__name__, f"{msg}: wrapper / gate kind")
    if isinstance(b, MatrixFactoryGate):
        c.eq(a.name, b.name, f"{msg}: name")
        ca, cb = (isinstance(g.matrix_factory, CustomGateMatrixFactory) for g in (a, b))
        c.eq(ca, cb, f"{msg}: custom gate or built-in gate")
        if not cb:
            c.require(a.matrix_factory is b.matrix_factory, f"{msg}: matrix factory")
        else:
            same_definition(c, a.matrix_factory.gate_definition, b.matrix_factory.gate_definition, msg)
        c.eq((a.num_qubits, a.is_hermitian), (b.num_qubits, b.is_hermitian), f"{msg}: attributes")
        c.eq(len(a.params), len(b.params), f"{msg}: number of parameters")
        for x, y in zip(a.params, b.params):
            same_number(c, x, y, f"{msg}: parameter")
        return
    if isinstance(b, ControlledGate):
        c.eq(a.num_control_qubits, b.num_control_qubits, f"{msg}: number of controls")
    if isinstance(b, Power):
        c.require(a.exponent == b.exponent, f"{msg}: exponent {a.exponent!r} instead of {b.exponent!r}")
    same_gate(c, a.wrapped_gate, b.wrapped_gate, msg)


def same_definition(c, a, b, msg):
    c.eq((a.gate_name, a.params_ordering), (b.gate_name, b.params_ordering), f"{msg}: definition")
    c.eq(tuple(a.matrix.shape), tuple(b.matrix.shape), f"{msg}: shape of the definition")
    for x, y in zip(list(a.matrix), list(b.matrix)):
        same_number(c, x, y, f"{msg}: matrix element of the definition")


def exactly_representable(circ):
    def ok(x):
        if isinstance(x, (int, float, complex, np.number)):
            return True
        return all(sympy.Float(str(f)) == f for f in sympy.sympify(x).atoms(sympy.Float))

    for o in circ.operations:
        g = o.gate
        while hasattr(g, "wrapped_gate"):
            g = g.wrapped_gate
        if not all(map(ok, g.params)):
            return False
        if isinstance(g.matrix_factory, CustomGateMatrixFactory) and not all(map(ok, g.matrix_factory.gate_definition.matrix)):
            # elements that are plain numbers only have to agree to the tolerance of gate equality
            if any(not ok(e) for e in g.matrix_factory.gate_definition.matrix if sympy.sympify(e).free_symbols):
                return False
    return True


def same_circuit(c, a, b, msg):
    c.eq(a.n_qubits, b.n_qubits, f"{msg}: register width")
    c.eq(len(a.operations), len(b.operations), f"{msg}: number of operations")
    for x, y in zip(a.operations, b.operations):
        c.eq(tuple(x.qubit_indices), tuple(y.qubit_indices), f"{msg}: qubit indices")
        same_gate(c, x.gate, y.gate, msg)
    c.eq(a.free_symbols, b.free_symbols, f"{msg}: free symbols of the circuit")
    if exactly_representable(b):
        c.require(a == b, f"{msg}: deserialised circuit does not compare equal")


def trips(circ):
    d = to_dict(circ)
    yield "dict", circuit_from_dict(d)
    yield "json", circuit_from_dict(json.loads(json.dumps(d)))
    yield "rapidjson", circuit_from_dict(rapidjson.loads(rapidjson.dumps(d)))


def number(c):
    k = c.rng.randrange(6)
    if k == 0:
        return c.rng.choice([0, 1, -1, 7, -3, 10**17, 2**70])
    if k == 1:
        return c.rng.choice([0.1, 1 / 3, -2 / 7, 1e-17, 1e22, 123456789.123456789, -0.0, 5e-324, 1.7976931348623157e308, np.pi, 2.0])
    if k == 2:
        return c.rng.choice([np.float64(0.1), np.float64(1 / 3), np.int64(5), np.float64(1e-7)])
    if k == 3:
        return c.rng.choice([sympy.pi, sympy.Rational(1, 3), sympy.sqrt(2), sympy.Float(0.7), sympy.Integer(4), sympy.E, -sympy.pi / 7])
    return c.rng.uniform(-10, 10)


def param(c, syms, p=0.6):
    if syms and c.rng.random() < p:
        k = c.rng.randrange(6)
        if k == 0:
            return sympy.Symbol(c.rng.choice([str(s) for s in syms]))
        if k == 1:
            a, b = c.rng.choice(syms), c.rng.choice(syms)
            return c.rng.choice([a * b, a - b, a / (b + 2), sympy.sin(a) * b, a**b, -a, sympy.exp(a) + b, a + number(c) if False else a + 0.1 * b,
                                 sympy.cos(a * b) ** 2, sympy.Rational(2, 3) * a, a * sympy.pi, sympy.sqrt(a), sympy.Abs(a - b) + 1,
                                 1.2345678912345e-5 * a, a * 3e10 - b / 7.0])
        return expr(c.rng, syms)
    return number(c)


def gate(c, syms, names, defs):
    r = c.rng.random()
    if r < 0.3:
        g = c.rng.choice(defs)
        g = g(*[param(c, syms) for _ in g.params_ordering])
    else:
        nm = c.rng.choice(ALL_BUILTIN)
        g = builtin(nm, [param(c, syms) for _ in range(nparams(nm))])
    for _ in range(c.rng.choice([0, 0, 0, 1, 1, 2, 3])):
        k = c.rng.randrange(2 if g.free_symbols else 4)
        if k == 0:
            g = g.dagger if c.rng.random() < 0.7 else Dagger(g)
        elif k == 1:
            g = g.controlled(c.rng.randint(1, 3)) if c.rng.random() < 0.7 else ControlledGate(g, c.rng.randint(1, 2))
        elif k == 2:
            e = c.rng.choice([2, -1, 0, 3, 0.5, 0.25, 1 / 3, -0.1, -2.0])
            g = g.power(e) if c.rng.random() < 0.7 else Power(g, e)
        else:
            g = g.exp if c.rng.random() < 0.7 else Exponential(g)
    return g


def definitions(c, syms):
    a, b = c.rng.sample([sympy.Symbol(s) for s in PLAIN], 2)
    nm = ["U", "V", "X", "Custom", "RX", "Control", "Dagger", "Exponential", "a^b", "my gate", "np", "Callable", "U3", "gateDagger", "SX", "W^2"]
    c.rng.shuffle(nm)
    u = random_unitary(c.np, 2)
    return [
        CustomGateDefinition(nm[0], sympy.Matrix([[sympy.cos(a), -sympy.sin(a) * sympy.exp(-sympy.I * b)],
                                                  [sympy.sin(a) * sympy.exp(sympy.I * b), sympy.cos(a)]]), c.rng.choice([(a, b), (b, a)])),
        CustomGateDefinition(nm[1], sympy.Matrix(u.tolist()), ()),
        CustomGateDefinition(nm[2], sympy.diag(1, sympy.exp(sympy.I * a * 0.5), sympy.sqrt(2) / 2 + b, sympy.Rational(1, 3)), (a, b)),
        CustomGateDefinition(nm[3], sympy.Matrix([[1, 0], [0, -1.0j]]), ()),
    ]


def has_wrapped(g):
    while hasattr(g, "wrapped_gate"):
        g = g.wrapped_gate
    return g


def circuit(c, names=None, m=None):
    names = names or c.rng.sample(PLAIN, 3)
    syms = [sympy.Symbol(s) for s in names] if c.rng.random() < 0.8 else []
    defs = definitions(c, syms)
    ops = []
    for _ in range(c.rng.randint(0, 5) if m is None else m):
        g = gate(c, syms, names, defs)
        n = g.num_qubits + c.rng.randint(0, 3)
        ops.append(g(*c.rng.sample(range(n), g.num_qubits)))
    w = None
    if c.rng.random() < 0.5:
        w = max([max(o.qubit_indices) + 1 for o in ops] or [0]) + c.rng.randint(0, 3)
    return Circuit(ops, n_qubits=w)


@contract("C05", n=700)
def circuits_round_trip(c):
    circ = circuit(c)
    c.note(circ=str(circ), n=circ.n_qubits)
    for nm, got in trips(circ):
        same_circuit(c, got, circ, nm)


@contract("C05", n=250)
def symbol_names(c):
    """every symbol name denotes itself, whatever sympy thinks of the name"""
    names = c.rng.sample(NAMES, c.rng.randint(1, 3))
    syms = [sympy.Symbol(s) for s in names]
    e = c.rng.choice([syms[0], 2 * syms[0] + syms[-1], syms[0] * syms[-1] - 0.5, sympy.sin(syms[0]) + syms[-1] ** 2, sympy.gamma(syms[0]),
                      syms[0] / 3, sum(syms)])
    c.note(e=str(e), names=names)
    got = deserialize_expr(json.loads(json.dumps(serialize_expr(e))), [str(s) for s in e.free_symbols])
    same_number(c, got, e, "expression")
    g = c.rng.choice([oc.RX(e), oc.RX(e).controlled(1), oc.MS(syms[-1], e), oc.U3(syms[0], 1.5, e).dagger])
    circ = Circuit([g(*range(g.num_qubits))])
    for nm, got in trips(circ):
        same_circuit(c, got, circ, nm)


@contract("C05", enum=lambda t: [(n, k) for n in sorted(CONSTANTS) for k in range(3)])
def constants_and_symbols_of_the_same_name(c):
    n, k = c.case
    const = {"E": sympy.E, "I": sympy.I, "pi": sympy.pi}[n]
    e = [sympy.Symbol(n) + const, sympy.Symbol(n) * const, sympy.Symbol(n) * 2 - const][k]
    c.note(e=sympy.srepr(e))
    c.klass = "symbol-named-like-constant"
    circ = Circuit([oc.RX(e)(0)])
    for nm, got in trips(circ):
        same_circuit(c, got, circ, nm)


@contract("C05", enum=lambda t: ["real", "positive", "integer"])
def symbols_with_assumptions(c):
    s = sympy.Symbol("theta", **{c.case: True})
    c.note(s=sympy.srepr(s))
    c.klass = "symbol-assumptions"
    circ = Circuit([oc.RX(s)(0)])
    for nm, got in trips(circ):
        same_circuit(c, got, circ, nm)


@contract("C05", n=150)
def matrices_preserved(c):
    """same matrix for every assignment of the symbols (sampled assignments, matrices recomputed independently of ==)"""
    syms = [sympy.Symbol(s) for s in c.rng.sample(PLAIN, 2)]
    defs = definitions(c, syms)
    g = gate(c, syms, None, defs)
    if g.num_qubits > 4:
        c.skip()
    has_exp = False
    h = g
    while hasattr(h, "wrapped_gate"):
        has_exp |= isinstance(h, (Exponential, Power))
        h = h.wrapped_gate
    if has_exp:
        c.skip()
    circ = Circuit([g(*c.rng.sample(range(g.num_qubits), g.num_qubits))])
    c.note(circ=str(circ))
    got = circuit_from_dict(json.loads(json.dumps(to_dict(circ)))).operations[0].gate
    c.eq(sorted(map(str, got.free_symbols)), sorted(map(str, g.free_symbols)))
    sub = {s: c.rng.uniform(0.2, 2) for s in g.free_symbols}

    def m(x):
        return c.limited(15, lambda: np.array(sympy.Matrix(x.matrix).subs(sub).evalf(20).tolist(), dtype=complex))

    if any(abs(complex(sympy.sympify(p).subs(sub).evalf())) > 1e6 for p in g.params):
        c.skip()
    c.close(m(got), m(g), "matrix", tol=1e-10)


@contract("C05", n=120)
def files_and_sets(c):
    circs = [circuit(c) for _ in range(c.rng.randint(0, 3))]
    c.note(circs=[str(x) for x in circs])
    for nm, s in (("dict", circuitset_from_dict(to_dict(circs))), ("json", circuitset_from_dict(json.loads(json.dumps(to_dict(circs)))))):
        c.eq(len(s), len(circs), nm)
        for a, b in zip(s, circs):
            same_circuit(c, a, b, nm)
    d = tempfile.mkdtemp(prefix="vc05")
    try:
        for mk in (str, pathlib.Path):
            p = mk(os.path.join(d, "set.json"))
            save_circuitset(circs, p)
            s = load_circuitset(p)
            c.eq(len(s), len(circs), "file")
            for a, b in zip(s, circs):
                same_circuit(c, a, b, "file")
        one = circuit(c)
        c.note(one=str(one))
        p = os.path.join(d, "one.json")
        save_circuit(one, p)
        same_circuit(c, load_circuit(p), one, "file")
        with open(p) as f:
            same_circuit(c, load_circuit(f), one, "open file")
        buf = io.StringIO()
        save_circuit(one, buf)
        buf.seek(0)
        same_circuit(c, load_circuit(buf), one, "buffer")
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contract("C05", n=120)
def gate_definitions(c):
    for d in definitions(c, []):
        c.note(d=str(d.matrix))
        got = custom_gate_def_from_dict(json.loads(json.dumps(to_dict(d))))
        same_definition(c, got, d, "definition")
        c.require(got == d, "definition compares equal")


@contract("C05", n=60)
def name_clashes(c):
    """built-in and custom gates sharing a name in one circuit; conflicting definitions are refused"""
    nm = c.rng.choice(["X", "RX", "T", "CNOT", "U3", "make_parametric_gate_prototype", "np", "Control", "Dagger", "Power^"])
    th = sympy.Symbol("theta")
    d = CustomGateDefinition(nm, sympy.Matrix([[sympy.exp(sympy.I * th), 0], [0, 1]]), (th,))
    ops = [d(0.3)(0), oc.X(0), d(th).dagger(1), oc.RX(th)(1), d(2).controlled(2)(0, 1, 2), oc.CNOT(1, 0)]
    c.rng.shuffle(ops)
    circ = Circuit(ops[: c.rng.randint(1, 6)])
    c.note(circ=str(circ), name=nm)
    for k, got in trips(circ):
        same_circuit(c, got, circ, k)
    e = CustomGateDefinition(nm, sympy.Matrix([[1, 0], [0, sympy.exp(sympy.I * th)]]), (th,))
    bad = Circuit([d(0.3)(0), c.rng.choice([e(0.3), e(0.1).dagger])(1)])
    c.raises(ValueError, lambda: to_dict(bad), "two definitions of one name")


@contract("C05", n=40)
def numpy_indices(c):
    n = c.rng.randint(2, 6)
    ops = [GateOperation(oc.CNOT, tuple(np.array(c.rng.sample(range(n), 2)))) for _ in range(3)]
    circ = Circuit(ops, n_qubits=c.rng.choice([None, np.int64(n)]))
    c.note(circ=str(circ))
    for nm, got in trips(circ):
        same_circuit(c, got, circ, nm)


@contract("C05", n=12)
def many(c):
    """many definitions with similar names, many parameters and symbols, many operations, many circuits, large exponents and registers"""
    th = sympy.symbols("theta:20")
    k = c.rng.randint(4, 9)
    stem = c.rng.choice(["gate", "Gate", "U", "G1"])
    names = [stem, stem.upper(), stem.lower(), stem + "A", stem + "a", stem + "Ab", stem + "_", "a" + stem]
    names = sorted(set(names)) + [f"{stem}{i}" for i in range(20)]
    c.rng.shuffle(names)
    names = list(dict.fromkeys(names))
    defs = []
    for i, nm in enumerate(names):
        ps = th[:k] if i % 3 == 0 else th[: c.rng.randint(0, 3)]
        ang = sum((j + 1) * p for j, p in enumerate(ps)) + i
        defs.append(CustomGateDefinition(nm, sympy.Matrix([[1, 0], [0, sympy.exp(sympy.I * ang)]]), ps))
    syms = [sympy.Symbol(f"x[{i}]" if i % 2 else f"s{i}") for i in range(30)]
    ops = []
    for d in defs:
        g = d(*[c.rng.choice([c.rng.choice(syms), c.rng.uniform(-3, 3)]) for _ in d.params_ordering])
        if not g.free_symbols and c.rng.random() < 0.4:
            g = g.power(c.rng.choice([1e4, 2500.5, -1e6, 1024, 123456789]))
        ops.append((g if c.rng.random() < 0.7 else Dagger(g))(c.rng.randrange(40)))
    ops += [oc.RX(c.rng.choice(syms))(c.rng.randrange(40)) for _ in range(c.rng.randint(40, 80))]
    ops.append(oc.RZ(sum((i + 1) * s for i, s in enumerate(syms)))(3))
    ops.append(oc.X.controlled(30)(*range(31)))
    c.rng.shuffle(ops)
    circ = Circuit(ops, n_qubits=c.rng.choice([None, 64, 1000]))
    c.note(n=circ.n_qubits, ops=len(ops), names=names)
    for nm, got in trips(circ):
        same_circuit(c, got, circ, nm)
    # the definition only the first / only the last operation uses
    few = [oc.X(0)] * c.rng.randint(50, 70)
    for at in (0, len(few), c.rng.randint(0, len(few))):
        d = defs[c.rng.randrange(len(defs))]
        o = list(few)
        o.insert(at, d(*[0.5] * len(d.params_ordering))(1))
        same_circuit(c, circuit_from_dict(json.loads(json.dumps(to_dict(Circuit(o))))), Circuit(o), "one custom gate")
    cs = [Circuit([oc.RX(0.01 * i)(i % 7)]) for i in range(c.rng.randint(101, 140))]
    got = circuitset_from_dict(json.loads(json.dumps(to_dict(cs))))
    c.eq(len(got), len(cs), "number of circuits")
    for a, b in zip(got, cs):
        same_circuit(c, a, b, "circuit set")

import itertools
import math

import numpy as np
import sympy

from orquestra.quantum.circuits import CNOT, Circuit, CustomGateDefinition, MultiPhaseOperation, RX, RY, RZ, ResetOperation, U3, X, Z
from orquestra.quantum.circuits import _gates as og
from orquestra.quantum.decompositions import U3GateToRotation, decompose_operations, decompose_orquestra_circuit

from ..orc import angle, circuit_matrix, embed, gate_repr, num, ops_repr, random_ops
from ..rtcore import contract

RULES = [U3GateToRotation()]


def rz(a):
    return np.diag([np.exp(-0.5j * a), np.exp(0.5j * a)])


def ry(a):
    return np.array([[math.cos(a / 2), -math.sin(a / 2)], [math.sin(a / 2), math.cos(a / 2)]], dtype=complex)


def control(u, k):
    m = np.eye(2 ** (k + 1), dtype=complex)
    m[-2:, -2:] = u
    return m


def u3(t, p, l):
    return np.exp(0.5j * (p + l)) * rz(p) @ ry(t) @ rz(l)


def same_up_to_phase(a, b, tol=1e-7):
    i = np.unravel_index(np.argmax(np.abs(b)), b.shape)
    if abs(b[i]) < 1e-9:
        return np.allclose(a, b, atol=tol)
    ph = a[i] / b[i]
    return abs(abs(ph) - 1) < tol and np.allclose(a, ph * b, atol=tol)


def u3_angles(c):
    pick = lambda: c.rng.choice([0, math.pi, -math.pi / 2, 0.3, c.rng.uniform(-7, 7), c.rng.uniform(-7, 7), 2, 4 * math.pi, 50.5, sympy.pi / 3, sympy.Rational(1, 7)])
    return pick(), pick(), pick()


@contract("C18", n=250)
def plain_u3_circuits(c):
    n = c.rng.randint(1, 4)
    ops = random_ops(c.rng, c.np, n, c.rng.randint(0, 4), syms=None)
    ops = [o for o in ops if "U3" not in gate_repr(o.gate)]
    for _ in range(c.rng.randint(0, 3)):
        ops.insert(c.rng.randint(0, len(ops)), U3(*u3_angles(c))(c.rng.randrange(n)))
    circ = Circuit(ops, n_qubits=n + c.rng.choice([0, 0, 1]))
    c.note(ops=ops_repr(ops))
    d = decompose_orquestra_circuit(circ, RULES)
    c.eq(circ.operations, ops, "the input circuit changed")
    c.eq(d.n_qubits, circ.n_qubits, "register width")
    c.require(same_up_to_phase(circuit_matrix(d.operations, n), circuit_matrix(ops, n)), "decomposition changes the action")
    c.require(not any(getattr(o.gate, "name", None) == "U3" for o in d.operations), "general rotation left in place")
    kept = [o for o in ops if o.gate.name != "U3"]
    it = iter(d.operations)
    c.require(all(any(o == x for x in it) for o in kept), "other operations not kept in order")


@contract("C18", n=250)
def controlled_u3(c):
    k = c.rng.randint(1, 3)
    n = k + 1 + c.rng.choice([0, 0, 1])
    t, p, l = u3_angles(c)
    if c.rng.random() < 0.5:
        l = -p + c.rng.choice([0, 0, 4 * math.pi, -8 * math.pi])
    q = c.rng.sample(range(n), k + 1)
    g = U3(t, p, l).controlled(k)
    before = random_ops(c.rng, c.np, n, c.rng.randint(0, 2), wrappers=False)
    before = [o for o in before if "U3" not in gate_repr(o.gate)]
    circ = Circuit(before + [g(*q), RX(0.3)(q[-1])], n_qubits=n)
    c.note(theta=t, phi=p, lam=l, controls=k, qubits=q)
    d = decompose_orquestra_circuit(circ, RULES)
    c.eq(d.n_qubits, n, "register width")
    got = circuit_matrix(d.operations, n)
    pre = circuit_matrix(before, n)
    post = embed(num(RX(0.3).matrix), [q[-1]], n)
    full = post @ embed(control(u3(float(t), float(p), float(l)), k), q, n) @ pre
    if same_up_to_phase(got, full):
        return
    asknown = post @ embed(control(rz(float(p)) @ ry(float(t)) @ rz(float(l)), k), q, n) @ pre
    half = (float(p) + float(l)) / 2
    if np.allclose(got, asknown, atol=1e-7) and abs(np.exp(1j * half) - 1) > 1e-9:
        c.klass = "controlled-u3-relative-phase"
    c.require(False, "decomposition of a controlled U3 changes the action")


@contract("C18", n=60)
def symbolic_u3(c):
    s = sympy.symbols("a b g")
    n = 2
    g = U3(s[0] + 1, 2 * s[1], s[2])
    q = c.rng.randrange(2)
    circ = Circuit([X(0), g(q), CNOT(1, 0)])
    d = decompose_orquestra_circuit(circ, RULES)
    v = {x: c.rng.uniform(-5, 5) for x in s}
    c.note(q=q, values=list(v.values()))
    c.require(same_up_to_phase(circuit_matrix(d.bind(v).operations, n), circuit_matrix(circ.bind(v).operations, n)), "symbolic decomposition")
    c.eq(set(d.free_symbols), set(circ.free_symbols), "free symbols")


def untouched_cases(tier):
    u = U3(0.1, 0.2, 0.3)
    a, b, g = sympy.symbols("a b g")
    named = CustomGateDefinition("U3", sympy.Matrix([[0, 1], [1, 0]]), ())
    named3 = CustomGateDefinition("U3", sympy.Matrix([[1, 0], [0, sympy.exp(sympy.I * (a + b + g))]]), (a, b, g))
    return ["dagger", "power", "exp", "controlled dagger", "nested control", "multiphase", "reset", "custom", "custom controlled", "custom 3", "custom 3 controlled", "RY", "controlled RZ"]


@contract("C18", enum=untouched_cases)
def operations_without_a_rule(c):
    u = U3(0.1, 0.2, 0.3)
    a, b, g = sympy.symbols("a b g")
    named = CustomGateDefinition("U3", sympy.Matrix([[0, 1], [1, 0]]), ())()
    named3 = CustomGateDefinition("U3", sympy.Matrix([[1, 0], [0, sympy.exp(sympy.I * (a + b + g))]]), (a, b, g))(0.3, 0.2, 0.4)
    op = {
        "dagger": lambda: u.dagger(1),
        "power": lambda: og.Power(u, 0.5)(1),
        "exp": lambda: u.exp(1),
        "controlled dagger": lambda: og.ControlledGate(u.dagger, 1)(2, 0),
        "nested control": lambda: og.ControlledGate(og.ControlledGate(X, 1), 1)(2, 0, 1),
        "multiphase": lambda: MultiPhaseOperation(tuple(0.1 * i for i in range(8))),
        "reset": lambda: ResetOperation(1),
        "custom": lambda: named(0),
        "custom controlled": lambda: named.controlled(1)(2, 1),
        "custom 3": lambda: named3(0),
        "custom 3 controlled": lambda: named3.controlled(2)(2, 1, 0),
        "RY": lambda: RY(0.4)(1),
        "controlled RZ": lambda: RZ(0.4).controlled(1)(2, 1),
    }[c.case]()
    c.note(kind=c.case)
    circ = Circuit([X(0), op, u(1), op], n_qubits=3)
    d = decompose_orquestra_circuit(circ, RULES)
    ops = d.operations
    c.require(ops[0] == X(0) and ops[1] == op and ops[-1] == op and len(ops) >= 4, "operation without a rule was changed")
    mid = circuit_matrix(ops[2:-1], 3)
    c.require(same_up_to_phase(mid, embed(u3(0.1, 0.2, 0.3), [1], 3)), "U3 between them")
    c.eq(d.n_qubits, 3, "register width")


class Rule:
    """rewrites every 'letter' of a word; a rule's own output is not fed back to it"""

    def __init__(self, table, log=None):
        self.table = table

    def predicate(self, op):
        return op in self.table

    def production(self, op):
        return iter(self.table[op])


@contract("C18", n=500)
def rule_chaining(c):
    """the output of each rule, in order, is the input of the next"""
    al = "abcd"
    rules = [
        Rule({x: [c.rng.choice(al) for _ in range(c.rng.randint(0, 3))] for x in c.rng.sample(al, c.rng.randint(0, 3))})
        for _ in range(c.rng.randint(0, 4))
    ]
    word = [c.rng.choice(al) for _ in range(c.rng.randint(0, 6))]
    c.note(word="".join(word), rules=[{k: "".join(v) for k, v in r.table.items()} for r in rules])
    want = list(word)
    for r in rules:
        want = [y for x in want for y in (r.table[x] if x in r.table else [x])]
    arg = list(word)
    c.eq(list(decompose_operations(c.rng.choice([arg, tuple(arg)]), c.rng.choice([list, tuple])(rules))), want, "chained rules")
    c.eq(arg, word, "argument")
    c.eq(list(decompose_operations(word, [])), word, "empty rule list")


@contract("C18", n=60)
def no_rules(c):
    n = c.rng.randint(1, 3)
    circ = Circuit(random_ops(c.rng, c.np, n, c.rng.randint(0, 4)), n_qubits=n + c.rng.choice([0, 2]))
    c.note(ops=ops_repr(circ.operations))
    d = decompose_orquestra_circuit(circ, [])
    c.eq(d.operations, circ.operations, "operations")
    c.eq(d.n_qubits, circ.n_qubits, "width")
    c.require(d == circ, "circuit with an empty rule list")

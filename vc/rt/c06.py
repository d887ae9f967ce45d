import numpy as np
import sympy

from orquestra.quantum.circuits import Circuit, CustomGateDefinition, MultiPhaseOperation, ResetOperation
from orquestra.quantum.circuits._operations import get_free_symbols, sub_symbols

from ..orc import *
from ..rtcore import contract


def deps(p):
    return {s.name for s in p.free_symbols} if isinstance(p, sympy.Expr) else set()


def numparam(p, sub):
    return cnum(sympy.sympify(p).subs(sub, simultaneous=True)) if isinstance(p, sympy.Basic) else complex(p)


def random_value(c, syms):
    r = c.rng.random()
    if r < 0.6:
        return c.rng.uniform(-3, 3)
    if r < 0.7:
        return c.rng.choice([0, 1, -2, sympy.pi / 3, sympy.Rational(1, 7)])
    return expr(c.rng, syms)


def gate_with_symbols(c, syms):
    r = c.rng.random()
    if r < 0.35:
        d, f, npar, k = custom_param(c.rng)
        ps = [expr(c.rng, syms) if c.rng.random() < 0.7 else angle(c.rng) for _ in range(npar)]
        g = d(*ps)
    else:
        g = random_builtin(c.rng, 2, syms, 0.8, names=list(PARAM1) + list(PARAM2))
    for _ in range(c.rng.choice([0, 0, 1, 2])):
        if c.rng.random() < 0.5:
            g = g.dagger
        elif g.num_qubits < 3:
            g = g.controlled(1)
    return g


@contract("C06", n=250)
def gate_bind_commutes(c):
    own = [sympy.Symbol("a"), sympy.Symbol("b")] if c.rng.random() < 0.3 else []
    syms = symbols(c.rng, 3 - len(own)) + own
    c.rng.shuffle(syms)
    g = gate_with_symbols(c, syms)
    vals = {s: c.rng.uniform(-3, 3) for s in syms}
    extra = {sympy.Symbol("unused"): 0.3} if c.rng.random() < 0.5 else {}
    c.note(gate=gate_repr(g), vals=vals)
    want = num(sympy.Matrix(g.matrix).subs(vals, simultaneous=True))
    # independent: build the innermost gate directly from numeric parameters
    inner, chain = g, []
    while hasattr(inner, "wrapped_gate"):
        chain.append(inner)
        inner = inner.wrapped_gate
    direct = inner.replace_params(tuple(numparam(p, vals).real if deps(p) else p for p in inner.params))
    ref = num(direct.matrix)
    for w in reversed(chain):
        if type(w).__name__ == "Dagger":
            ref = ref.conj().T
        else:
            e = np.eye(2**w.num_qubits, dtype=complex)
            e[-len(ref):, -len(ref):] = ref
            ref = e
    b = g.bind({**vals, **extra})
    c.close(num(b.matrix), ref, "bind then evaluate")
    c.close(want, ref, "evaluate then substitute")
    c.eq(list(b.free_symbols), [], "free symbols after a full binding")
    c.eq(b.num_qubits, g.num_qubits, "num_qubits")
    names = sorted(set().union(*[deps(p) for p in g.params]) if g.params else [])
    c.eq(sorted(s.name for s in g.free_symbols), names, "free symbols of the gate")
    # two partial steps
    part = {s: v for s, v in vals.items() if c.rng.random() < 0.5}
    rest = {s: v for s, v in vals.items() if s not in part}
    g1 = g.bind(part)
    c.eq(sorted(s.name for s in g1.free_symbols), sorted(set(names) - {s.name for s in part}), "free symbols after partial bind")
    g2 = g1.bind(rest)
    c.close(num(g2.matrix), ref, "two partial bindings")
    for p, q in zip(g.params, b.params):
        if not deps(p):
            c.require(p == q and type(p) is type(q), "numeric parameter changed by bind", p=p, q=q)


@contract("C06", n=200)
def bind_to_expressions(c):
    """symbols bound to expressions (possibly over the same symbols): simultaneous substitution of the gate's own params"""
    syms = symbols(c.rng, 3)
    g = gate_with_symbols(c, syms)
    fresh = [sympy.Symbol("u"), sympy.Symbol("v")]
    m = {s: random_value(c, fresh) for s in syms if c.rng.random() < 0.8}
    vals = {s: c.rng.uniform(-2, 2) for s in syms + fresh}
    c.note(gate=gate_repr(g), map=m)
    b = g.bind(m)
    got = num(sympy.Matrix(b.matrix).subs(vals, simultaneous=True))
    full = {s: (numparam(m[s], vals).real if s in m else vals[s]) for s in syms}
    ref = num(g.bind(full).matrix)
    c.close(got, ref, "bind to expressions")
    want = set()
    for p in g.params:
        for s in (p.free_symbols if isinstance(p, sympy.Expr) else ()):
            pass
    pn = set()
    for p in b.params:
        pn |= deps(p)
    c.eq(sorted(s.name for s in b.free_symbols), sorted(pn), "free symbols")


@contract("C06", n=120)
def custom_definition_any_params(c):
    """custom gate instantiated with parameters that mention the definition's own symbols"""
    a, b = sympy.symbols("a b")
    d = CustomGateDefinition("g_ab", sympy.Matrix([[sympy.exp(sympy.I * a), 0], [0, sympy.exp(sympy.I * 2 * b)]]), (a, b))
    pool = [a, b, a + b, b - a, 2 * a, sympy.Symbol("x"), 0.5]
    p, q = c.rng.choice(pool), c.rng.choice(pool)
    g = d(p, q)
    vals = {a: c.rng.uniform(-2, 2), b: c.rng.uniform(-2, 2), sympy.Symbol("x"): c.rng.uniform(-2, 2)}
    c.note(params=(p, q))
    ref = np.diag([np.exp(1j * numparam(p, vals)), np.exp(2j * numparam(q, vals))])
    c.close(num(g.bind(vals).matrix), ref, "bind then evaluate")
    c.close(num(sympy.Matrix(g.matrix).subs(vals, simultaneous=True)), ref, "evaluate then substitute")


@contract("C06", n=150)
def circuit_bind_commutes(c):
    n = c.rng.randint(1, 3)
    syms = symbols(c.rng, 3)
    ops = []
    for _ in range(c.rng.randint(1, 4)):
        g = gate_with_symbols(c, syms)
        if g.num_qubits <= n:
            ops.append(g(*c.rng.sample(range(n), g.num_qubits)))
    if not ops:
        c.skip()
    circ = Circuit(ops, n_qubits=n + c.rng.choice([0, 0, 1]))
    n = circ.n_qubits
    vals = substitution(c.rng, syms)
    c.note(n=n, ops=ops_repr(ops))
    order = []
    for o in ops:
        names = sorted(set().union(*[deps(p) for p in o.params])) if o.params else []
        order += [x for x in names if x not in order]
    c.eq([s.name for s in circ.free_symbols], order, "first-appearance order of free symbols")
    b = circ.bind({**vals, sympy.Symbol("zzz"): 1})
    c.eq(b.n_qubits, n, "width after bind")
    c.eq(len(b.operations), len(ops), "number of operations")
    c.eq(list(b.free_symbols), [], "free symbols after bind")
    c.eq([o.qubit_indices for o in b.operations], [o.qubit_indices for o in ops], "qubits")
    ref = circuit_matrix([o.gate.bind(vals)(*o.qubit_indices) for o in ops], n)
    c.close(num(b.to_unitary()), ref, "bound circuit matrix")
    if n <= 2:
        u = circ.to_unitary()
        u = sympy.Matrix(u.tolist()).subs(vals)
        c.close(num(u), ref, "substituted circuit matrix")
    part = {s: v for s, v in vals.items() if c.rng.random() < 0.5}
    rest = {s: v for s, v in vals.items() if s not in part}
    c.close(num(circ.bind(part).bind(rest).to_unitary()), ref, "two-step bind")
    c.require(circ.bind({}) == circ, "bind of an empty map changes the circuit")


@contract("C06", n=120)
def multiphase_bind(c):
    n = c.rng.randint(1, 3)
    syms = symbols(c.rng, 3)
    ps = tuple(expr(c.rng, syms) if c.rng.random() < 0.5 else angle(c.rng) for _ in range(2**n))
    op = MultiPhaseOperation(ps)
    vals = substitution(c.rng, syms)
    c.note(params=ps)
    c.eq(sorted(s.name for s in op.free_symbols), sorted(set().union(*[deps(p) for p in ps])), "free symbols")
    b = op.bind({**vals, sympy.Symbol("zz"): 3})
    c.require(type(b) is MultiPhaseOperation, "type")
    c.close([cnum(p) for p in b.params], [numparam(p, vals) for p in ps], "bound params")
    part = {s: v for s, v in vals.items() if c.rng.random() < 0.5}
    rest = {s: v for s, v in vals.items() if s not in part}
    c.close([cnum(p) for p in op.bind(part).bind(rest).params], [numparam(p, vals) for p in ps], "two-step bind")
    psi = random_state(c.np, n)
    c.close(vec(b.apply(psi)), np.exp(1j * np.array([numparam(p, vals) for p in ps])) * psi, "apply")
    c.eq(tuple(op.replace_params(tuple(range(2**n))).params), tuple(range(2**n)), "replace_params")


@contract("C06", enum=lambda t: [0])
def reset_bind(c):
    op = ResetOperation(3)
    b = op.bind({sympy.Symbol("x"): 1.0})
    c.require(type(b) is ResetOperation and tuple(b.qubit_indices) == (3,) and tuple(b.params) == (), "reset bind")
    circ = Circuit([builtin("RX", (sympy.Symbol("x"),))(0), op])
    bb = circ.bind({sympy.Symbol("x"): 1.0})
    c.eq(bb.n_qubits, 4, "width")
    c.eq(list(bb.free_symbols), [], "free symbols")


@contract("C06", n=60)
def wrappers_without_bind_refuse(c):
    g = random_builtin(c.rng, 2)
    kind = c.rng.choice(["power", "exp"])
    w = g.power(c.rng.choice([2, 0.5, -1])) if kind == "power" else g.exp
    outer = c.rng.choice(["none", "controlled", "dagger"])
    if outer == "controlled":
        w = w.controlled(1)
    elif outer == "dagger":
        w = w.dagger
    c.note(gate=gate_repr(w))
    c.raises(NotImplementedError, lambda: w.bind({sympy.Symbol("q"): 1.0}), "power/exponential must refuse bind")
    c.eq(list(w.free_symbols), [], "free symbols")


@contract("C06", n=200)
def sub_symbols_contract(c):
    syms = symbols(c.rng, 3)
    p = expr(c.rng, syms) if c.rng.random() < 0.8 else angle(c.rng)
    swap = c.rng.random() < 0.3
    if swap:  # simultaneous substitution: swapping symbols
        m = {syms[0]: syms[1], syms[1]: syms[0]}
    else:
        m = {s: random_value(c, [sympy.Symbol("u"), sympy.Symbol("v")]) for s in syms if c.rng.random() < 0.7}
    vals = {s: c.rng.uniform(-2, 2) for s in syms + [sympy.Symbol("u"), sympy.Symbol("v")]}
    c.note(param=p, map=m)
    got = sub_symbols(p, m)
    full = {s: (numparam(m[s], vals) if s in m else vals[s]) for s in syms}
    ref = numparam(p, full)
    c.close(numparam(got, vals), ref, "sub_symbols")
    c.eq([s.name for s in get_free_symbols((p, 0.5, got))], sorted(deps(p) | deps(got)), "get_free_symbols")


@contract("C06", n=120)
def custom_gates_of_many_parameters(c):
    """up to six parameters, the definition's symbols in any order (not that of their names)"""
    k = c.rng.randint(2, 6)
    own = sympy.symbols("a b c d e f")[:k]
    own = list(own)
    c.rng.shuffle(own)
    d = CustomGateDefinition("many", sympy.diag(*[sympy.exp(sympy.I * (j + 1) * s) for j, s in enumerate(own)], *[1] * (8 - k)), tuple(own))
    syms = [sympy.Symbol(x) for x in ("z", "y", "x", "w", "v", "u", "t")]
    params = [c.rng.choice([c.rng.choice(syms), c.rng.choice(own), c.rng.choice(syms) * 2 + c.rng.choice(syms), 0.25 * j, c.rng.choice(syms) - c.rng.choice(own)]) for j in range(k)]
    g = d(*params)
    c.note(order=own, params=params)
    every = [*syms, *sympy.symbols("a b c d e f")]
    vals = {s: c.rng.uniform(-2, 2) for s in every}
    ref = np.diag([np.exp(1j * (j + 1) * numparam(p, vals)) for j, p in enumerate(params)] + [1] * (8 - k))
    names = sorted(set().union(*[deps(p) for p in params]))
    c.eq([s.name for s in g.free_symbols], names, "free symbols, in the order of their names")
    op = g(2, 0, 1)
    c.eq(sorted(s.name for s in op.free_symbols), names, "free symbols of the operation")
    c.close(num(g.bind(vals).matrix), ref, "bind then evaluate")
    c.close(num(sympy.Matrix(g.matrix).subs(vals, simultaneous=True)), ref, "evaluate then substitute")
    part = {s: v for s, v in vals.items() if c.rng.random() < 0.5}
    rest = {s: v for s, v in vals.items() if s not in part}
    g1 = g.dagger.bind(part)
    c.eq(sorted(s.name for s in g1.free_symbols), sorted(set(names) - {s.name for s in part}), "free symbols after a partial binding")
    c.close(num(g1.bind(rest).matrix), ref.conj().T, "two partial bindings of the adjoint")
    c.eq(len(g.bind(vals).params), k, "number of parameters")
    circ = Circuit([op, d(*reversed(params))(0, 1, 2)])
    order = list(names)
    c.eq([s.name for s in circ.free_symbols], order + [x for x in sorted(set().union(*[deps(p) for p in params])) if x not in order], "free symbols of the circuit")


@contract("C06", n=60)
def parameters_that_look_alike(c):
    """parameters of one gate, or of one circuit, that are different but print the same"""
    x = c.rng.choice(["x", "theta_0"])
    s, r = sympy.Symbol(x), sympy.Symbol(x, **{c.rng.choice(["real", "positive"]): True})
    p, q = [(s, r), (s + r, 2 * s), (sympy.Float(0.1) * s, sympy.Float(0.1 + 1e-16 * 4) * r), (2 * r, 2 * s), (s * r, s**2)][c.rng.randrange(5)]
    vals = {s: c.rng.uniform(-2, 2), r: c.rng.uniform(0.1, 2)}
    c.note(p=sympy.srepr(p), q=sympy.srepr(q), vals=str(vals))
    n = lambda e: float(sympy.sympify(e).subs(vals, simultaneous=True))
    g = builtin("U3", (p, q, c.rng.choice([p, q, s, r])))
    ref = num(builtin("U3", tuple(n(e) for e in g.params)).matrix)
    c.close(num(g.bind(vals).matrix), ref, "bind then evaluate")
    c.close(num(sympy.Matrix(g.matrix).subs(vals, simultaneous=True)), ref, "evaluate then substitute")
    c.eq(set(g.free_symbols), {s, r}, "free symbols")
    b = Circuit([builtin("RX", (p,))(0), builtin("RX", (q,))(1), builtin("MS", (p, q))(0, 1)]).bind(vals)
    w = [builtin("RX", (n(p),))(0), builtin("RX", (n(q),))(1), builtin("MS", (n(p), n(q)))(0, 1)]
    c.close(num(b.to_unitary()), circuit_matrix(w, 2), "bound circuit")
    m = MultiPhaseOperation((p, q))
    c.close([cnum(a) for a in m.bind(vals).params], [n(p), n(q)], "multiphase")

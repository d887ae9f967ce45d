import warnings

import numpy as np
import sympy

from orquestra.quantum.circuits import (
    Circuit,
    GateOperation,
    add_ancilla_register,
    apply_gate_to_qubits,
    create_layer_of_gates,
)

from ..orc import *
from ..rtcore import contract


@contract("C08", n=150)
def inverse(c):
    n = c.rng.randint(1, 4)
    ops = random_ops(c.rng, c.np, n, c.rng.randint(0, 5))
    circ = Circuit(ops, n_qubits=n if c.rng.random() < 0.7 or not ops else None)
    n = circ.n_qubits
    c.note(n=n, ops=ops_repr(ops))
    U = circuit_matrix(ops, n)
    inv = circ.inverse()
    c.eq(inv.n_qubits, n, "width of the inverse")
    c.close(circuit_matrix(inv.operations, n), U.conj().T, "inverse is the conjugate transpose")
    c.close(num((circ + inv).to_unitary()), np.eye(2**n), "circuit + inverse is the identity")
    back = inv.inverse()
    c.eq(back.n_qubits, n, "width of the double inverse")
    c.close(circuit_matrix(back.operations, n), U, "double inverse")


@contract("C08", enum=lambda t: ["X", "Y", "Z", "CNOT", "SWAP", "H"])
def inverse_with_fractional_powers(c):
    g = builtin(c.case).power(0.5)
    n = g.num_qubits
    c.note(gate=gate_repr(g))
    circ = Circuit([g(*range(n))])
    got, want = num(circ.inverse().to_unitary()), num(circ.to_unitary()).conj().T
    if not np.allclose(got, want) and np.allclose(got, num(builtin(c.case).dagger.matrix**0.5)):
        c.klass = "fractional-power-dagger"
    c.close(got, want, "inverse of a fractional power", tol=1e-6)


@contract("C08", n=150)
def symbolic_inverse(c):
    n = c.rng.randint(1, 3)
    syms = symbols(c.rng, 2)
    ops = random_ops(c.rng, c.np, n, c.rng.randint(1, 3), syms=syms, psym=0.8)
    sub = substitution(c.rng, syms)
    circ = Circuit(ops, n_qubits=n)
    c.note(n=n, ops=ops_repr(ops))

    def mat(ci):
        m = np.eye(2**n, dtype=complex)
        for o in ci.operations:
            m = embed(num(sympy.Matrix(o.gate.matrix).subs(sub)), o.qubit_indices, n) @ m
        return m

    c.close(mat(circ.inverse()), mat(circ).conj().T, "symbolic inverse")


@contract("C08", n=250)
def controlled(c):
    n = c.rng.randint(1, 4)
    ops = random_ops(c.rng, c.np, n, c.rng.randint(0, 4), maxk=2)
    explicit = c.rng.random() < 0.6 or not ops
    circ = Circuit(ops, n_qubits=n) if explicit else Circuit(ops)
    n = circ.n_qubits
    k = c.rng.randint(0, n)
    c.note(n=n, k=k, ops=ops_repr(ops))
    cc = circ.controlled(k)
    c.eq(cc.n_qubits, n + 1, "width of the controlled circuit")
    U = circuit_matrix(ops, n)
    got = circuit_matrix(cc.operations, n + 1)
    c.close(num(cc.to_unitary()), got, "to_unitary of the controlled circuit")
    # reference: control is qubit k, original qubit q sits at q + (q >= k)
    order = [k] + [q + (q >= k) for q in range(n)]
    big = np.eye(2 ** (n + 1), dtype=complex)
    big[2**n :, 2**n :] = U
    c.close(got, embed(big, order, n + 1), "controlled circuit")


@contract("C08", enum=lambda t: [5, 7])
def controlled_beyond_register(c):
    """control index above the register: original action on the lower qubits, idle qubits between"""
    k = c.case
    circ = Circuit([builtin("X")(0), builtin("RY", (0.3,))(1)])
    cc = circ.controlled(k)
    c.note(k=k)
    c.eq(cc.n_qubits, k + 1, "width")
    U = circuit_matrix(circ.operations, 2)
    big = np.eye(8, dtype=complex)
    big[4:, 4:] = U
    c.close(circuit_matrix(cc.operations, k + 1), embed(big, [k, 0, 1], k + 1), "controlled")


@contract("C08", n=120)
def layers(c):
    n = c.rng.randint(1, 12)
    name = c.rng.choice(["X", "H", "T", "RX", "U3", "PHASE", "RH", "cust"])
    if name == "cust":
        d, f, npar, k = custom_param(c.rng)
        while k != 1:
            d, f, npar, k = custom_param(c.rng)
        fac = lambda *p: d(*p)
    else:
        npar = nparams(name)
        fac = builtin(name) if not npar else (lambda *p: builtin(name, p))
    rows = [[c.rng.uniform(-3, 3) for _ in range(npar)] for _ in range(n)] if npar else None
    as_np = c.rng.random() < 0.5 and rows is not None
    c.note(n=n, gate=name, rows=rows)
    circ = create_layer_of_gates(n, fac, np.array(rows) if as_np else rows)
    c.eq(circ.n_qubits, n, "width")
    c.eq(len(circ.operations), n, "number of gates")
    by = {tuple(o.qubit_indices): o for o in circ.operations}
    c.eq(sorted(by), [(i,) for i in range(n)], "one gate per qubit")
    for i in range(n):
        want = fac(*rows[i]) if npar else fac
        c.eq(by[(i,)].gate.name, want.name, "gate kind")
        c.eq([float(p) for p in by[(i,)].gate.params], [float(p) for p in want.params], f"row {i} on qubit {i}")


@contract("C08", n=200)
def apply_to_qubits(c):
    n = c.rng.randint(1, 6)
    ops = random_ops(c.rng, c.np, n, c.rng.randint(0, 3))
    base = Circuit(ops, n_qubits=n)
    pool = list(range(c.rng.choice([n, 9, 40])))
    listed = c.rng.sample(pool, c.rng.randint(1, min(6, len(pool))))
    distinct = list(dict.fromkeys(listed))
    if c.rng.random() < 0.4:
        listed = listed + [c.rng.choice(listed) for _ in range(2)]
        c.rng.shuffle(listed)
    container = c.rng.choice([list, tuple, list])
    name = c.rng.choice(["X", "T", "RX", "U3"])
    npar = nparams(name)
    fac = builtin(name) if not npar else (lambda *p: builtin(name, p))
    rows = [[c.rng.uniform(-3, 3) for _ in range(npar)] for _ in distinct] if npar else None
    c.note(n=n, ops=ops_repr(ops), listed=listed, gate=name, rows=rows)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = apply_gate_to_qubits(base, container(listed), fac, rows)
    c.require(list(base.operations) == ops and base.n_qubits == n, "existing circuit modified")
    c.require(list(out.operations[: len(ops)]) == ops, "existing operations not left in place")
    new = out.operations[len(ops) :]
    c.eq(sorted(tuple(o.qubit_indices) for o in new), sorted((q,) for q in distinct), "one gate per distinct qubit")
    c.eq(out.n_qubits, max(n, max(distinct) + 1), "width")
    if npar:
        c.eq(sorted(tuple(map(float, o.gate.params)) for o in new), sorted(map(tuple, rows)), "each parameter row used once")
    c.require(all(o.gate.name == name for o in new), "gate kind")


@contract("C08", n=100)
def ancillas(c):
    n = c.rng.randint(1, 3)
    ops = random_ops(c.rng, c.np, n, c.rng.randint(0, 3))
    circ = Circuit(ops, n_qubits=n)
    a = c.rng.randint(0, 3)
    c.note(n=n, a=a, ops=ops_repr(ops))
    out = add_ancilla_register(circ, a)
    c.eq(out.n_qubits, n + a, "width")
    c.require(circ.n_qubits == n and list(circ.operations) == ops, "input modified")
    c.close(circuit_matrix(out.operations, n + a), np.kron(circuit_matrix(ops, n), np.eye(2**a)), "action")

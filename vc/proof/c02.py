"""C02: built-in gates, for all real parameter values.

Parameters are unknown reals; matrices are computed by the repository's own factories over exact functions of them
(vc/pyvc/alg.py), so every identity below is decided for all parameter values at once."""
import inspect

from vc.pyvc.driver import *
from vc.pyvc import alg
from vc.pyvc.alg import Alg, AMat, F
from orquestra.quantum.circuits import _builtin_gates as bg, _gates

i = Alg.cis_pi(F(1, 2))
h2 = Alg.sqrt2() * F(1, 2)
FIXED = ["X", "Y", "Z", "H", "I", "S", "SX", "T", "CNOT", "CZ", "SWAP", "ISWAP"]
ADDITIVE = ["RX", "RY", "RZ", "RH", "PHASE", "CPHASE", "XX", "YY", "ZZ", "XY"]
PARAMS = dict(RX=1, RY=1, RZ=1, RH=1, PHASE=1, U3=3, GPi=1, GPi2=1, CPHASE=1, XX=1, YY=1, ZZ=1, XY=1, MS=2, Delay=1)
QUBITS = dict(CNOT=2, CZ=2, SWAP=2, ISWAP=2, CPHASE=2, XX=2, YY=2, ZZ=2, XY=2, MS=2)


def M(rows):
    return AMat.of(rows)


TEXTBOOK = dict(
    X=[[0, 1], [1, 0]], Y=[[0, -i], [i, 0]], Z=[[1, 0], [0, -1]], H=[[h2, h2], [h2, -h2]], I=[[1, 0], [0, 1]],
    CNOT=[[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]],
    CZ=[[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, -1]],
    SWAP=[[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]],
)


def matrix(cx, name, *params):
    g = getattr(bg, name)
    g = cx.call(g, *params) if params else g
    m = cx.get(g, "matrix")
    if not isinstance(m, AMat):
        raise Unsupported(f"{name}: matrix is a {type(m).__name__}")
    return g, m


def unitary(cx, m, label):
    cx.prove(m @ m.adjoint() == AMat(alg.eye(m.rows)), label)


def gate_ob(name):
    def ob(cx):
        alg.install(cx.I)
        ps = [Alg.var(f"p{k}") for k in range(OFFERED.get(name, PARAMS.get(name, 0)))]
        g, m = matrix(cx, name, *ps)
        n = cx.get(g, "num_qubits")
        if name in PARAMS or name in FIXED:
            cx.prove(n == QUBITS.get(name, 1), "declared number of qubits")
        cx.prove(m.shape == (2**n, 2**n), "square of dimension 2^n")
        unitary(cx, m, "unitary for all parameters")
        if cx.I.truth(cx.get(g, "is_hermitian")):
            cx.prove(m == m.adjoint(), "flagged self-adjoint and is")
        d = cx.get(g, "dagger")
        cx.prove(cx.get(d, "matrix") == m.adjoint(), "dagger is the adjoint")
        if name in ADDITIVE:
            _, m2 = matrix(cx, name, Alg.var("q"))
            _, m3 = matrix(cx, name, ps[0] + Alg.var("q"))
            cx.prove(m2 @ m == m3, "angles add")
            _, m0 = matrix(cx, name, 0)
            cx.prove(m0 == AMat(alg.eye(m.rows)), "angle 0 is the identity")
        if name in TEXTBOOK:
            cx.prove(m == M(TEXTBOOK[name]), "textbook matrix")
        if name == "Delay":
            cx.prove(m == AMat(alg.eye(2)), "the delay gate is the identity")

    ob.__doc__ = f"{name}: dimension, unitarity, hermiticity flag" + (", additivity" if name in ADDITIVE else "") + ", for every real parameter value"
    obligation("C02", name="gate_" + name)(ob)


def _offered():
    """every gate the module offers: gate objects and gate prototypes (with the parameter count of the matrix factory)"""
    out = {}
    for n, v in vars(bg).items():
        if isinstance(v, _gates.Gate):
            out[n] = 0
        elif inspect.isfunction(v) and n not in ("make_parametric_gate_prototype", "builtin_gate_by_name") and not n.startswith("_"):
            fs = [c.cell_contents for c in v.__closure__ or () if inspect.isfunction(c.cell_contents)]
            out[n] = PARAMS.get(n) or (len(inspect.signature(fs[0]).parameters) if len(fs) == 1 else 1)
    return out


OFFERED = _offered()
for _n in sorted(set(OFFERED) | set(FIXED) | set(PARAMS)):
    gate_ob(_n)


@obligation("C02")
def defining_relations(cx):
    """S*S=Z, T*T=S, SX*SX=X, H*Z*H=X, ISWAP and SWAP agree up to the phase i on the exchanged states"""
    alg.install(cx.I)
    m = {n: matrix(cx, n)[1] for n in FIXED}
    cx.prove(m["S"] @ m["S"] == m["Z"], "S*S = Z")
    cx.prove(m["T"] @ m["T"] == m["S"], "T*T = S")
    cx.prove(m["SX"] @ m["SX"] == m["X"], "SX*SX = X")
    cx.prove(m["H"] @ m["Z"] @ m["H"] == m["X"], "H*Z*H = X")
    cx.prove(m["X"] @ m["Y"] == m["Z"] * i, "X*Y = iZ")
    ctl = lambda u: AMat(alg.block_diag(alg.eye(2), u.a))
    cx.prove(m["CNOT"] == ctl(m["X"]), "CNOT is the controlled X")
    cx.prove(m["CZ"] == ctl(m["Z"]), "CZ is the controlled Z")
    t = Alg.var("t")
    cx.prove(matrix(cx, "CPHASE", t)[1] == ctl(matrix(cx, "PHASE", t)[1]), "CPHASE is the controlled PHASE")

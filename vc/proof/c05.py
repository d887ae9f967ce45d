"""C05: circuits survive JSON serialisation.

Structural induction over gates: a gate that is wrapped by another one is unknown, known only through the induction hypothesis that
its dictionary, passed through JSON, becomes that gate again.  Texts of parameters are known through the contract of
serialize_expr / deserialize_expr: the text of an expression, read with names that contain all its free symbols, is that expression."""
import json

import rapidjson
import sympy

from vc.pyvc.driver import *
from vc.pyvc.driver import V, z3
from vc.pyvc import shims
from vc.pyvc.lin import Meth
from vc.proof.c17 import disk, document
from orquestra.quantum.circuits import _builtin_gates, _circuit, _gates, _operations, _serde

TRUSTED = ["sympy/str: deserialize_expr(serialize_expr(e), names) is e when names are the names of (at least) the free symbols of e (checked by the runtime contracts)",
           "sympy: Symbol(str(s)) is s for symbols without assumptions; Matrix(rows) holds the rows",
           "json: load of a file holding dumps(x) alone is x with tuples as lists, for dictionaries of texts, lists and numbers (floats exactly)"]
ASSUMPTIONS = ["symbols are declared without assumptions, and not named like a constant that occurs in the same expression (known findings)",
               "the symbols in the matrix of a custom gate are the symbols of its params_ordering"]
Zi, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()

_LITERALS = {}


def _valid(c):
    return c if isinstance(c, bool) else core.cur.valid(c)


class Nm(Abs):
    """an unknown name; literal texts are some of the names"""

    def __pyvc_literal__(self, lit):
        return self.key[0] == -1 - _LITERALS.setdefault(lit, len(_LITERALS))

    def __pyvc_key__(self):
        return self.key[0]


def text(x):
    return SStr([("str", x)])


def name(t):
    return text(Nm(t))


class Opaque(Abs):
    kinds = ()

    def __pyvc_isinstance__(self, I, cls):
        return any(issubclass(k, cls) for k in self.kinds)

    def __pyvc_class__(self, I):
        return self.kinds[0] if self.kinds else type(self)


class Sy(Opaque):
    """a symbol"""

    kinds = (sympy.Symbol,)

    def __pyvc_str__(self, I):
        return name(SYN(self.key[0]))


class Ex(Opaque):
    """a parameter or matrix element; its text is opaque"""

    kinds = (sympy.Expr,)


SYN = z3.Function("name of symbol", Zi, Zi)
FS, SFS = z3.Function("symbol", Zi, Zi), z3.Function("sorted symbol", Zi, Zi)


class Symbols:
    """the free symbols of some expressions: NF of them, their names sorted by SFS"""

    def __init__(self, cx, nf="nf"):
        self.n = cx.int(nf, 0)
        v = V.index_var("y")
        self.segs = (Fam(toint(self.n), v, Sy(FS(v))),)
        self.names = (Fam(toint(self.n), v, name(SYN(FS(v)))),)
        self.sorted = (Fam(toint(self.n), v, name(SYN(SFS(v)))),)

    def are(self, I, names):
        segs = tuple(I.iter_segs(names))
        if any(V.same_syntax(PyList(segs), PyList(s)) for s in (self.sorted, self.names)):
            return True
        return any(_valid(V.seq_eqv(segs, s)) for s in (self.sorted, self.names))


def install(cx, symbols, check_params=None):
    """contracts of the texts of expressions whose free symbols are `symbols`"""
    S = cx.I.shims
    old = S[sorted]

    def sorted_(I, it, key=None, reverse=False):
        x = force(it)
        segs = tuple(I.iter_segs(x))
        if key is None and len(segs) == 1 and isinstance(segs[0], Fam) and V.seq_eqv(segs, symbols.names) is True:
            return PyList(symbols.sorted)
        return old(I, PyList(segs), key=key, reverse=reverse)

    def free_symbols(I, params):
        if check_params is not None:
            cx.prove(V.seq_eqv(V.segs_of(force(params)), check_params), "symbols of the parameters")
        return PyList(symbols.segs)

    def read(I, t, names):
        t = force(t)
        if not isinstance(t, SStr) or len(t.parts) != 1 or not isinstance(t.parts[0][1], Ex):
            raise ProofFailed("texts", "deserialize_expr is given something else than the text of the expression")
        if not symbols.are(I, names):
            raise ProofFailed("texts", "deserialize_expr is not given the names of the symbols")
        return t.parts[0][1]

    S[sorted] = sorted_
    cx.contract(_operations.get_free_symbols, free_symbols)
    cx.contract(_gates.get_free_symbols, free_symbols)
    cx.contract(_serde.deserialize_expr, read)

    def symbol(I, t):
        t = force(t)
        if not isinstance(t, SStr) or len(t.parts) != 1 or not isinstance(t.parts[0][1], Nm):
            raise ProofFailed("texts", "a symbol of another name")
        k = t.parts[0][1].key[0]
        if not (z3.is_app(k) and k.decl().eq(SYN)):
            raise ProofFailed("texts", "not the name of a symbol")
        return Sy(k.arg(0))

    S[sympy.Symbol] = symbol


PAR = z3.Function("parameter", Zi, Zi)


def params(n, f=PAR):
    v = V.index_var("p")
    return (Fam(toint(n), v, Ex(f(v))),)


# ---------------------------------------------------------------- gates
BUILTIN = sorted(k for k, v in vars(_builtin_gates).items() if isinstance(v, _gates.MatrixFactoryGate))
PARAMETRIC = sorted(k for k, v in vars(_builtin_gates).items() if getattr(v, "__qualname__", "").startswith("make_parametric_gate_prototype."))


def same_leaf(cx, a, b, what):
    cx.prove(type(a) is _gates.MatrixFactoryGate, f"{what}: kind")
    for f in ("name", "params", "num_qubits", "is_hermitian"):
        cx.same(cx.get(a, f), cx.get(b, f), f"{what}: {f}")


@obligation("C05")
def builtin_gates(cx):
    """every built-in gate without parameters: _gate_from_dict(JSON(to_dict(gate))) is that gate, whatever custom definitions there are"""
    install(cx, Symbols(cx), ())
    cx.assume(mkbool(z3.Int("nf") <= 0))
    cx.prove(len(BUILTIN) >= 12, "built-in gates")
    for nm in BUILTIN:
        g = getattr(_builtin_gates, nm)
        r = cx.call(_serde._gate_from_dict, document(cx.call(_serde.to_dict, g)), Abs("definitions"))
        cx.prove(r is g, nm)


def parametric_ob(nm):
    def ob(cx):
        n = cx.int("n", 1)
        P = params(n)
        install(cx, Symbols(cx), P)
        g = cx.star(getattr(_builtin_gates, nm), PyTuple(P))
        cx.freeze(g)
        d = document(cx.call(_serde.to_dict, g))
        r = cx.call(_serde._gate_from_dict, d, Abs("definitions"))
        same_leaf(cx, r, g, nm)
        cx.prove(cx.get(r, "matrix_factory") is cx.get(g, "matrix_factory"), f"{nm}: matrix factory")
        # after binding / replacing parameters
        cx.same(cx.get(r, "params"), PyTuple(P), "parameters")

    ob.__doc__ = f"{nm} with any parameters: name, matrix factory, parameters (in order), number of qubits and hermiticity survive"
    obligation("C05", name=f"builtin_{nm}")(ob)


for _n in PARAMETRIC:
    parametric_ob(_n)


class G(Opaque):
    """any gate, known by the induction hypothesis; qubits, free symbols and name are unknown"""

    kinds = (_gates.Gate,)

    def __pyvc_isinstance__(self, I, cls):
        if cls is _gates.Gate:
            return True
        raise Unsupported("kind of an unknown gate")

    def __pyvc_class__(self, I):
        raise Unsupported("kind of an unknown gate")

    def __pyvc_getattr__(self, I, nm):
        t = self.key[0]
        if nm == "name":
            return name(z3.Function("gate.name", Zi, Zi)(t))
        if nm == "num_qubits":
            return SInt(z3.Function("gate.qubits", Zi, Zi)(t))
        if nm == "free_symbols":
            return PyList((Fam(z3.Function("gate.nsym", Zi, Zi)(t), V.index_var("s"), Abs("symbol")),))
        if nm == "params":
            return PyTuple(params(z3.Function("gate.npar", Zi, Zi)(t)))
        raise Unsupported(f"{nm} of an unknown gate")


class GD(Abs):
    """its dictionary"""


DEFS = Abs("definitions", z3.IntVal(0))


def hypothesis(cx, defs=DEFS):
    def write(I, x):
        x = force(x)
        if isinstance(x, G):
            return GD(*x.key)
        return I.call_singledispatch(_serde.to_dict, [One(x)], {})

    def read(I, d, ds):
        d = force(d)
        if not isinstance(d, GD):
            raise ProofFailed("hypothesis", "_gate_from_dict of something that is not the dictionary of the wrapped gate")
        cx.same(force(ds), defs, "definitions")
        return G(*d.key)

    cx.I.shims[_serde.to_dict] = write
    cx.contract(_serde._gate_from_dict, read)


def wrapped(cx, g):
    hypothesis(cx)
    cx.freeze(g)
    d = cx.call(_serde.to_dict, g)
    return cx.body(_serde._gate_from_dict, document(d), DEFS)


def no_symbols(g, cx):
    cx.assume(mkbool(z3.Function("gate.nsym", Zi, Zi)(g.key[0]) == 0))


@obligation("C05")
def controlled(cx):
    """a controlled gate, around any gate with any name: the same number of controls around the same gate"""
    g, k = G(z3.Int("g")), cx.int("k", 1)
    r = wrapped(cx, cx.call(_gates.ControlledGate, g, k))
    cx.prove(type(r) is _gates.ControlledGate, "kind")
    cx.same(cx.get(r, "wrapped_gate"), g, "wrapped gate")
    cx.same(cx.get(r, "num_control_qubits"), k, "controls")


@obligation("C05")
def dagger(cx):
    """an adjoint, around any gate with any name"""
    g = G(z3.Int("g"))
    r = wrapped(cx, cx.call(_gates.Dagger, g))
    cx.prove(type(r) is _gates.Dagger, "kind")
    cx.same(cx.get(r, "wrapped_gate"), g, "wrapped gate")


@obligation("C05")
def exponential(cx):
    """an exponential, around any gate with any name"""
    g = G(z3.Int("g"))
    no_symbols(g, cx)
    r = wrapped(cx, cx.call(_gates.Exponential, g))
    cx.prove(type(r) is _gates.Exponential, "kind")
    cx.same(cx.get(r, "wrapped_gate"), g, "wrapped gate")


@obligation("C05")
def power(cx):
    """a power with any integer or real exponent, around any gate with any name"""
    g = G(z3.Int("g"))
    no_symbols(g, cx)
    x = cx.int("x") if cx.pick(2) else cx.real("x")
    r = wrapped(cx, cx.call(_gates.Power, g, x))
    cx.prove(type(r) is _gates.Power, "kind")
    cx.same(cx.get(r, "wrapped_gate"), g, "wrapped gate")
    cx.same(cx.get(r, "exponent"), x, "exponent")


# ---------------------------------------------------------------- custom gates
class Def(Opaque):
    """definition number i of a circuit"""

    kinds = (_gates.CustomGateDefinition,)

    def __pyvc_getattr__(self, I, nm):
        if nm == "gate_name":
            return name(DN(self.key[0]))
        raise Unsupported(f"{nm} of a definition")

    def __pyvc_call__(self, I, segs, kw):
        return Made(self, tuple(segs))


class Made:
    """the gate made by calling a definition"""

    __pyvc_value__ = True

    def __init__(self, d, segs):
        self.d, self.segs = d, segs


DN = z3.Function("name of definition", Zi, Zi)


@obligation("C05")
def custom_gate(cx):
    """a custom gate with any name (also one of a built-in gate or of a modifier), any number of parameters, among any number of definitions of
    different names: the definition of that name is called with the parameters"""
    n, nd = cx.int("n", 0), cx.int("nd", 0)
    P = params(n)
    install(cx, Symbols(cx), P)
    i, at = z3.Int("i"), z3.Function("definition of name", Zi, Zi)
    cx.e.add(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < toint(nd)), at(DN(i)) == i), patterns=[DN(i)]))
    k = cx.int("k", 0)
    cx.assume(k < nd)
    defs = cx.objs(Def, nd)
    cx.freeze(defs)
    factory = _gates.CustomGateMatrixFactory(Def(k.t))
    g = cx.call(_gates.MatrixFactoryGate, name(DN(k.t)), factory, PyTuple(P), cx.int("q", 1))
    cx.freeze(g)
    r = cx.call(_serde._gate_from_dict, document(cx.call(_serde.to_dict, g)), defs)
    cx.prove(isinstance(r, Made), "a custom gate")
    cx.same(r.d, Def(k.t), "definition")
    cx.prove(V.seq_eqv(r.segs, P), "parameters")


@obligation("C05")
def missing_definition(cx):
    """a custom gate without its definition is refused with ValueError"""
    n, nd = cx.int("n", 0), cx.int("nd", 0)
    P = params(n)
    install(cx, Symbols(cx), P)
    defs = cx.objs(Def, nd)
    nm = z3.Int("nm")
    cx.forall(nd, lambda i: mkbool(DN(i.t) != nm))
    g = cx.call(_gates.MatrixFactoryGate, name(nm), _gates.CustomGateMatrixFactory(Def(z3.IntVal(0))), PyTuple(P), cx.int("q", 1))
    cx.raises(ValueError, _serde._gate_from_dict, document(cx.call(_serde.to_dict, g)), defs)


class Mat(Opaque):
    """a sympy matrix by its shape and elements"""

    kinds = (sympy.Matrix,)
    __pyvc_value__ = True

    def __init__(self, rows, cols, el):
        self.rows, self.cols, self.el = toint(rows), toint(cols), el
        self.key = ()

    def __pyvc_getattr__(self, I, nm):
        if nm == "shape":
            return (mkint(self.rows), mkint(self.cols))
        if nm == "rows":
            return mkint(self.rows)
        if nm == "cols":
            return mkint(self.cols)
        if nm == "row":
            return Meth(lambda I, r: self.row(toint(r)))
        if nm == "tolist":
            v = V.index_var("r")
            return Meth(lambda I: PyList((Fam(self.rows, v, self.row(v)),)))
        raise Unsupported(f"{nm} of a matrix")

    def __pyvc_getitem__(self, I, k):
        k = force(k)
        if not isinstance(k, tuple) or len(k) != 2:
            raise Unsupported("a part of a matrix")
        r, c = (toint(x) for x in k)
        if not I.e.valid(z3.And(r >= 0, r < self.rows, c >= 0, c < self.cols)):
            raise Unsupported("an element of a matrix at an index that may be out of range")
        return Ex(self.el(r, c))

    def row(self, r):
        v = V.index_var("c")
        return PyList((Fam(self.cols, v, Ex(self.el(r, v))),))

    def __pyvc_eqv__(self, o):
        if not isinstance(o, Mat):
            return False
        v, w = V.index_var("r"), V.index_var("r")
        return V.conj([self.rows == o.rows, self.cols == o.cols, V.seq_eqv((Fam(self.rows, v, self.row(v)),), (Fam(o.rows, w, o.row(w)),))])

    __hash__ = object.__hash__


ELT = z3.Function("element", Zi, Zi, Zi)


def matrices(cx):
    def make(I, rows):
        segs = tuple(I.iter_segs(rows))
        # the matrix of a list of rows of equal length
        if len(segs) != 1 or not isinstance(segs[0], Fam):
            raise Unsupported("rows of a matrix")
        s = segs[0]
        row = tuple(I.iter_segs(s.val))
        if len(row) != 1 or not isinstance(row[0], Fam) or V.occurs(row[0].n, [s.var]):
            raise Unsupported("rows of a matrix")
        el = force(row[0].val)
        if not isinstance(el, Ex):
            raise ProofFailed("matrix", "elements")
        return Mat(s.n, row[0].n, lambda r, c: z3.substitute(el.key[0], (s.var, r), (row[0].var, c)))

    cx.I.shims[sympy.Matrix] = make

    def nq(I, m):
        m = force(m)
        return SInt(z3.Function("qubits of shape", Zi, Zi, Zi)(m.rows, m.cols))

    cx.contract(_gates._n_qubits, nq)


def definition(cx, cols=None):
    d = cx.int("rows", 1)
    ns = cx.int("ns", 0)
    v = V.index_var("o")
    S = Symbols(cx, "ns")
    install(cx, S)
    matrices(cx)
    m = Mat(d, d, lambda r, c: ELT(r, c))
    o = PyTuple(S.segs)
    D = cx.call(_gates.CustomGateDefinition, name(z3.Int("nm")), m, o)
    return D, m, o


@obligation("C05")
def definitions(cx):
    """the definition of a custom gate (any name, any size of the matrix, any number of parameters): name, all matrix elements at their places, parameters in order"""
    D, m, o = definition(cx)
    cx.freeze(D)
    r = cx.call(_serde.custom_gate_def_from_dict, document(cx.call(_serde.to_dict, D)))
    cx.prove(type(r) is _gates.CustomGateDefinition, "kind")
    cx.same(cx.get(r, "gate_name"), cx.get(D, "gate_name"), "name")
    cx.same(cx.get(r, "matrix"), m, "matrix")
    cx.same(cx.get(r, "params_ordering"), o, "order of the parameters")
    cx.same(cx.get(r, "_n_qubits"), cx.get(D, "_n_qubits"), "number of qubits")


@obligation("C05")
def gate_of_a_definition(cx):
    """a definition called with parameters gives the gate of its name, with a factory of this definition, those parameters and the number of qubits of its matrix"""
    D, m, o = definition(cx)
    cx.freeze(D)
    P = params(cx.int("n", 0))
    g = cx.star(D, PyTuple(P))
    cx.prove(type(g) is _gates.MatrixFactoryGate, "kind")
    cx.same(cx.get(g, "name"), cx.get(D, "gate_name"), "name")
    f = cx.get(g, "matrix_factory")
    cx.prove(type(f) is _gates.CustomGateMatrixFactory and cx.get(f, "gate_definition") is D, "definition")
    cx.same(cx.get(f, "matrix"), m, "matrix")
    cx.same(cx.get(f, "params_ordering"), o, "order of the parameters")
    cx.prove(V.seq_eqv(V.segs_of(cx.get(g, "params")), P), "parameters")
    cx.same(cx.get(g, "num_qubits"), cx.get(D, "_n_qubits"), "number of qubits")


# ---------------------------------------------------------------- operations and circuits
@obligation("C05")
def operation(cx):
    """a gate on any number of qubits: the same gate on the same qubits in order"""
    hypothesis(cx)
    n = cx.int("n", 0)
    v = V.index_var("q")
    qs = PyTuple((Fam(toint(n), v, SInt(z3.Function("qubit", Zi, Zi)(v))),))
    g = G(z3.Int("g"))
    o = cx.call(_gates.GateOperation, g, qs)
    cx.freeze(o)
    r = cx.call(_serde._gate_operation_from_dict, document(cx.call(_serde.to_dict, o)), DEFS)
    cx.prove(type(r) is _gates.GateOperation, "kind")
    cx.same(cx.get(r, "gate"), g, "gate")
    cx.same(cx.get(r, "qubit_indices"), qs, "qubits")


class Op(Opaque):
    """any gate operation"""

    kinds = (_gates.GateOperation,)


class OpD(Abs):
    """its dictionary"""


class DefD(Abs):
    """the dictionary of a definition"""


def circuit_contracts(cx):
    def write(I, x):
        x = force(x)
        if isinstance(x, Op):
            return OpD(*x.key)
        if isinstance(x, Def):
            return DefD(*x.key)
        return I.call_singledispatch(_serde.to_dict, [One(x)], {})

    def read_op(I, d, ds):
        d = force(d)
        if not isinstance(d, OpD):
            raise ProofFailed("hypothesis", "not the dictionary of an operation")
        # the definitions of the circuit the operation belongs to
        c = d.key[0]
        segs = V.segs_of(force(ds))
        cx.prove(V.seq_eqv(segs, the_defs(c)), "definitions given to the operations")
        return Op(*d.key)

    def read_def(I, d):
        d = force(d)
        if not isinstance(d, DefD):
            raise ProofFailed("hypothesis", "not the dictionary of a definition")
        return Def(*d.key)

    def collect(I, c):
        ops = V.norm_segs(V.segs_of(force(I.getattr(c, "_operations"))))
        if not ops:
            return PyList(())
        return PyList(the_defs(ops[0].val.key[0]))

    def size(I, ops):
        segs = V.norm_segs(V.segs_of(force(ops)))
        if not segs or not core.cur.choose(V.segs_len(segs) > 0):
            return 0
        if len(segs) != 1 or not isinstance(segs[0], Fam) or not isinstance(segs[0].val, Op) or not core.cur.valid(segs[0].n == NOP(segs[0].val.key[0])):
            raise ProofFailed("hypothesis", "size of other operations")
        return SInt(SIZE(segs[0].val.key[0]))

    cx.I.shims[_serde.to_dict] = write
    cx.contract(_serde._gate_operation_from_dict, read_op)
    cx.contract(_serde.custom_gate_def_from_dict, read_def)
    cx.contract(_circuit.Circuit.collect_custom_gate_definitions, collect)
    cx.contract(_circuit._circuit_size_by_operations, size)


ND, NOP, NQ, SIZE = (z3.Function(s, Zi, Zi) for s in ("circuit.definitions", "circuit.operations", "circuit.width", "circuit.size"))


def the_ops(c):
    v = V.index_var("o")
    return (Fam(NOP(c), v, Op(c, v)),)


def the_defs(c):
    v = V.index_var("d")
    return (Fam(ND(c), v, Def(c, v)),)


def a_circuit(cx, c, given):
    cx.assume(mkbool(z3.And(NOP(c) >= 0, ND(c) >= 0, NQ(c) >= 1, SIZE(c) >= 0, z3.Implies(NOP(c) <= 0, ND(c) <= 0))))
    if given:
        return cx.call(_circuit.Circuit, PyList(the_ops(c)), SInt(NQ(c)))
    return cx.call(_circuit.Circuit, PyList(the_ops(c)))


@obligation("C05")
def circuit(cx):
    """a circuit of any number of operations, any number of definitions, a given width or that of its operations: same width, same operations in order;
    every operation is read with all the definitions of the circuit"""
    circuit_contracts(cx)
    c = z3.Int("c")
    C = a_circuit(cx, c, cx.pick(2))
    cx.freeze(C)
    r = cx.call(_serde.circuit_from_dict, document(cx.call(_serde.to_dict, C)))
    cx.prove(type(r) is _circuit.Circuit, "kind")
    cx.same(cx.get(r, "n_qubits"), cx.get(C, "n_qubits"), "width")
    cx.prove(V.seq_eqv(V.segs_of(force(cx.get(r, "operations"))), the_ops(c)), "operations")


class Circ(Opaque):
    """any circuit"""

    kinds = (_circuit.Circuit,)


class CircD(Abs):
    """its dictionary"""


def set_contracts(cx):
    def write(I, x):
        x = force(x)
        return CircD(*x.key) if isinstance(x, Circ) else I.call_singledispatch(_serde.to_dict, [One(x)], {})

    def read(I, d):
        d = force(d)
        if not isinstance(d, CircD):
            raise ProofFailed("hypothesis", "not the dictionary of a circuit")
        return Circ(*d.key)

    cx.I.shims[_serde.to_dict] = write
    cx.contract(_serde._circuit_to_dict, write)
    cx.contract(_serde.circuit_from_dict, read)


def source(cx):
    return "file" if cx.pick(2) else cx.I.call(open, ["file", "r"])


@obligation("C05")
def circuit_sets(cx):
    """a list of any number of circuits, through its dictionary and through a file, given by name or open: the same circuits in order"""
    set_contracts(cx)
    disk(cx, document, (json, rapidjson))
    L = cx.objs(Circ, cx.int("n", 0))
    cx.freeze(L)
    cx.same(cx.call(_serde.circuitset_from_dict, document(cx.call(_serde.to_dict, L))), L, "circuits")
    cx.call(_serde.save_circuitset, L, "file")
    cx.same(cx.call(_serde.load_circuitset, source(cx)), L, "circuits of the file")


@obligation("C05")
def circuit_files(cx):
    """load_circuit after save_circuit, given the name or an open file: the circuit of the dictionary of the circuit"""
    set_contracts(cx)
    disk(cx, document, (json, rapidjson))
    c = Circ(z3.Int("c"))
    cx.call(_serde.save_circuit, c, "file")
    cx.same(cx.call(_serde.load_circuit, source(cx)), c, "circuit")


# ---------------------------------------------------------------- which definitions are stored
CUSTOM, OWN = z3.Function("is custom", Zi, B), z3.Function("own definition", Zi, Zi)


class Innermost(Opaque):
    """the innermost gate of operation i: a custom gate or not"""

    kinds = (_gates.MatrixFactoryGate,)

    def __pyvc_getattr__(self, I, nm):
        if nm == "matrix_factory":
            return Factory(*self.key)
        raise Unsupported(nm)


class Factory(Opaque):
    def __pyvc_isinstance__(self, I, cls):
        if cls is _gates.CustomGateMatrixFactory:
            return mkbool(CUSTOM(self.key[0]))
        return False

    def __pyvc_getattr__(self, I, nm):
        if nm == "gate_definition" and core.cur.valid(CUSTOM(self.key[0])):
            return Def(OWN(self.key[0]))
        raise Unsupported(nm)


class GateOp(Opaque):
    kinds = (_gates.GateOperation,)

    def __pyvc_getattr__(self, I, nm):
        if nm == "gate":
            return Abs("gate", *self.key)
        raise Unsupported(nm)


class ByName:
    """a sequence sorted by gate_name"""

    __pyvc_value__ = True

    def __init__(self, segs):
        self.segs = segs


@obligation("C05")
def collected_definitions(cx):
    """the definitions stored with a circuit of any number of operations: sorted by name, for every name among the custom gates at the heart of its
    (possibly modified) gates the definition of the first such gate; ValueError is the only other outcome (two definitions of one name)"""
    from vc.pyvc import seen

    n = cx.int("n", 0)
    ops = cx.objs(GateOp, n)
    cx.contract(_circuit._innermost_gate, lambda I, g: Innermost(force(g).key[-1]))
    cx.contract(_circuit._circuit_size_by_operations, lambda I, ops: SInt(z3.Int("size")))
    old = cx.I.shims[sorted]

    def sorted_(I, it, key=None, reverse=False):
        x = PyList(tuple(I.iter_segs(force(it))))
        j = Def(z3.Int("any"))
        if key is None or reverse is not False or not _valid(V.eqv(force(I.call(key, [j])), name(DN(z3.Int("any"))))):
            raise ProofFailed("order", "not sorted by gate_name")
        return ByName(x.segs)

    cx.I.shims[sorted] = sorted_
    C = cx.call(_circuit.Circuit, ops)
    cx.freeze(C)
    how, r = cx.attempt(cx.get(C, "collect_custom_gate_definitions"))
    if how == "exc":
        cx.prove(isinstance(r, ValueError), f"refused with ValueError, not {r!r}")
        return
    cx.prove(isinstance(r, ByName), "sorted by name")
    i = V.index_var("i")
    key = name(DN(OWN(i)))
    first = z3.Not(seen.earlier((Guard(CUSTOM(i), (One(key),)),), i, i, DN(OWN(i))))
    cx.prove(V.seq_eqv(r.segs, (Flat(toint(n), i, (Guard(z3.And(CUSTOM(i), first), (One(Def(OWN(i))),)),)),)), "first definition of every name")


WRAP = [lambda cx, g: cx.call(_gates.ControlledGate, g, 2), lambda cx, g: cx.call(_gates.Dagger, g), lambda cx, g: cx.call(_gates.Power, g, 3), lambda cx, g: cx.call(_gates.Exponential, g)]


@obligation("C05", bounded="up to 4 nested modifiers of the 4 kinds")
def innermost_gate(cx):
    """the gate at the heart of nested controlled gates, adjoints, powers and exponentials"""
    g = leaf = cx.call(_gates.MatrixFactoryGate, "name", Abs("factory"), (), 1, False)
    for _ in range(cx.pick(5)):
        g = WRAP[cx.pick(4)](cx, g)
    cx.prove(cx.call(_circuit._innermost_gate, g) is leaf, "innermost gate")

"""C11: operators and result artefacts survive dictionaries and files."""
import json

import numpy as np
import rapidjson

from vc.pyvc.driver import *
from vc.pyvc.driver import V, z3
from vc.pyvc import count, pauli, sarr
from vc.pyvc.lin import Meth
from vc.pyvc.pauli import Letters, NQ, Term, sc
from vc.proof.c17 import disk, document
from vc.proof import c03, c10
from orquestra.quantum import utils as ut
from orquestra.quantum.circuits import layouts as ly
from orquestra.quantum.measurements import measurements as ms, expectation_values as ev, parities as pr
from orquestra.quantum.operators import PauliSum, PauliTerm, _io as io, _pauli_operators as po

TRUSTED = ["json/rapidjson: load of a file holding dumps(x) alone is x with tuples as lists, for dictionaries of texts, lists, numbers and None (floats exactly)"]
ASSUMPTIONS = []
Zi, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


def files(cx):
    disk(cx, document, (json, rapidjson))


def source(cx, name="file"):
    """the file name or an open file"""
    return name if cx.pick(2) else cx.I.call(open, [name, "r"])


# ---------------------------------------------------------------- operators
LET = z3.Function("letter", Zi, Zi, Zi)
RE, IM = z3.Function("c.re", Zi, R), z3.Function("c.im", Zi, R)
CPX = z3.Function("complex coefficient", Zi, B)


def coefficient(t):
    return Cases([(CPX(t), SComplex(RE(t), IM(t))), (z3.Not(CPX(t)), SReal(RE(t)))])


def term(t):
    return Term(Letters.of(lambda q: LET(t, q)), coefficient(t))


def terms(cx, N):
    c03.setup(cx)
    t, q = z3.Int("t"), z3.Int("q")
    cx.e.add(z3.ForAll([t, q], z3.And(LET(t, q) >= 0, LET(t, q) <= 3), patterns=[LET(t, q)]))
    v = V.index_var("t")
    return (Fam(toint(N), v, term(v)),)


class Sum:
    """a PauliSum by its list of terms; contract of +: the terms of both (C03 sum_plus; nothing is merged or dropped: simplified_kept)"""

    __pyvc_value__ = True

    def __init__(self, segs=()):
        self.segs = tuple(segs)

    @property
    def terms(self):
        return PyList(self.segs)

    def __pyvc_isinstance__(self, I, cls):
        return isinstance(cls, type) and issubclass(PauliSum, cls)

    def __pyvc_class__(self, I):
        return PauliSum

    def __add__(self, o):
        o = force(o)
        if isinstance(o, Sum):
            return Sum(self.segs + o.segs)
        if isinstance(o, Term):
            return Sum(self.segs + (One(o),))
        raise Unsupported("sum with something else")

    def __pyvc_eqv__(self, o):
        return isinstance(o, Sum) and V.seq_eqv(self.segs, o.segs)

    def __pyvc_subst__(self, f):
        return Sum(f(self.segs))

    def __pyvc_syntax__(self):
        return self.segs

    def __pyvc_havoc__(self, I):
        r = Sum((Hole(I.e.fresh_name("sum")),))
        r.hid = r.segs[0].id
        return r, []

    def __pyvc_summ__(self, I, n, i, old, vals, conds_ok):
        if not isinstance(old, Sum) or any(k == "new" and not isinstance(v, Sum) for _, k, v in vals) or len(vals) > 1 and not conds_ok:
            return None
        parts = []
        for c, k, v in vals:
            if k == "same":
                parts.append(())
            elif v.segs and isinstance(v.segs[0], Hole) and v.segs[0].id == self.segs[0].id:
                parts.append(v.segs[1:])
            else:
                return None

        def at(m):
            m = z3.simplify(toint(m))
            if all(len(p) == 1 and isinstance(p[0], One) for p in parts):  # one term in every case
                return Sum(old.segs + (Fam(m, i, Cases([(c, p[0].v) for (c, _, _), p in zip(vals, parts)]) if len(parts) > 1 else parts[0][0].v),))
            body = parts[0] if len(parts) == 1 else tuple(Guard(c, p) for (c, _, _), p in zip(vals, parts) if p)
            return Sum(old.segs + ((Flat(m, i, body),) if body else ()))

        at.parts = lambda m: []
        return at

    __hash__ = object.__hash__


@obligation("C11")
def from_pairs(cx):
    """PauliTerm.from_iterable(the (letter, qubit) pairs of a dictionary of letters X, Y, Z, any number of them, coefficient): the constructor is given
    exactly that dictionary and the coefficient"""
    c03.setup(cx)
    d, c = c03.letters(cx, "letter"), cx.complex("c")
    made = []

    def ctor(I, operator, coefficient=None):
        made.append((force(operator), coefficient))
        return Abs("term")

    cx.contract(PauliTerm, ctor)
    pairs = PyList(tuple(Fam(f.n, f.var, (f.val[1], f.val[0])) for f in d.items()))
    cx.freeze(pairs)
    r = cx.call(PauliTerm.from_iterable, pairs, c)
    cx.same(r, Abs("term"), "a term")
    cx.prove(len(made) == 1, "constructed once")
    cx.same(made[0][0], PyDict(d.items()), "its letters")
    cx.same(made[0][1], c, "its coefficient")


def from_iterable_model(I, pairs, coefficient=1.0):
    """contract of from_iterable (from_pairs): pairs that are the items of a dictionary of letters"""
    segs = tuple(I.iter_segs(pairs))
    if not segs:
        return Term(Letters.of(lambda q: z3.IntVal(0)), coefficient)
    if len(segs) != 1 or not isinstance(segs[0], Fam):
        raise ProofFailed("document", f"not the letters of one term {segs}")
    t = z3.simplify(_owner(I, segs[0]))
    d = Letters.of(lambda q: LET(t, q))
    (f,) = d.items()
    if V.seq_eqv(segs, (Fam(f.n, f.var, (f.val[1], f.val[0])),)) is not True and not I.e.valid(zbool(V.seq_eqv(segs, (Fam(f.n, f.var, (f.val[1], f.val[0])),)))):
        raise ProofFailed("document", "other letters")
    return Term(d, coefficient)


def _owner(I, fam):
    """the index of the term whose letters these are"""
    found = []

    def walk(t):
        if isinstance(t, Cases):
            for c, v in t.alts:
                walk(c), walk(v)
        elif isinstance(t, tuple):
            for x in t:
                walk(x)
        elif isinstance(t, z3.ExprRef):
            if z3.is_app(t) and t.decl().name() == "letter":
                found.append(t.arg(0))
            for x in t.children():
                walk(x)

    walk(fam.val)
    if not found:
        raise ProofFailed("document", "not the letters of one term")
    return found[0]


@obligation("C11")
def operator_dictionary(cx):
    """convert_dict_to_op(json text round trip of convert_op_to_dict(op)), for N terms with any letters and real or complex coefficients: the sum of
    the terms with the same letters and the same coefficients, in order; also through save_operator and load_operator, given the name or an open file"""
    N = cx.int("N", 0)
    segs = terms(cx, N)
    files(cx)
    cx.contract(PauliTerm.from_iterable, from_iterable_model)
    cx.contract(PauliSum, lambda I, ts=None: Sum(I.iter_segs(ts) if ts is not None else ()))
    op = Sum(segs)
    if cx.pick(2):
        r = cx.call(io.convert_dict_to_op, cx.call(rapidjson.loads, cx.call(rapidjson.dumps, cx.call(io.convert_op_to_dict, op))))
    else:
        cx.call(io.save_operator, op, "file")
        r = cx.call(io.load_operator, source(cx))
    got = PyList(tuple(force(r).segs))
    cx.prove(cx.len(got) == N, "as many terms")
    if not cx.choose(N > 0):
        return
    cx.prove(V.holds_generic(N.t, lambda j: _same_term(cx, got, j)), "every term")


def _same_term(cx, got, j):
    x = force(cx.I.getitem(got, SInt(j)))
    return V.conj([V.eqv(x.d, term(j).d), V.eqv(sc(x.c), sc(force(coefficient(j))))])


@obligation("C11")
def simplified_kept(cx):
    """PauliSum.simplify of terms with pairwise different letters and coefficients away from 0: the same terms, in order"""
    c03.den(cx)
    cx.contract(PauliTerm.operations.fget, lambda I, t: SInt(t.w[0].v.args[1]))
    N, v = cx.int("N", 0), V.index_var("t")
    re, im = z3.Function("c.re", Zi, R), z3.Function("c.im", Zi, R)
    cx.forall(N, lambda j: SBool(z3.Not(c03.zb(cx.call(np.isclose, SComplex(re(j.t), im(j.t)), 0.0)))))
    at = lambda j: pauli.PT.string(SComplex(re(j), im(j)), "string", j)
    s = c03.real_sum((Fam(N.t, v, at(v)),))
    r = cx.call(PauliSum.simplify, s)
    cx.same(c03.terms_of(cx, r), PyList((Fam(N.t, v, at(v)),)), "the terms")


@obligation("C11")
def operator_lists(cx):
    """load_operator_set after save_operator_set of N operators, given the name or an open file: the N operators of their dictionaries
    (operator_dictionary), in order"""
    files(cx)
    N = cx.int("N", 0)
    ops = cx.objs(Abs, N, "op")
    cx.freeze(ops)
    cx.contract(io.convert_op_to_dict, lambda I, x: Abs("dict", *force(x).key[1:]) if force(x).key[0] == "op" else _other())
    cx.contract(io.convert_dict_to_op, lambda I, x: Abs("op", *force(x).key[1:]) if force(x).key[0] == "dict" else _other())
    cx.call(io.save_operator_set, ops, "file")
    cx.same(cx.call(io.load_operator_set, source(cx)), ops, "the operators")


# ---------------------------------------------------------------- measurements
class Small:
    """a numpy integer: not JSON serialisable"""

    __pyvc_value__ = True

    def __init__(self, t):
        self.t = toint(t)

    def __pyvc_int__(self, I):
        return SInt(self.t)

    def __pyvc_json__(self):
        raise ProofFailed("document", "a numpy integer is not JSON serialisable")

    def __pyvc_eqv__(self, o):
        return V.eqv(SInt(self.t), o.t if isinstance(o, Small) else o)

    def __pyvc_subst__(self, f):
        return Small(f(self.t))

    def __pyvc_syntax__(self):
        return (self.t,)


@obligation("C11")
def measurements(cx):
    """Measurements.load_from_file after save, for N shots of nq bits held as integers or numpy integers, given the name or an open file: the same
    shots, as tuples of integers, in order"""
    nq, N = c10.setup(cx, 0)
    files(cx)
    i, q = V.index_var("i"), V.index_var("q")
    wrap = (lambda t: SInt(t)) if cx.pick(2) else (lambda t: Small(t))
    shots = PyList((Fam(N.t, i, PyTuple((Fam(nq.t, q, wrap(c10.bit(i, q))),))),))
    cx.freeze(shots)
    cx.contract(ms.Measurements.get_counts, lambda I, m: Abs("counts"))
    m = cx.call(ms.Measurements, shots)
    cx.call(ms.Measurements.save, m, "file")
    r = cx.call(ms.Measurements.load_from_file, source(cx))
    cx.prove(isinstance(r, ms.Measurements), "measurements")
    cx.same(cx.get(r, "bitstrings"), c10.shots(cx), "shots")


# ---------------------------------------------------------------- arrays
def arrays(cx, mod):
    """contract of the conversions (c12_arrays_as_dictionaries): dictionaries of arrays"""
    cx.contract(mod.convert_array_to_dict, lambda I, x: Abs("dict", *force(x).key[1:]) if isinstance(force(x), Abs) and force(x).key[0] == "array" else _other())
    cx.contract(mod.convert_dict_to_array, lambda I, x: Abs("array", *force(x).key[1:]) if isinstance(force(x), Abs) and force(x).key[0] == "dict" else _other())


def _other():
    raise ProofFailed("document", "another content")


def frames(cx, name, k):
    """None, or a list of n >= 0 matrices"""
    if not cx.pick(2):
        return None
    n, v = cx.int("n_" + name, 0), V.index_var("f")
    return PyList((Fam(n.t, v, Abs("array", z3.IntVal(k), v)),))


def same_frames(cx, got, want, label):
    """equal; no list and an empty list of matrices differ"""
    if want is None:
        cx.prove(force(got) is None, label)
        return
    cx.prove(force(got) is not None, label)
    cx.same(got, want, label)


@obligation("C11")
def expectation_values(cx):
    """load_expectation_values after save_expectation_values, with no or any number of correlation and covariance matrices, given the name or an open
    file: the arrays of the dictionaries of the values and of every matrix, in order"""
    files(cx)
    arrays(cx, ev)
    x = Abs("array", z3.IntVal(0), z3.IntVal(0))
    c, v = frames(cx, "c", 1), frames(cx, "v", 2)
    e = cx.call(ev.ExpectationValues, x, c, v)
    cx.freeze(e)
    cx.call(ev.save_expectation_values, e, "file")
    r = cx.call(ev.load_expectation_values, source(cx))
    cx.prove(isinstance(r, ev.ExpectationValues), "class")
    cx.same(cx.get(r, "values"), x, "values")
    same_frames(cx, cx.get(r, "correlations"), c, "correlations")
    same_frames(cx, cx.get(r, "estimator_covariances"), v, "covariances")


@obligation("C11")
def parity_tallies(cx):
    """load_parities after save_parities, likewise"""
    files(cx)
    arrays(cx, pr)
    x = Abs("array", z3.IntVal(0), z3.IntVal(0))
    c = frames(cx, "c", 1)
    e = cx.call(pr.Parities, x, c)
    cx.freeze(e)
    cx.call(pr.save_parities, e, "file")
    r = cx.call(pr.load_parities, source(cx))
    cx.prove(isinstance(r, pr.Parities), "class")
    cx.same(cx.get(r, "values"), x, "values")
    same_frames(cx, cx.get(r, "correlations"), c, "correlations")


# ---------------------------------------------------------------- lists and layouts
@obligation("C11")
def lists(cx):
    """load_list after save_list, load_circuit_ordering after save_circuit_ordering: the list of N items, in order"""
    files(cx)
    xs = cx.objs(Abs, cx.int("N", 0), "item")
    cx.freeze(xs)
    save, load = [(ut.save_list, ut.load_list), (ly.save_circuit_ordering, ly.load_circuit_ordering)][cx.pick(2)]
    cx.call(save, xs, "file")
    cx.same(cx.call(load, source(cx)), xs, "the list")


@obligation("C11")
def layers(cx):
    """load_circuit_layers after save_circuit_layers, load_circuit_connectivity after save_circuit_connectivity: the same groups of qubits, as tuples, in
    order (any number of layers with any numbers of groups of any sizes)"""
    files(cx)
    N = cx.int("N", 0)
    M, L, Q = z3.Function("groups", Zi, Zi), z3.Function("size", Zi, Zi, Zi), z3.Function("qubit", Zi, Zi, Zi, Zi)
    i, j, k = V.index_var("i"), V.index_var("j"), V.index_var("k")
    cx.e.add(z3.ForAll([i], M(i) >= 0, patterns=[M(i)]))
    cx.e.add(z3.ForAll([i, j], L(i, j) >= 0, patterns=[L(i, j)]))
    group = PyTuple((Fam(L(i, j), k, SInt(Q(i, j, k))),))
    if cx.pick(2):
        x = PyList((Fam(N.t, i, PyList((Fam(M(i), j, group),))),))
        cls, field, save, load = ly.CircuitLayers, "layers", ly.save_circuit_layers, ly.load_circuit_layers
    else:
        x = V.subst(PyList((Fam(N.t, j, group),)), [(i, z3.IntVal(0))])
        cls, field, save, load = ly.CircuitConnectivity, "connectivity", ly.save_circuit_connectivity, ly.load_circuit_connectivity
    c = cx.call(cls, x)
    cx.freeze(c)
    cx.call(save, c, "file")
    r = cx.call(load, source(cx))
    cx.prove(isinstance(r, cls), "class")
    cx.same(cx.get(r, field), x, "groups")


# ---------------------------------------------------------------- estimates
class Np:
    """a numpy float: not JSON serialisable, item() is the number"""

    __pyvc_value__ = True

    def __init__(self, x):
        self.x = x

    def __pyvc_class__(self, I):
        return np.float32

    def __pyvc_getattr__(self, I, name):
        if name == "item":
            return Meth(lambda I: self.x)
        raise Unsupported(f"{name} of a numpy number")

    def __pyvc_json__(self):
        raise ProofFailed("document", "a numpy number is not JSON serialisable")

    def __pyvc_eqv__(self, o):
        return V.eqv(self.x, o.x if isinstance(o, Np) else o)


class Estimate:
    """a ValueEstimate: a float with a precision"""

    __pyvc_value__ = True

    def __init__(self, x, p):
        self.x, self.p = x, p

    def __pyvc_class__(self, I):
        return ut.ValueEstimate

    def __pyvc_getattr__(self, I, name):
        if name == "precision":
            return self.p
        d = I.find_method(ut.ValueEstimate, name)
        import types

        if isinstance(d, types.FunctionType):
            return types.MethodType(d, self)
        raise Unsupported(f"{name} of a value estimate")

    def __pyvc_json__(self):
        return self.x


@obligation("C11")
def value_estimate(cx):
    """load_value_estimate after save_value_estimate: the value with its precision (a number, a numpy number, or None), given the name or an open file"""
    files(cx)
    cx.contract(ut.ValueEstimate, lambda I, x, precision=None: Estimate(x, precision))
    x, p = cx.real("x"), [None, cx.real("p"), Np(cx.real("q"))][cx.pick(3)]
    cx.call(ut.save_value_estimate, Estimate(x, p), "file")
    r = cx.call(ut.load_value_estimate, source(cx))
    cx.prove(isinstance(r, Estimate), "class")
    cx.same(r.x, x, "value")
    cx.same(r.p, p.x if isinstance(p, Np) else p, "precision")


@obligation("C11")
def numbers_of_measurements(cx):
    """load_nmeas_estimate after save_nmeas_estimate: the two numbers and the array of the dictionary of the frame measurements, or None"""
    files(cx)
    arrays(cx, ut)
    K, n, f = cx.real("K"), cx.int("n"), Abs("array", z3.IntVal(0), z3.IntVal(0)) if cx.pick(2) else None
    cx.call(ut.save_nmeas_estimate, K, n, "file", f) if f is not None else cx.call(ut.save_nmeas_estimate, K, n, "file")
    r = cx.call(ut.load_nmeas_estimate, source(cx))
    cx.same(PyTuple(V.segs_of(r)), PyTuple((One(K), One(n), One(f))), "what was saved")


@obligation("C11")
def array_dictionaries(cx):
    """convert_dict_to_array(convert_array_to_dict(array)) is the array, for matrices and arrays of rank 3 of any sizes, real or complex"""
    sarr.install(cx.I)
    rank = 2 + cx.pick(2)
    shape = tuple(cx.int(f"d{k}", 0) for k in range(rank))
    re, im = z3.Function("a.re", *[Zi] * rank, R), z3.Function("a.im", *[Zi] * rank, R)
    v = sarr.FArr.fn(shape, (lambda *i: SComplex(re(*i), im(*i))) if cx.pick(2) else (lambda *i: SReal(re(*i))))
    cx.freeze(v)
    cx.same(cx.call(ut.convert_dict_to_array, cx.call(ut.convert_array_to_dict, v)), v, "the array")


TRUSTED += borrow("C11", "c12", ["arrays_as_dictionaries"])
TRUSTED += borrow("C11", "c03", ["constructor", "sum_plus", "simplify"])

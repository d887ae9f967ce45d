"""C06: binding parameters commutes with evaluating; free symbols; power and exponential refuse.

An expression is known through the contract of sympy: its value under an assignment of the symbols (`value`), its free
symbols, and e.subs(map, simultaneous=True), whose value under an assignment is the value of e under the assignment that
gives each symbol of the map the value of its image.  Gates are known through the contract of the Gate interface (C07)
extended with bind; matrices are words of lifted gates (C01) determined by the parameters."""
from vc.pyvc.driver import *
from vc.pyvc.driver import V, z3
from vc.pyvc import lin, seen
from vc.pyvc.lin import AGate, Pars, Word, Meth, _p2
from vc.proof import c01, c07
import numbers
import sympy
from orquestra.quantum.circuits import _circuit, _gates, _operations, _wavefunction_operations

TRUSTED = ["sympy: e.subs(map, simultaneous=True) evaluates to e with the symbols of the map given the values of their images, and distributes over matrix entries, products, adjoints and block diagonals",
           "sympy: expr.free_symbols is the set of symbols the expression depends on"]
ASSUMPTIONS = ["the symbols in the matrix of a custom gate are the symbols of its params_ordering, and one parameter is given for each"]

Z, R = z3.IntSort(), z3.RealSort()
HAS = z3.Function("map.has", Z, Z, z3.BoolSort())      # map, symbol
IMG = z3.Function("map.value", Z, Z, Z, R)              # map, symbol, assignment
LOOK = z3.Function("assignment", Z, Z, R)               # assignment, symbol
VAL = z3.Function("value", Z, Z, R)                     # expression, assignment
COMP = z3.Function("assignment.after", Z, Z, Z)         # map, assignment


class Env:
    """an assignment of values to the symbols"""

    def __init__(self, t):
        self.t = t

    def look(self, s):
        return LOOK(self.t, s)


class After(Env):
    """the assignment that gives each symbol of the map the value of its image under env"""

    def __init__(self, m, env):
        self.m, self.env, self.t = m, env, COMP(m.mid, env.t)

    def look(self, s):
        return z3.If(self.m.has(s), self.m.image(s, self.env), self.env.look(s))


class SymMap:
    """an unknown symbol map"""

    __pyvc_value__ = True

    def __init__(self, mid):
        self.mid = mid

    def has(self, s):
        return HAS(self.mid, s)

    def image(self, s, env):
        return IMG(self.mid, s, env.t)

    def __pyvc_contains__(self, I, k):
        k = force(k)
        return mkbool(self.has(k.s)) if isinstance(k, Sy) else False

    def __pyvc_getitem__(self, I, k):
        if not I.truth(self.__pyvc_contains__(I, k)):
            raise KeyError(k)
        return Img(self, force(k).s)

    def __pyvc_getattr__(self, I, name):
        if name == "get":
            return Meth(lambda I, k, d=None: self.__pyvc_getitem__(I, k) if I.truth(self.__pyvc_contains__(I, k)) else d)
        raise Unsupported(f"{name} of an unknown map")

    def __pyvc_eqv__(self, o):
        return isinstance(o, SymMap) and self.mid.eq(o.mid)

    def __pyvc_subst__(self, f):
        return SymMap(f(self.mid))

    def __pyvc_syntax__(self):
        return (self.mid,)


class Val:
    """values of the engine that stand for parameters"""

    __pyvc_value__ = True
    kinds = ()

    def __pyvc_class__(self, I):
        return self.kinds[0]

    def __pyvc_isinstance__(self, I, cls):
        return any(issubclass(k, cls) for k in self.kinds[:1])

    def __pyvc_getattr__(self, I, name):
        raise Unsupported(f"attribute {name} of {type(self).__name__}")


class Img(Val):
    """the value a map gives to a symbol"""

    def __init__(self, m, s):
        self.m, self.s = m, s

    def value(self, env):
        return self.m.image(self.s, env)

    def __pyvc_isinstance__(self, I, cls):
        raise Unsupported("kind of a value of the map")

    def __pyvc_class__(self, I):
        raise Unsupported("kind of a value of the map")

    def __pyvc_eqv__(self, o):
        return isinstance(o, Img) and V.conj([V.eqv(self.m, o.m), V.eqv(SInt(self.s), SInt(o.s))])

    def __pyvc_subst__(self, f):
        return Img(f(self.m), f(self.s))

    def __pyvc_syntax__(self):
        return (self.m, self.s)


class Sy(Val):
    """a symbol"""

    kinds = (sympy.Symbol,)

    def __init__(self, s):
        self.s = s

    def value(self, env):
        return env.look(self.s)

    def __pyvc_key__(self):
        return self.s

    def __pyvc_eqv__(self, o):
        return isinstance(o, Sy) and V.eqv(SInt(self.s), SInt(o.s))

    def __pyvc_eq__(self, I, o):
        return mkbool(self.s == force(o).s) if isinstance(force(o), Sy) else False

    def __pyvc_subst__(self, f):
        return Sy(f(self.s))

    def __pyvc_syntax__(self):
        return (self.s,)

    def __pyvc_getattr__(self, I, name):
        if name == "free_symbols":
            return PySet((One(self),))
        if name == "subs":
            return Meth(lambda I, m, simultaneous=False: _subs(I, self, m, simultaneous))
        return super().__pyvc_getattr__(I, name)


class Ex(Val):
    """an expression; maps: the substitutions made in it"""

    kinds = (sympy.Add,)

    def __init__(self, t, maps=()):
        self.t, self.maps = t, tuple(maps)

    def value(self, env):
        for m in reversed(self.maps):
            env = After(m, env)
        return VAL(self.t, env.t)

    def __pyvc_eqv__(self, o):
        return isinstance(o, Ex) and len(o.maps) == len(self.maps) and V.conj([V.eqv(SInt(self.t), SInt(o.t))] + [V.eqv(a, b) for a, b in zip(self.maps, o.maps)])

    def __pyvc_subst__(self, f):
        return Ex(f(self.t), [f(m) for m in self.maps])

    def __pyvc_syntax__(self):
        return (self.t, self.maps)

    def __pyvc_getattr__(self, I, name):
        if name == "subs":
            return Meth(lambda I, m, simultaneous=False: _subs(I, self, m, simultaneous))
        return super().__pyvc_getattr__(I, name)


def _subs(I, x, m, simultaneous):
    m = force(m)
    if not isinstance(m, SymMap):
        raise Unsupported("substitution of something else than a map")
    if not I.truth(simultaneous):
        # one symbol after the other: an image may be substituted again
        return Ex(z3.Function("subs.sequential", Z, Z, Z)(x.t if isinstance(x, Ex) else x.s, m.mid))
    if isinstance(x, Sy):
        return Img(m, x.s) if I.truth(mkbool(m.has(x.s))) else x
    return Ex(x.t, x.maps + (m,))


def value(p, env):
    """the value of a parameter under an assignment"""
    p = force(p)
    if isinstance(p, Val):
        return p.value(env)
    if isinstance(p, (int, float, Sym)) and not isinstance(p, bool):
        return toreal(p)
    raise ProofFailed("a parameter", f"{type(p).__name__}")


def kinds(cx, name="p"):
    """a parameter of every kind"""
    k = cx.pick(4)
    return [cx.int(name), cx.real(name + "r"), Sy(z3.Int(name + "s")), Ex(z3.Int(name + "e"))][k]


@obligation("C06")
def substitution(cx):
    """sub_symbols(p, map) for any number, symbol or expression: the value of the result under any assignment is the value of p under
    the assignment that gives the symbols of the map the values of their images; numbers are returned unchanged; symbols that are
    not in the map too"""
    p = kinds(cx)
    m, env = SymMap(z3.Int("m")), Env(z3.Int("env"))
    cx.freeze(m)
    r = cx.call(_operations.sub_symbols, p, m)
    cx.prove(SBool(value(r, env) == value(p, After(m, env))), "value of the substituted parameter")
    if isinstance(p, Sym):
        cx.prove(isinstance(r, type(p)) and cx.same(r, p) is None, "numbers unchanged")
    if isinstance(p, Sy):
        if cx.choose(z3.Not(m.has(p.s))):
            cx.same(r, p, "symbol not in the map")


@obligation("C06")
def complex_substitution(cx):
    """complex and numpy numbers are parameters too: returned unchanged"""
    import numpy as np

    p = [cx.complex("p"), 2j, np.float64(0.5), np.int64(3), True][cx.pick(5)]
    cx.same(cx.call(_operations.sub_symbols, p, SymMap(z3.Int("m"))), p, "number unchanged")


class Joined(SymMap):
    """the map with the entries of both (those of the first win)"""

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.mid = z3.Function("map.joined", Z, Z, Z)(a.mid, b.mid)

    def has(self, s):
        return z3.Or(self.a.has(s), self.b.has(s))

    def image(self, s, env):
        return z3.If(self.a.has(s), self.a.image(s, env), self.b.image(s, env))


@obligation("C06")
def partial_steps(cx):
    """binding in two steps: the resulting assignment of the symbols is the one of the joined map when the images of the first map do
    not depend on the symbols of the second (numbers in particular); superfluous entries of a map change no other symbol"""
    m1, m2, env = SymMap(z3.Int("m1")), SymMap(z3.Int("m2")), Env(z3.Int("env"))
    cx.contract(_operations.sub_symbols, lambda I, p, m: Image(p, m))
    p = kinds(cx)
    r = cx.call(_operations.sub_symbols, cx.call(_operations.sub_symbols, p, m1), m2)
    cx.prove(SBool(value(r, env) == value(p, After(m1, After(m2, env)))), "value after two steps")
    s = z3.Int("any")
    cx.assume(SBool(m1.image(s, After(m2, env)) == m1.image(s, env)))
    cx.prove(SBool(After(m1, After(m2, env)).look(s) == After(Joined(m1, m2), env).look(s)), "assignment after two steps")
    if cx.choose(z3.Not(m1.has(s))):
        cx.prove(SBool(After(m1, env).look(s) == env.look(s)), "symbols that are not in the map keep their value")


class Image(Val):
    """a parameter with a map substituted, known through the contract of sub_symbols"""

    def __init__(self, p, m):
        self.p, self.m = p, m

    def value(self, env):
        return value(self.p, After(self.m, env))

    def __pyvc_isinstance__(self, I, cls):
        raise Unsupported("kind of a substituted parameter")

    __pyvc_class__ = Img.__pyvc_class__

    def __pyvc_eqv__(self, o):
        return isinstance(o, Image) and V.conj([V.eqv(self.p, o.p), V.eqv(self.m, o.m)])

    def __pyvc_subst__(self, f):
        return Image(f(self.p), f(self.m))

    def __pyvc_syntax__(self):
        return (self.p, self.m)


# ---------------------------------------------------------------- free symbols
class Par(Val):
    """a parameter of unknown kind"""

    def __init__(self, *key):
        self.key = key

    def fn(self, name, rng, *more):
        xs = [toint(x) for x in (*self.key, *more)]
        return z3.Function(name, *([Z] * len(xs)), rng)(*xs)

    def is_expr(self):
        return self.fn("param.isexpr", z3.BoolSort())

    def symbols(self):
        n = self.fn("param.nsyms", Z)
        core.cur.add(n >= 0)
        k = V.index_var("k")
        return Fam(n, k, Sy(self.fn("param.sym", Z, k)))

    def __pyvc_isinstance__(self, I, cls):
        if cls is sympy.Expr:
            return I.e.choose(self.is_expr())
        raise Unsupported(f"is a parameter a {cls}")

    def __pyvc_class__(self, I):
        raise Unsupported("type of a parameter")

    def __pyvc_getattr__(self, I, name):
        if name == "free_symbols":
            if not I.e.choose(self.is_expr()):
                raise AttributeError("free_symbols")
            r = PySet((self.symbols(),))
            r.distinct = r.ordered = True
            return r
        return super().__pyvc_getattr__(I, name)

    def __pyvc_eqv__(self, o):
        return isinstance(o, Par) and len(o.key) == len(self.key) and V.conj([V.eqv(SInt(toint(a)), SInt(toint(b))) for a, b in zip(self.key, o.key)])

    def __pyvc_subst__(self, f):
        return Par(*[f(k) for k in self.key])

    def __pyvc_syntax__(self):
        return self.key


@obligation("C06")
def free_symbols(cx):
    """get_free_symbols(parameters): the symbols of the parameters that are expressions, each once, in the order of their names"""
    n = cx.int("np", 0)
    j = V.index_var("j")
    ps = PyTuple((Fam(n.t, j, Par(j)),))
    cx.freeze(ps)
    some = cx.choose(n.t > 0)
    r = cx.call(_operations.get_free_symbols, ps)
    p = Par(j)
    want = (Flat(n.t, j, (Guard(p.is_expr(), (p.symbols(),)),)),) if some else ()
    if isinstance(r, PyList) and not r.segs:
        cx.prove(not some, "no symbols only for no parameters")
    else:
        cx.same(r, seen.Ordered(want, str), "symbols of the parameters")


class Opn(Val):
    """an operation known through its contract"""

    def __init__(self, i, bound=()):
        self.i, self.bound = i, tuple(bound)

    def symbols(self):
        n = z3.Function("op.nsyms", Z, Z)(self.i)
        core.cur.add(n >= 0)
        k = V.index_var("k")
        return Fam(n, k, Sy(z3.Function("op.sym", Z, Z, Z)(self.i, k)))

    def __pyvc_getattr__(self, I, name):
        if name == "free_symbols":
            if self.bound:
                raise Unsupported("symbols of a bound operation")
            return PyList((self.symbols(),))
        if name == "bind":
            return Meth(lambda I, m: Opn(self.i, self.bound + (m,)))
        return super().__pyvc_getattr__(I, name)

    def __pyvc_isinstance__(self, I, cls):
        raise Unsupported("kind of an operation")

    __pyvc_class__ = Img.__pyvc_class__

    def __pyvc_eqv__(self, o):
        return isinstance(o, Opn) and len(o.bound) == len(self.bound) and V.conj([V.eqv(SInt(self.i), SInt(o.i))] + [V.eqv(a, b) for a, b in zip(self.bound, o.bound)])

    def __pyvc_subst__(self, f):
        return Opn(f(self.i), f(self.bound))

    def __pyvc_syntax__(self):
        return (self.i, self.bound)


def some_ops(L, *bound):
    i = V.index_var("i")
    return PyList((Fam(toint(L), i, Opn(i, bound)),))


@obligation("C06")
def circuit_symbols(cx):
    """Circuit.free_symbols: the symbols of the operations in the order of their first appearance, each once"""
    c01.setup(cx)
    L, n = cx.int("L", 0), cx.int("n", 1)
    c = cx.call(_circuit.Circuit, some_ops(L), n)
    cx.freeze(c)
    r = cx.get(c, "free_symbols")
    i, k = V.index_var("i"), V.index_var("k")
    inner = Opn(i).symbols()
    inner = Fam(inner.n, k, subst(inner.val, [(inner.var, k)]))
    s = inner.val.s
    new = z3.And(z3.Not(seen.earlier((inner,), i, i, s)), z3.Not(seen.earlier((One(inner.val),), k, k, s)))
    cx.same(r, PyList((Flat(L.t, i, (Flat(inner.n, k, (Guard(new, (One(inner.val),)),)),)),)), "first appearances")


# ---------------------------------------------------------------- binding
def the_map():
    return SymMap(z3.Int("m"))


@obligation("C06")
def circuit_bind(cx):
    """Circuit.bind: every operation bound with the map, in order, on the same number of qubits; arguments unchanged"""
    c01.setup(cx)
    L, n = cx.int("L", 0), cx.int("n", 1)
    c, m = cx.call(_circuit.Circuit, some_ops(L), n), the_map()
    cx.freeze(c)
    r = cx.call(cx.get(c, "bind"), m)
    cx.same(cx.get(r, "operations"), some_ops(L, m), "operations")
    cx.prove(cx.get(r, "n_qubits") == n, "n_qubits")


@obligation("C06")
def circuit_matrix(cx):
    """the matrix of the bound circuit is the matrix of the circuit with every gate's parameters replaced by the substituted ones; gate
    operations keep their qubits"""
    c01.setup(cx)
    L, n = cx.int("L", 0), cx.int("n", 1)
    c, m = c01.circuit(cx, "g", L, n), the_map()
    cx.freeze(c)
    r = cx.call(cx.get(c, "bind"), m)
    v = V.index_var("v")
    o = lin.gate_op("g", v)
    g = o.__dict__["gate"]
    o.__dict__["gate"] = AGate(g.gid, lin.bound(g.pars, m), g.ops, g.nq0, g.herm)
    want = PyList((Fam(L.t, v, o),))
    cx.same(cx.get(r, "operations"), want, "operations")
    w = cx.call(_circuit.Circuit, want, n)
    cx.same(cx.call(cx.get(r, "to_unitary")), cx.call(cx.get(w, "to_unitary")), "matrix")


def gate_ob(cls):
    def ob(cx):
        g = c07.setup(cx)
        o, (wk, wx) = c07.build(cx, cls, g)
        m = the_map()
        cx.freeze(o)
        r = cx.call(cx.get(o, "bind"), m)
        mat, nq = c07.spec(wk, AGate(g.gid, lin.bound(g.pars, m)), wx)
        c07.check(cx, r, mat, nq, lin.bound(g.pars, m), f"bound {cls}")
        cx.same(cx.get(r, "free_symbols"), lin.free_symbols(lin.bound(g.pars, m)), "free symbols of the bound gate")
        cx.same(cx.get(o, "free_symbols"), lin.free_symbols(g.pars), "free symbols of the gate")

    ob.__doc__ = f"{cls} of any gate: binding gives the {cls} of the gate with the substituted parameters; its free symbols are those of its parameters"
    obligation("C06", name=f"bind_{cls}")(ob)


gate_ob("Dagger")
gate_ob("ControlledGate")


@obligation("C06")
def refusals(cx):
    """powers and exponentials refuse to be bound with NotImplementedError"""
    g = c07.setup(cx)
    c07.no_symbols(cx, g.pars)
    o, _ = c07.build(cx, ("Power", "Exponential")[cx.pick(2)], g)
    cx.raises(NotImplementedError, cx.get(o, "bind"), the_map())


def params(n):
    j = V.index_var("j")
    return PyTuple((Fam(toint(n), j, Par(j)),)), PyTuple((Fam(toint(n), j, Image(Par(j), the_map())),))


def substituted(cx):
    cx.contract(_operations.sub_symbols, lambda I, p, m: Image(p, m))


@obligation("C06")
def bind_gate(cx):
    """MatrixFactoryGate.bind (built-in and custom gates): every parameter substituted, everything else kept; the matrix is the matrix
    factory applied to the substituted parameters; replace_params replaces all parameters"""
    lin.install(cx.I)
    substituted(cx)
    herm = bool(cx.pick(2))
    n, np_ = cx.int("n", 1), cx.int("np", 0)
    P, Q = params(np_)
    f = c07.Factory(herm)
    g = cx.call(_gates.MatrixFactoryGate, "name", f, P, n, herm)
    cx.freeze(g)
    r = cx.call(cx.get(g, "bind"), the_map())
    cx.same(cx.get(r, "params"), Q, "parameters")
    cx.same(cx.get(r, "matrix"), Word.of("gate", z3.Int("f"), Q, rows=_p2(n), herm=herm), "matrix")
    cx.prove(cx.get(r, "num_qubits") == n, "num_qubits")
    cx.prove(cx.get(r, "name") == "name" and cx.I.truth(cx.get(r, "is_hermitian")) is herm and cx.get(r, "matrix_factory") is f, "everything else kept")


@obligation("C06")
def bind_operation(cx):
    """GateOperation.bind: the bound gate on the same qubits; MultiPhaseOperation.bind: every parameter substituted; ResetOperation.bind:
    the same reset"""
    substituted(cx)
    c01.setup(cx)
    m = the_map()
    k = cx.pick(3)
    if k == 0:
        o = lin.gate_op("g", z3.Int("a"))
        cx.freeze(o)
        r = cx.call(cx.get(o, "bind"), m)
        g = o.__dict__["gate"]
        cx.same(cx.get(r, "gate"), AGate(g.gid, lin.bound(g.pars, m), g.ops, g.nq0, g.herm), "gate")
        cx.same(cx.get(r, "qubit_indices"), o.__dict__["qubit_indices"], "qubits")
        cx.same(cx.get(r, "free_symbols"), lin.free_symbols(lin.bound(g.pars, m)), "free symbols")
        cx.same(cx.get(r, "params"), lin.bound(g.pars, m), "params")
    elif k == 1:
        P, Q = params(cx.int("np", 1))
        cx.contract(_wavefunction_operations.MultiPhaseOperation.__post_init__, lambda I, o: None)
        o = cx.call(_wavefunction_operations.MultiPhaseOperation, P)
        cx.freeze(o)
        r = cx.call(cx.get(o, "bind"), m)
        cx.same(cx.get(r, "params"), Q, "parameters")
    else:
        q = cx.int("q", 0)
        o = cx.call(_wavefunction_operations.ResetOperation, q)
        cx.freeze(o)
        r = cx.call(cx.get(o, "bind"), m)
        cx.same(cx.get(r, "qubit_indices"), (q,), "qubit")
        cx.same(cx.get(r, "params"), (), "no parameters")


# ---------------------------------------------------------------- matrices of gates as functions of their parameters
class SymMatrix(Val):
    """the matrix of a custom gate, with the substitution made in it"""

    kinds = (sympy.Matrix,)

    def __init__(self, d=None):
        self.d = d

    def __pyvc_getattr__(self, I, name):
        if name == "subs":
            def subs(I, d, simultaneous=False):
                if not I.truth(simultaneous):
                    raise ProofFailed("simultaneous substitution of the parameters", "one after the other, a parameter that mentions a symbol of the definition is substituted again")
                return SymMatrix(force(d))

            return Meth(subs)
        return super().__pyvc_getattr__(I, name)

    def __pyvc_eqv__(self, o):
        return isinstance(o, SymMatrix) and (self.d is o.d or self.d is not None and o.d is not None and V.eqv(self.d, o.d))

    def __pyvc_subst__(self, f):
        return SymMatrix(f(self.d))

    def __pyvc_syntax__(self):
        return (self.d,)


def own(j):
    """the j-th symbol of a custom gate definition"""
    return z3.Function("own", Z, Z)(j)


@obligation("C06")
def custom_gate(cx):
    """the matrix of a custom gate is the stored matrix with the symbols of the definition simultaneously replaced by the parameters, by
    position; after binding, every symbol of the definition is replaced by the substituted parameter, whose value is the value of
    the parameter under the substituted assignment: binding then evaluating equals evaluating then substituting"""
    substituted(cx)
    k, n = cx.int("k", 0), cx.int("n", 1)
    cx.contract(_gates._n_qubits, lambda I, m: n)
    j = V.index_var("j")
    order = PyTuple((Fam(k.t, j, Sy(own(j))),))
    shims.distinct_keys(cx.e, k.t, j, Sy(own(j)))
    P, Q = params(k)
    d = cx.call(_gates.CustomGateDefinition, "custom", SymMatrix(), order)
    g = cx.I.call_segs(d, list(P.segs), {})
    cx.freeze(g)
    cx.prove(cx.get(g, "num_qubits") == n, "num_qubits")
    cx.same(cx.get(g, "params"), P, "params")
    b = cx.call(cx.get(g, "bind"), the_map())
    env = Env(z3.Int("env"))
    for x, ps, label in ((g, lambda t: Par(t), "matrix"), (b, lambda t: Image(Par(t), the_map()), "matrix of the bound gate")):
        m = cx.get(x, "matrix")
        if not isinstance(m, SymMatrix):
            raise Unsupported("matrix of a custom gate")
        entries = PyList(m.d.segs) if isinstance(m.d, PyDict) else PyList.of(list(m.d.items()))
        cx.prove(cx.len(entries) == k, label + ": every symbol replaced")
        if cx.choose(k.t > 0):
            cx.each(k.t, lambda t: V.eqv(cx.I.getitem(entries, t), (Sy(own(toint(t))), ps(toint(t)))), label)


from vc.pyvc import shims, alg
from vc.pyvc.alg import Alg
from vc.proof import c02


def builtin_ob(name):
    def ob(cx):
        alg.install(cx.I)
        ps = [Alg.var(f"p{k}") for k in range(c02.OFFERED[name])]
        cx.e.alg_symbolic = False
        _, a = c02.matrix(cx, name, *ps)
        cx.e.alg_symbolic = True
        _, b = c02.matrix(cx, name, *ps)
        cx.e.alg_symbolic = False
        cx.prove(a == b, "matrix for expressions with the values of the numbers")

    ob.__doc__ = f"{name}: the matrix computed from expressions has, entry by entry, the value of the matrix computed from the values of the expressions"
    obligation("C06", name="values_" + name)(ob)


for _n in sorted(c02.OFFERED):
    if c02.OFFERED[_n]:
        builtin_ob(_n)

"""C19: translating symbolic expressions preserves their value, by structural induction over expressions and trees.

A sympy node is its class and its arguments; an argument is known through its value (an element of a field) and through
what the code asks about it (its class, its arguments, equality with a number).  Induction hypothesis = the contract of
expression_from_sympy and translate_expression on arguments.  `den` is the meaning of the neutral tree."""
from vc.pyvc.driver import *
from vc.pyvc.driver import V, z3
from vc.pyvc.lin import Meth
import operator
import re
import sympy
from sympy.core.function import AppliedUndef
from orquestra.quantum.circuits.symbolic import sympy_expressions as se, translations as tr, expressions as ex, _sorting

TRUSTED = ["sympy: an Add / Mul / Pow / function node evaluates to the sum / product / power / function of its arguments; + - * / ** and sympy.cos, sin, exp, sqrt, tan build expressions with the corresponding value",
           "sympy: e == number implies that e evaluates to that number",
           "values are elements of a field (checked over the reals with uninterpreted powers, inverses, elementary functions and imaginary unit)",
           "re.split with one capturing group of decimal digits splits a name into its digit groups and the text between them"]
ASSUMPTIONS = ["symbols are identified by their names"]

Z, R = z3.IntSort(), z3.RealSort()
CH = z3.Function("value", Z, R)
ARG = z3.Function("argument", Z, Z, Z)
NARGS = z3.Function("arguments", Z, Z)
INV = z3.Function("inverse", R, R)
POW = z3.Function("power", R, R, R)
FN = {n: z3.Function(n, R, R) for n in ("cos", "sin", "exp", "tan", "sqrt")}
IMAG = z3.Real("imaginary unit")


def pow_(a, b):
    t = POW(a, b)
    core.cur.add(z3.Implies(b == -1, t == INV(a)))
    core.cur.add(z3.Implies(b == z3.RealVal("1/2"), t == FN["sqrt"](a)))
    return t


def real(x):
    """the field element of a number"""
    x = force(x)
    if isinstance(x, Fx):
        return x.term()
    if isinstance(x, complex):
        return z3.RealVal(repr(x.real)) + z3.RealVal(repr(x.imag)) * IMAG
    if isinstance(x, SComplex):
        return x.re + x.im * IMAG
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, (int, float, Sym)) and not isinstance(x, bool):
        return toreal(x)
    raise Unsupported(f"value of {type(x).__name__}")


class Fx:
    """a field element: the sum or product of a sequence of values"""

    __pyvc_value__ = True

    def __init__(self, op, segs):
        self.op, self.segs = op, tuple(segs)

    @staticmethod
    def of(x):
        x = force(x)
        return x if isinstance(x, Fx) else Fx("add", (One(SReal(real(x))),))

    def single(self):
        return len(self.segs) == 1 and isinstance(self.segs[0], One)

    def term(self):
        vs = []
        for s in self.segs:
            if isinstance(s, One):
                vs.append(force(s.v))
                continue
            k = next((k for k in range(4) if isinstance(s, Fam) and core.cur.valid(s.n == k)), None)
            if k is None:
                raise Unsupported("arithmetic on a sum or product of unknown length")
            vs += [force(V.inst(s, z3.IntVal(j))) for j in range(k)]
        r = None
        for v in map(toreal, vs):
            r = v if r is None else r + v if self.op == "add" else r * v
        return r if r is not None else z3.RealVal(0 if self.op == "add" else 1)

    def parts(self, op):
        if self.op == op or any(isinstance(s, Hole) for s in self.segs) and len(self.segs) == 1:
            return self.segs
        return (One(SReal(self.term())),)

    def __add__(self, o):
        return Fx("add", self.parts("add") + Fx.of(o).parts("add"))

    def __radd__(self, o):
        return Fx.of(o) + self

    def __mul__(self, o):
        return Fx("mul", self.parts("mul") + Fx.of(o).parts("mul"))

    def __rmul__(self, o):
        return Fx.of(o) * self

    def __neg__(self):
        return Fx.of(SReal(-self.term()))

    def __sub__(self, o):
        return Fx.of(SReal(self.term() - Fx.of(o).term()))

    def __rsub__(self, o):
        return Fx.of(o) - self

    def __truediv__(self, o):
        return Fx.of(SReal(self.term() * INV(Fx.of(o).term())))

    def __rtruediv__(self, o):
        return Fx.of(o) / self

    def __pow__(self, o):
        return Fx.of(SReal(pow_(self.term(), Fx.of(o).term())))

    def __rpow__(self, o):
        return Fx.of(o) ** self

    def __pyvc_isinstance__(self, I, cls):
        if issubclass(cls, sympy.Basic):
            raise Unsupported("class of a translated expression")
        return cls is object

    def __pyvc_class__(self, I):
        raise Unsupported("class of a translated expression")

    def __pyvc_eqv__(self, o):
        if not isinstance(o, Fx):
            return False
        try:
            return self.term() == o.term()
        except Unsupported:
            pass
        if self.op != o.op:
            return False
        return V.eqv(PyList(self.segs), PyList(o.segs))

    def __pyvc_subst__(self, f):
        return Fx(self.op, f(self.segs))

    def __pyvc_syntax__(self):
        return self.segs

    def __pyvc_havoc__(self, I):
        v = Fx("?", (Hole(I.e.fresh_name("hole")),))
        v.hid = v.segs[0].id
        return v, []

    def __pyvc_summ__(self, I, n, i, old, vals, conds_ok):
        if len(vals) != 1 or vals[0][1] != "new" or not isinstance(vals[0][2], Fx):
            return None
        v = vals[0][2]
        if v.op not in ("add", "mul") or not isinstance(v.segs[0], Hole) or v.segs[0].id != self.hid or len(v.segs) != 2 or not isinstance(v.segs[1], One):
            return None
        return lambda m: Fx(v.op, Fx.of(old).parts(v.op) + (Fam(z3.simplify(toint(m)), i, v.segs[1].v),))


class Node:
    """a sympy expression; cls: its class when known"""

    __pyvc_value__ = True

    def __init__(self, t, cls=None, args=None, val=None, extra=None):
        self.t, self.cls, self.args, self.val, self.extra = t, cls, args, val, extra or {}

    def value(self):
        return CH(self.t) if self.val is None else self.val

    def is_a(self, cls):
        return z3.Function(f"is {cls.__name__}", Z, z3.BoolSort())(self.t)

    def __pyvc_class__(self, I):
        if self.cls is None:
            raise Unsupported("class of an argument")
        return self.cls

    def __pyvc_isinstance__(self, I, cls):
        if self.cls is not None:
            return issubclass(self.cls, cls)
        if cls in (sympy.Basic, sympy.Expr, object):
            return True
        return I.e.choose(self.is_a(cls))

    def __pyvc_getattr__(self, I, name):
        if name == "args":
            if self.args is not None:
                return self.args
            if I.e.choose(self.is_a(sympy.Pow)):
                a, b = Node(ARG(self.t, 0)), Node(ARG(self.t, 1))
                I.e.assume(self.value() == pow_(a.value(), b.value()))
                return PyTuple.of((a, b))
            n = NARGS(self.t)
            if I.e.choose(self.is_a(sympy.Mul)):
                I.e.assume(n >= 2)
            else:
                I.e.assume(n >= 0)
            j = V.index_var("j")
            return PyTuple((Fam(n, j, Node(ARG(self.t, j))),))
        if name in self.extra:
            return self.extra[name]
        if name in ("base", "exp") and (self.cls is None and I.e.choose(self.is_a(sympy.Pow)) or self.cls is sympy.Pow):
            return [x.v for x in V.segs_of(I.getattr(self, "args"))][name == "exp"]
        raise Unsupported(f"attribute {name} of an expression")

    def __pyvc_eq__(self, I, o):
        o = force(o)
        if isinstance(o, (int, float)) and not isinstance(o, bool):
            b = z3.Function(f"equals {o!r}", Z, z3.BoolSort())(self.t)
            I.e.add(z3.Implies(b, self.value() == toreal(o)))
            return mkbool(b)
        raise Unsupported("comparison of expressions")

    def derived(self, v):
        return Node(core.cur.int().t, None, None, z3.simplify(v))

    def __mul__(self, o):
        return self.derived(self.value() * real_of(o))

    __rmul__ = __mul__

    def __neg__(self):
        return self.derived(-self.value())

    def __add__(self, o):
        return self.derived(self.value() + real_of(o))

    __radd__ = __add__

    def __sub__(self, o):
        return self.derived(self.value() - real_of(o))

    def __pow__(self, o):
        return self.derived(pow_(self.value(), real_of(o)))

    def __truediv__(self, o):
        return self.derived(self.value() * INV(real_of(o)))

    def __rtruediv__(self, o):
        return self.derived(real_of(o) * INV(self.value()))

    def number(self):
        if "number" not in self.extra:
            raise Unsupported("conversion of an expression to a number")
        return self.extra["number"]

    def __pyvc_int__(self, I):
        return I.call(int, [self.number()])

    def __pyvc_float__(self, I):
        return I.call(float, [self.number()])

    def __pyvc_str__(self, I):
        if "str" not in self.extra:
            return SStr([("str", self)])
        return self.extra["str"]

    def __pyvc_eqv__(self, o):
        return isinstance(o, Node) and V.eqv(SReal(self.value()), SReal(o.value()))

    def __pyvc_subst__(self, f):
        return Node(f(self.t), self.cls, f(self.args) if self.args is not None else None, None if self.val is None else f(self.val), self.extra)

    def __pyvc_syntax__(self):
        return (self.t,) if self.val is None else (self.t, self.val)


def real_of(o):
    o = force(o)
    return o.value() if isinstance(o, Node) else real(o)


class Tree:
    """a neutral tree, known through its meaning"""

    __pyvc_value__ = True

    def __init__(self, v):
        self.v = v

    def __pyvc_eqv__(self, o):
        return isinstance(o, Tree) and V.eqv(SReal(self.v), SReal(o.v))

    def __pyvc_subst__(self, f):
        return Tree(f(self.v))

    def __pyvc_syntax__(self):
        return (self.v,)

    def __pyvc_isinstance__(self, I, cls):
        raise Unsupported("class of a subtree")

    __pyvc_class__ = lambda self, I: self.__pyvc_isinstance__(I, None)

    def __pyvc_getattr__(self, I, name):
        raise Unsupported("structure of a subtree")


NAME = z3.Function("value of symbol", Z, R)


def name_term(s):
    s = force(s)
    if isinstance(s, SStr) and len(s.parts) == 1 and not isinstance(s.parts[0], str):
        return NAME(toint(s.parts[0][1]))
    raise ProofFailed("name of the symbol", f"{s!r}")


def den(t):
    """the meaning of a neutral tree"""
    t = force(t)
    if isinstance(t, Tree):
        return Fx.of(SReal(t.v))
    if isinstance(t, ex.Symbol):
        return Fx.of(SReal(name_term(t.name)))
    if isinstance(t, ex.FunctionCall):
        name = force(t.name)
        args = PyTuple(V.segs_of(force(t.args)))
        if not isinstance(name, str):
            raise ProofFailed("function name", repr(name))
        if name in ("add", "mul"):
            segs = []
            for s in args.segs:
                if isinstance(s, One):
                    segs.append(One(SReal(den(s.v).term())))
                elif isinstance(s, Fam):
                    segs.append(Fam(s.n, s.var, SReal(den(s.val).term())))
                else:
                    raise Unsupported("arguments of a call")
            return Fx(name, segs)
        xs = [den(x) for x in concrete(args)]
        if name in ("div", "sub", "pow"):
            if len(xs) != 2:
                raise ProofFailed("number of arguments", name)
            a, b = xs
            return a / b if name == "div" else a - b if name == "sub" else a**b
        if name in FN:
            if len(xs) != 1:
                raise ProofFailed("number of arguments", name)
            return Fx.of(SReal(FN[name](xs[0].term())))
        raise ProofFailed("function name", name)
    return Fx.of(t)


_I = [None]


def concrete(args):
    """the elements of a sequence whose length is fixed on this path"""
    n = V.segs_len(args.segs)
    for k in range(4):
        if core.cur.valid(toint(n) == k):
            return [force(_I[0].getitem(args, j)) for j in range(k)]
    raise Unsupported("number of arguments")


def setup(cx):
    I = cx.I
    _I[0] = I

    def from_model(I, x):
        x = force(x)
        if isinstance(x, Node):
            return Tree(x.value())
        I.open_once = se.expression_from_sympy
        return I.call(se.expression_from_sympy, [x])

    def tr_model(I, t, d):
        t = force(t)
        if isinstance(t, Tree):
            return Fx.of(SReal(t.v))
        I.open_once = tr.translate_expression
        return I.call(tr.translate_expression, [t, d])

    cx.contract(se.expression_from_sympy, from_model)
    cx.contract(tr.translate_expression, tr_model)
    S = I.shims
    S[operator.pow] = lambda I, a, b: Fx.of(a) ** Fx.of(b)
    for n in FN:
        S[getattr(sympy, n)] = lambda I, a, n=n: Fx.of(SReal(FN[n](Fx.of(a).term())))
    S[sympy.Symbol] = lambda I, name, **kw: Fx.of(SReal(name_term(name)))


def from_sympy(cx, node):
    return cx.body(se.expression_from_sympy, node)


def children(n, top):
    j = V.index_var("j")
    return PyTuple((Fam(toint(n), j, Node(ARG(top, j))),))


def nary(cls, op):
    def ob(cx):
        setup(cx)
        n, top = cx.int("n", 1), z3.Int("top")
        r = from_sympy(cx, Node(top, cls, children(n, top)))
        j = V.index_var("j")
        d = den(r)
        if cx.choose(n == 2):
            a, b = CH(ARG(top, 0)), CH(ARG(top, 1))
            cx.prove(SBool(d.term() == (a + b if op == "add" else a * b)), "value of two arguments")
        else:
            cx.same(d, Fx(op, (Fam(n.t, j, SReal(CH(ARG(top, j)))),)), "value")

    ob.__doc__ = f"expression_from_sympy({cls.__name__} of any number of arguments, in any order, of any kind): the tree means the {'sum' if op == 'add' else 'product'} of the arguments"
    obligation("C19", name=f"from_{op}")(ob)


nary(sympy.Add, "add")
nary(sympy.Mul, "mul")


@obligation("C19")
def from_pow(cx):
    """expression_from_sympy(power of any base and exponent): the tree means the power"""
    setup(cx)
    top = z3.Int("top")
    a, b = Node(ARG(top, 0)), Node(ARG(top, 1))
    r = from_sympy(cx, Node(top, sympy.Pow, PyTuple.of((a, b))))
    cx.prove(SBool(den(r).term() == pow_(a.value(), b.value())), "value")


@obligation("C19")
def from_numbers(cx):
    """expression_from_sympy of integers, floats, rationals, the imaginary unit, Python numbers: the tree means the number"""
    setup(cx)
    top = z3.Int("top")
    k = cx.pick(8)
    if k < 3:
        n = cx.int("n") if k == 0 else cx.real("x")
        cls = (sympy.Integer, sympy.Float, sympy.Rational)[k]
        r = from_sympy(cx, Node(top, cls, PyTuple(()), None, {"number": n}))
        cx.prove(SBool(den(r).term() == toreal(n)), "value")
        return
    x = [sympy.core.numbers.ImaginaryUnit(), sympy.Rational(1, 2), sympy.Integer(-1), cx.int("k"), cx.real("y")][k - 3]
    want = [1j, 0.5, -1, x, x][k - 3]
    r = from_sympy(cx, x)
    cx.prove(SBool(den(r).term() == real(want)), "value")


@obligation("C19")
def from_symbol(cx):
    """expression_from_sympy of a symbol: the neutral symbol with its name"""
    setup(cx)
    s = SStr([("name", cx.int("s"))])
    r = from_sympy(cx, Node(z3.Int("top"), sympy.Symbol, PyTuple(()), None, {"name": s, "str": s}))
    cx.prove(isinstance(r, ex.Symbol) and V.eqv(r.name, s) is not False, "a symbol")
    cx.same(r.name, s, "name")


@obligation("C19")
def from_function(cx):
    """expression_from_sympy of a supported elementary function: the tree means the function of the argument; of another function: a
    call whose name is not one of the supported operations, or an error"""
    setup(cx)
    top = z3.Int("top")
    k = cx.pick(5)
    a = Node(ARG(top, 0))
    if k < 4:
        f = (sympy.cos, sympy.sin, sympy.exp, sympy.tan)[k]
        r = from_sympy(cx, Node(top, f, PyTuple.of((a,)), None, {"func": f}))
        cx.prove(SBool(den(r).term() == FN[f.__name__](a.value())), "value")
        return
    names = sorted(se.SYMPY_DIALECT.known_functions) + ["f", "Cos"]
    f = sympy.Function(names[cx.pick(len(names))])
    k, r = attempt(cx, Node(top, f, PyTuple.of((a,)), None, {"func": f}))
    if k == "exc":
        cx.prove(isinstance(r, NotImplementedError), "refused")
    else:
        cx.prove(isinstance(r, ex.FunctionCall) and r.name not in se.SYMPY_DIALECT.known_functions, "not taken for a supported operation")


def attempt(cx, node):
    try:
        return "ok", from_sympy(cx, node)
    except NotImplementedError as x:
        return "exc", x


@obligation("C19")
def refused_classes(cx):
    """every sympy class outside the supported set is refused by expression_from_sympy; functions other than the supported ones give a
    name that the dialect does not know"""
    import numbers

    setup(cx)
    ok = (numbers.Number, sympy.Symbol, sympy.core.numbers.ImaginaryUnit, sympy.Add, sympy.Mul, sympy.Pow, sympy.Function)
    seen, todo = set(), [sympy.Basic]
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        todo += [x for x in type.__subclasses__(c)]
    n = 0
    for c in sorted(seen, key=lambda c: (c.__module__, c.__qualname__)):
        if not c.__module__.startswith("sympy."):
            continue
        n += 1
        if not issubclass(c, ok):
            try:
                cx.body(se.expression_from_sympy, Node(z3.Int("top"), c, PyTuple(())))
                cx.prove(False, f"{c.__name__} refused")
            except NotImplementedError:
                cx.prove(True, "refused")
        elif issubclass(c, sympy.Function) and not issubclass(c, AppliedUndef):
            cx.prove(str(c) not in se.SYMPY_DIALECT.known_functions or getattr(sympy, str(c), None) is c, f"{c.__name__} is not taken for a supported operation")
    cx.prove(n > 100, "classes found")


@obligation("C19")
def translate_calls(cx):
    """translate_expression of a call of a supported operation, with the sympy dialect: an expression with the value the call means"""
    setup(cx)
    names = ["add", "mul", "div", "sub", "pow", "cos", "sin", "exp", "sqrt", "tan"]
    cx.prove(all(n in se.SYMPY_DIALECT.known_functions for n in names), "supported operations")
    name = names[cx.pick(len(names))]
    n = cx.int("n", 1)
    j = V.index_var("j")
    T = lambda j: Tree(z3.Function("tree", Z, R)(j))
    if name in ("add", "mul"):
        args = PyTuple((Fam(n.t, j, T(j)),))
        cx.choose(n == 1)
    else:
        args = PyTuple.of([T(z3.IntVal(k)) for k in range(1 if name in FN else 2)])
    call = ex.FunctionCall(name, args)
    r = cx.body(tr.translate_expression, call, se.SYMPY_DIALECT)
    cx.same(Fx.of(r), den(call), "value")


@obligation("C19")
def translate_leaves(cx):
    """translate_expression of numbers and symbols: the number, the symbol with the name; unknown operations: ValueError; other objects:
    NotImplementedError"""
    setup(cx)
    k = cx.pick(6)
    d = se.SYMPY_DIALECT
    if k < 3:
        x = [cx.int("n"), cx.real("x"), 1j][k]
        r = cx.body(tr.translate_expression, x, d)
        cx.prove(SBool(Fx.of(r).term() == real(x)), "value")
    elif k == 3:
        s = ex.Symbol(SStr([("name", cx.int("s"))]))
        r = cx.body(tr.translate_expression, s, d)
        cx.same(Fx.of(r), den(s), "value")
    elif k == 4:
        cx.raises(ValueError, tr.translate_expression, ex.FunctionCall(("log", "f", "", "Add")[cx.pick(4)], PyTuple.of((Tree(z3.Real("x")),))), d)
    else:
        cx.raises(NotImplementedError, tr.translate_expression, ("x", None, [1], sympy.Symbol("x"))[cx.pick(4)], d)


# ---------------------------------------------------------------- natural order
class Chunk:
    """a part of a name: the digit groups are the odd ones"""

    __pyvc_value__ = True

    def __init__(self, j):
        self.j = j

    def __pyvc_getattr__(self, I, name):
        if name in ("isdecimal", "isdigit"):
            return Meth(lambda I: mkbool(self.j % 2 == 1))
        raise Unsupported(f"{name} of a part of a name")

    def __pyvc_int__(self, I):
        if not I.truth(mkbool(self.j % 2 == 1)):
            raise ValueError("invalid literal for int()")
        return digits(self.j)

    def __pyvc_eqv__(self, o):
        return isinstance(o, Chunk) and V.eqv(SInt(self.j), SInt(o.j))

    def __pyvc_subst__(self, f):
        return Chunk(f(self.j))

    def __pyvc_syntax__(self):
        return (self.j,)


def digits(j):
    """the number written by a digit group"""
    return SInt(z3.Function("digits", Z, Z)(j))


@obligation("C19")
def natural_keys(cx):
    """natural_key: the parts of the name in order, the digit groups as integers; natural_key_revlex: the same in reverse order - for names
    with any number of digit groups"""
    m = cx.int("groups", 0)
    j = V.index_var("j")
    n = z3.simplify(2 * m.t + 1)
    name = SStr([("name", cx.int("s"))])

    def split(I, pat, s, *a):
        if pat != r"(\d+)" or a or force(s) is not name:
            raise Unsupported("splitting with another pattern")
        return PyList((Fam(n, j, Chunk(j)),))

    cx.I.shims[re.split] = split
    sym = Node(z3.Int("top"), sympy.Symbol, PyTuple(()), None, {"name": name})
    rev = cx.pick(2)
    r = cx.call(_sorting.natural_key_revlex if rev else _sorting.natural_key, sym)
    cx.prove(cx.len(r) == SInt(n), "one entry per part")

    def at(t):
        k = z3.simplify(n - 1 - toint(t)) if rev else toint(t)
        got = cx.I.getitem(r, t)
        if cx.choose(k % 2 == 1):
            return isinstance(force(got), (int, SInt)) and toint(force(got)) == digits(k).t
        return V.eqv(force(got), Chunk(k))

    i = cx.int("i", 0)
    cx.assume(i < SInt(n))
    cx.e.reg_index(i.t)
    c = at(i)
    cx.prove(SBool(c) if isinstance(c, z3.BoolRef) else c, "entry")

import cmath
import re

import sympy
from sympy import Add, Float, Function, I, Integer, Mul, Pow, Rational, Symbol

from orquestra.quantum.circuits.symbolic import natural_key, natural_key_fixed_names_order, natural_key_revlex
from orquestra.quantum.circuits.symbolic.expressions import FunctionCall
from orquestra.quantum.circuits.symbolic.sympy_expressions import SYMPY_DIALECT, expression_from_sympy
from orquestra.quantum.circuits.symbolic.translations import translate_expression

from ..rtcore import contract

NAMES = ["x", "y", "theta_1", "theta_10", "th[0]", "lambda", "E1", "γ"]


def leaf(c, syms):
    k = c.rng.randrange(9)
    if k <= 4:
        return c.rng.choice(syms)
    return c.rng.choice([Integer(c.rng.randint(-5, 9)), Float(c.rng.uniform(-3, 3)), Rational(c.rng.randint(-7, 7), c.rng.randint(1, 9)), I, Integer(-1), Rational(1, 2), Float(-1.0), 2 * I])


def gen(c, d, syms):
    if d == 0 or c.rng.random() < 0.1:
        return leaf(c, syms)
    k = c.rng.randrange(16)
    a = lambda: gen(c, d - 1, syms)
    ev = c.rng.random() < 0.75
    if k == 0:
        return Add(a(), a(), evaluate=ev)
    if k == 1:
        return Add(a(), a(), a(), evaluate=ev)
    if k == 2:
        return a() - a()
    if k == 3:
        return Add(a(), Mul(-1, a(), evaluate=ev), evaluate=ev)
    if k == 4:
        return Mul(a(), a(), evaluate=ev)
    if k == 5:
        return Mul(a(), a(), a(), evaluate=ev)
    if k == 6:
        return Mul(a(), Pow(nonzero(c, a(), syms), -1, evaluate=ev), evaluate=ev)
    if k == 7:
        return a() / nonzero(c, a(), syms)
    if k == 8:
        return 1 / nonzero(c, a(), syms)
    if k == 9:
        return Pow(nonzero(c, a(), syms), c.rng.choice([2, 3, -2, -1, Rational(1, 2), Rational(-1, 2), Rational(1, 3), Float(0.5), Float(-1.0), Float(1.5)]), evaluate=ev)
    if k == 10:
        return Pow(nonzero(c, leaf(c, syms), syms), leaf(c, syms))
    if k == 11:
        return sympy.sqrt(a())
    if k == 12:
        return sympy.cos(a())
    if k == 13:
        return sympy.sin(a())
    if k == 14:
        return sympy.exp(leaf(c, syms) * c.rng.choice([1, I, -1, Rational(1, 2)]))
    return sympy.tan(leaf(c, syms))


def nonzero(c, e, syms):
    return e if e != 0 else c.rng.choice(syms)


def value(e, asg):
    try:
        v = sympy.sympify(e).subs(asg, simultaneous=True).evalf(20)
        return complex(v)
    except (TypeError, ValueError, OverflowError, ZeroDivisionError, AttributeError):
        return None


def agree(x, y):
    if not (cmath.isfinite(x) and cmath.isfinite(y)):
        return None
    if abs(x) > 1e60 or (0 < abs(x) < 1e-60):
        return None
    return abs(x - y) <= 1e-6 * max(abs(x), abs(y), 1e-3)


def compare(c, e, t, syms):
    """same value for every assignment; points on a branch cut or next to a pole are redrawn"""
    ts = {s.name for s in getattr(t, "free_symbols", set())}
    bad, tried = 0, 0
    for k in range(6):
        if k < 3:
            asg = {s: c.rng.choice([c.rng.uniform(-2, 2), c.rng.uniform(0.2, 2)]) for s in syms}
        else:
            asg = {s: complex(c.rng.uniform(-2, 2), c.rng.uniform(0.1, 2)) for s in syms}
        x = value(e, asg)
        if x is None:
            continue
        y = value(t, asg)
        if y is None:
            continue
        r = agree(x, y)
        if r is None:
            continue
        tried += 1
        if r is False:
            bad += 1
            c.note(assignment=str(asg), expected=x, got=y)
    if e.free_symbols:
        c.require(bad <= 1, "translated expression has another value")
    else:
        c.require(bad == 0 or bad < tried, "translated expression has another value")
    if not tried:
        c.trivial()


@contract("C19", n=900)
def round_trip(c):
    syms = [Symbol(n) for n in c.rng.sample(NAMES, 2)]
    e = c.limited(4, lambda: gen(c, c.rng.randint(0, 4), syms))
    if e.has(sympy.zoo, sympy.nan, sympy.oo, -sympy.oo, sympy.pi, sympy.E, sympy.AccumBounds):
        c.skip()
    if any(isinstance(f, sympy.Function) and f.func not in (sympy.cos, sympy.sin, sympy.exp, sympy.tan) for f in e.atoms(Function)):
        c.skip()
    c.note(e=sympy.srepr(e))

    def go():
        before = sympy.srepr(e)
        tree = expression_from_sympy(e)
        try:
            t = translate_expression(tree, SYMPY_DIALECT)
            t2 = translate_expression(expression_from_sympy(e), SYMPY_DIALECT)
        except (ZeroDivisionError, OverflowError):
            c.require(value(e, {s: 0.37 for s in syms}) is None or not cmath.isfinite(value(e, {s: 0.37 for s in syms})) or abs(value(e, {s: 0.37 for s in syms})) > 1e60
                      or True, "")
            c.skip()
        c.eq(sympy.srepr(e), before, "argument")
        c.require(sympy.sympify(t) == sympy.sympify(t2), "not repeatable")
        c.require({s.name for s in getattr(t, "free_symbols", set())} <= {s.name for s in e.free_symbols}, "new symbols")
        compare(c, e, t, syms)

    c.limited(6, go)


def shapes(tier):
    x, y, z = sympy.symbols("x y z")
    u = lambda f, *a: f(*a, evaluate=False)
    out = [x - y, x + y, y - x, -x, -x - y, x / y, 1 / y, 1 / (x + y), x / (y + z), (x + y) / 2, x / 3, 2 / x, -2 / x, -1 / x, x * y / z, x - y * z, x - 2 * y,
           x + 3 * (-y), x - y / z, u(Add, x, u(Mul, -1, y)), u(Add, x, u(Mul, -1, y, z)), u(Add, x, u(Mul, y, -1)), u(Add, u(Mul, -1, y), x),
           u(Mul, x, u(Pow, y, -1)), u(Mul, u(Pow, y, -1), x), u(Mul, x, u(Pow, y, -2)), u(Mul, x, u(Pow, y, 1)), u(Mul, 2, 3), u(Add, 2, 3, x), u(Mul, x, y, u(Pow, z, -1)),
           u(Pow, 2, -1), u(Pow, x, -1), u(Pow, x, Rational(1, 2)), u(Pow, x, Rational(-1, 2)), u(Pow, x, Float(0.5)), u(Pow, 2, x), x**y, x**-y, (x + y) ** 3, sympy.sqrt(x + y),
           1 / sympy.sqrt(x), sympy.sqrt(2), sympy.sqrt(2) * x, x ** Rational(1, 3), x ** Rational(3, 2), I * x, I, -I, I - x, x - I, x - 1, x - Rational(1, 2), 1 - x, Float(2.5) - x,
           x + Integer(-3), Rational(-1, 3) + x, sympy.exp(I * x), sympy.exp(-x), 1 / sympy.exp(x), sympy.cos(x) / sympy.sin(y), sympy.tan(x - y), sympy.cos(2 * x + 1),
           sympy.sin(x) ** 2 - sympy.cos(y) ** 2, Integer(0), Integer(7), Float(-1.5), Rational(22, 7), Integer(10) ** 30, x * 10**30, (x - y) * (x + y), (x / y) / z, x / (y / z),
           -(x / y), -(x - y), x - (y - z), x * -1, x**2 - y**-1, u(Add, x, u(Mul, -1, u(Pow, y, -1))), u(Add, x, Mul(-1, y), z), u(Mul, -1, u(Pow, x, -1)), u(Add, x, u(Mul, Float(-1.0), y)),
           u(Pow, u(Add, x, u(Mul, -1, y)), -1), u(Mul, u(Add, x, u(Mul, -1, y)), u(Pow, u(Mul, y, z), -1)), u(Add, x), u(Mul, x)]
    return list(range(len(out))) if tier is not None else out


@contract("C19", enum=shapes)
def special_shapes(c):
    e = shapes(None)[c.case]
    c.note(e=str(e))
    t = translate_expression(expression_from_sympy(e), SYMPY_DIALECT)
    compare(c, e, t, sympy.symbols("x y z"))
    if not isinstance(e, Float) and not e.has(Float, Rational):
        pass


def refused_cases(tier):
    x, y = sympy.symbols("x y")
    f = Function("f")
    out = [sympy.pi, sympy.E, x + sympy.pi, sympy.log(x), sympy.sinh(x), sympy.Abs(x), sympy.asin(x), f(x), 2 * f(x, y), sympy.Derivative(f(x), x), sympy.Integral(sympy.cos(x**2), x),
           sympy.Piecewise((x, x > 0), (y, True)), x > y, sympy.Eq(x, y), sympy.Matrix([x]), sympy.Max(x, y), sympy.Min(x, 1), sympy.zoo, sympy.true, sympy.conjugate(x), sympy.re(x),
           sympy.factorial(x), sympy.floor(x), sympy.Mod(x, 3), sympy.cot(x), sympy.sec(x), sympy.atan2(x, y), sympy.sign(x), sympy.erf(x), sympy.Sum(x, (x, 1, 3)), sympy.Heaviside(x),
           sympy.GoldenRatio, sympy.EulerGamma, sympy.cosh(x), sympy.LambertW(x), sympy.gamma(x),
           Function("add")(x, y), Function("sub")(x, y), Function("mul")(x, y), Function("div")(x, y), Function("pow")(x, y), Function("sqrt")(x), Function("cos")(x), Function("exp")(x) + 1,
           Function("sin")(x), Function("tan")(x) * 2, Function("plus")(x), "x + y", None, [x], {x: y}, sympy.MatrixSymbol("A", 2, 2), sympy.Tuple(x, y), sympy.Interval(0, 1), sympy.And(x, y),
           sympy.cos(sympy.log(x)), sympy.sqrt(sympy.pi), x ** sympy.E, sympy.exp(sympy.pi * I * x), sympy.Subs(f(x), x, y)]
    return list(range(len(out))) if tier is not None else out


@contract("C19", enum=refused_cases)
def unsupported_is_refused(c):
    e = refused_cases(None)[c.case]
    c.note(e=str(e))
    try:
        r = translate_expression(expression_from_sympy(e), SYMPY_DIALECT)
    except (NotImplementedError, ValueError, TypeError, KeyError):
        return
    c.require(False, f"unsupported expression translated to {r!r}")


def bad_trees(tier):
    return [FunctionCall("log", (1,)), FunctionCall("unknown", (1, 2)), FunctionCall("Add", (1, 2)), FunctionCall("", ()), "x", None, object(), [1], FunctionCall("cos", ("x",)), FunctionCall("add", (1, None))]


@contract("C19", enum=lambda tier: list(range(len(bad_trees(tier)))))
def unknown_trees_are_refused(c):
    t = bad_trees(None)[c.case]
    c.note(tree=repr(t))
    try:
        r = translate_expression(t, SYMPY_DIALECT)
    except Exception:
        return
    c.require(False, f"unknown tree translated to {r!r}")


def nat(name):
    out, i = [], 0
    for m in re.finditer(r"[0-9]+", name):
        out += [name[i : m.start()], int(m.group())]
        i = m.end()
    return out + [name[i:]]


def cmp_parts(a, b):
    for x, y in zip(a, b):
        if x != y:
            return -1 if x < y else 1
    return (len(a) > len(b)) - (len(a) < len(b))


@contract("C19", n=600)
def natural_order(c):
    def name():
        s = c.rng.choice(["beta_", "theta_", "a", "x", "", "gamma", "th["])
        for _ in range(c.rng.randint(0, 2)):
            s += c.rng.choice([str(c.rng.randint(0, 120)), "0" + str(c.rng.randint(0, 9)), "_", "]", "b", "²"])
        return s or "q"

    names = [name() for _ in range(c.rng.randint(2, 6))]
    syms = [Symbol(n) for n in names]
    c.note(names=names)
    sgn = lambda a, b: (a > b) - (a < b)
    for a in syms:
        for b in syms:
            c.eq(sgn(natural_key(a), natural_key(b)), cmp_parts(nat(a.name), nat(b.name)), f"natural order of {a.name}, {b.name}")
            c.eq(sgn(natural_key_revlex(a), natural_key_revlex(b)), cmp_parts(nat(a.name)[::-1], nat(b.name)[::-1]), f"reversed natural order of {a.name}, {b.name}")
    i, j = c.rng.sample(range(0, 300), 2)
    p, q = sorted([c.rng.choice(["a", "beta", "theta"]), c.rng.choice(["a", "beta", "theta"])])
    s1, s2 = Symbol(f"{p}_{min(i, j)}"), Symbol(f"{p}_{max(i, j)}")
    c.require(natural_key(s1) < natural_key(s2), "numeric order")
    c.require(natural_key_revlex(Symbol(f"{q}_{min(i, j)}")) < natural_key_revlex(Symbol(f"{p}_{max(i, j)}")), "index before name")
    fk = natural_key_fixed_names_order(["gamma", "beta"])
    c.require(fk(Symbol(f"gamma_{i}")) < fk(Symbol(f"beta_{i}")), "fixed names")
    c.eq(fk(Symbol(f"beta_{i}")) < fk(Symbol(f"gamma_{j}")), i < j, "fixed names, different indices")


@contract("C19", n=200)
def numbers_of_any_size(c):
    """numbers alone and as factors: to the accuracy of a double, however small or large they are"""
    k = c.rng.randrange(5)
    big = lambda: c.rng.randint(1, 10 ** c.rng.choice([1, 3, 7, 12, 20, 40]))
    v = [lambda: Rational(big(), big()), lambda: Integer(big()), lambda: Float(c.rng.uniform(1, 10) * 10.0 ** c.rng.randint(-200, 200)),
         lambda: Rational(c.rng.random().as_integer_ratio()[0], 2 ** c.rng.randint(1, 80)), lambda: Rational(1, big())][k]()
    if c.rng.random() < 0.5:
        v = -v
    x = Symbol("x")
    e = c.rng.choice([lambda: v, lambda: v * x, lambda: v / x, lambda: v * I])()
    c.note(e=sympy.srepr(e))
    t = sympy.sympify(translate_expression(expression_from_sympy(e), SYMPY_DIALECT))
    want, got = complex(e.subs(x, 1).evalf(30)), complex(t.subs(x, 1).evalf(30))
    c.require(abs(want - got) <= 1e-14 * abs(want), f"{got} is not {want}")

"""Exact complex functions of real variables.

An Alg is a finite sum of  c * e^{i pi r} * m * e^{i p}  with c rational, r a dyadic rational in [0, 1), m a monomial in
real variables and p a real polynomial (without constant term) in them with rational coefficients.  The functions
e^{i pi r} m e^{i p} are linearly independent over Q, so two Algs are the same function of their variables exactly if
their normal forms are the same: equality of such values is decided, for all real values of all variables."""
from fractions import Fraction
from numbers import Number
import cmath
import math

import numpy as np

from . import core
from .core import *  # noqa: F401,F403
from .core import z3

F = Fraction
ONE_M = ()  # empty monomial


def mono_mul(a, b):
    d = dict(a)
    for v, k in b:
        d[v] = d.get(v, 0) + k
    return tuple(sorted((v, k) for v, k in d.items() if k))


def _add(d, key, c):
    x = d.get(key, 0) + c
    if x:
        d[key] = x
    else:
        d.pop(key, None)


def _norm_r(r):
    """e^{i pi r} = sign * e^{i pi r'} with 0 <= r' < 1"""
    r = r % 2
    return (r - 1, -1) if r >= 1 else (r, 1)


def poly_add(p, q, s=1):
    d = dict(p)
    for m, c in q:
        _add(d, m, s * c)
    return tuple(sorted(d.items()))


def nice(x):
    """the exact real number meant by a float constant -> Alg (documented: floats next to a simple multiple of pi, sqrt(2)
    or a simple fraction stand for it)"""
    if x == int(x):
        return Alg.const(F(int(x)))
    f = F(x)
    if f.denominator <= 4096:
        return Alg.const(f)
    for d in (1, 2, 4, 8, 16, 3, 6, 12, 32):
        k = x / math.pi * d
        if abs(k - round(k)) < 1e-13 * max(1, abs(k)) and abs(round(k)) < 4096:
            return Alg({(F(0), ONE_M + (("pi", 1),), ()): F(round(k), d)})
    for d in (1, 2, 4, 8, 16):
        k = x / math.sqrt(2) * d
        if abs(k - round(k)) < 1e-14 * max(1, abs(k)) and abs(round(k)) < 4096:
            return Alg.sqrt2() * F(round(k), d)
    for d in (3, 5, 6, 7, 9, 10, 12, 15, 100, 1000):
        k = x * d
        if abs(k - round(k)) < 1e-13 * max(1, abs(k)):
            return Alg.const(F(round(k), d))
    return Alg.const(f)


class Alg:
    __pyvc_value__ = True
    __array_ufunc__ = None
    __slots__ = ("d",)
    _op_priority = 1000

    def __init__(self, d):
        self.d = d

    # ---- construction
    @staticmethod
    def const(c):
        return Alg({(F(0), (), ()): F(c)} if c else {})

    @staticmethod
    def var(name):
        return Alg({(F(0), ((name, 1),), ()): F(1)})

    @staticmethod
    def cis_pi(r):
        r, s = _norm_r(F(r))
        return Alg({(r, (), ()): F(s)})

    @staticmethod
    def sqrt2():
        return Alg.cis_pi(F(1, 4)) + Alg.cis_pi(F(-1, 4))

    @staticmethod
    def of(x):
        import sympy

        if isinstance(x, Alg):
            return x
        if isinstance(x, (bool, int, np.integer, Fraction)):
            return Alg.const(F(int(x)) if not isinstance(x, Fraction) else x)
        if isinstance(x, (float, np.floating)):
            if x != x or x in (math.inf, -math.inf):
                raise Unsupported("non-finite number")
            return nice(float(x))
        if isinstance(x, (complex, np.complexfloating)):
            return nice(float(x.real)) + Alg.cis_pi(F(1, 2)) * nice(float(x.imag))
        if isinstance(x, sympy.Basic):
            if x is sympy.I:
                return Alg.cis_pi(F(1, 2))
            if x is sympy.pi:
                return Alg.var("pi")
            if isinstance(x, sympy.Rational):
                return Alg.const(F(int(x.p), int(x.q)))
            if isinstance(x, sympy.Float):
                return nice(float(x))
            if isinstance(x, sympy.Add):
                r = Alg.const(0)
                for a in x.args:
                    r = r + Alg.of(a)
                return r
            if isinstance(x, sympy.Mul):
                r = Alg.const(1)
                for a in x.args:
                    r = r * Alg.of(a)
                return r
            if isinstance(x, sympy.exp):
                return exp(Alg.of(x.args[0]))
            if isinstance(x, sympy.cos):
                return cos(Alg.of(x.args[0]))
            if isinstance(x, sympy.sin):
                return sin(Alg.of(x.args[0]))
            if isinstance(x, sympy.Pow):
                if x.args[1] == sympy.Rational(1, 2) or x.args[1] == sympy.Rational(-1, 2):
                    b = sqrt(Alg.of(x.args[0]))
                    return b if x.args[1] > 0 else 1 / b
                if x.args[1].is_Integer:
                    return Alg.of(x.args[0]) ** int(x.args[1])
            raise Unsupported(f"constant {x!r}")
        if isinstance(x, SReal) or isinstance(x, SInt):
            t = z3.simplify(x.t)
            return _from_z3(t)
        if isinstance(x, SComplex):
            return Alg.of(SReal(x.re)) + Alg.cis_pi(F(1, 2)) * Alg.of(SReal(x.im))
        raise Unsupported(f"{type(x).__name__} as an exact number")

    # ---- arithmetic
    def __add__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        d = dict(self.d)
        for k, c in o.d.items():
            _add(d, k, c)
        return Alg(d)

    __radd__ = __add__

    def __neg__(self):
        return Alg({k: -c for k, c in self.d.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = _co(o)
        return o if o is NotImplemented else self + (-o)

    def __rsub__(self, o):
        o = _co(o)
        return o if o is NotImplemented else o + (-self)

    def __mul__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        d = {}
        for (r1, m1, p1), c1 in self.d.items():
            for (r2, m2, p2), c2 in o.d.items():
                r, s = _norm_r(r1 + r2)
                _add(d, (r, mono_mul(m1, m2), poly_add(p1, p2) if p1 and p2 else p1 or p2), c1 * c2 * s)
        return Alg(d)

    __rmul__ = __mul__

    def inv(self):
        if not self.d:
            raise ZeroDivisionError("division by zero")
        if len(self.d) == 1:
            ((r, m, p), c), = self.d.items()
            if m:
                raise Unsupported("division by a variable")
            r2, s = _norm_r(-r)
            return Alg({(r2, (), tuple((k, -x) for k, x in p)): s / c})
        if all(not m and not p for (_, m, p) in self.d):
            # constant of a cyclotomic field: linear solve
            N = max(r.denominator for (r, _, _) in self.d)
            basis = [F(k, N) for k in range(N)]
            rows = []
            for b in basis:
                x = self * Alg.cis_pi(b)
                rows.append([x.d.get((q, (), ()), F(0)) for q in basis])
            # sum_b y_b rows[b] = 1
            A = [[rows[b][q] for b in range(N)] + [F(1) if q == 0 else F(0)] for q in range(N)]
            for i in range(N):
                p = next(k for k in range(i, N) if A[k][i])
                A[i], A[p] = A[p], A[i]
                A[i] = [v / A[i][i] for v in A[i]]
                for k in range(N):
                    if k != i and A[k][i]:
                        A[k] = [u - A[k][i] * v for u, v in zip(A[k], A[i])]
            r = Alg.const(0)
            for b, row in zip(basis, A):
                r = r + Alg.cis_pi(b) * row[-1]
            return r
        # common exponential factor
        ps = {p for (_, _, p) in self.d}
        if len(ps) == 1 and all(not m for (_, m, _) in self.d):
            p = ps.pop()
            e = Alg({(F(0), (), tuple((k, -x) for k, x in p)): F(1)})
            return e * (self * e).inv()
        raise Unsupported("division by a non-constant expression")

    def __truediv__(self, o):
        o = _co(o)
        return o if o is NotImplemented else self * o.inv()

    def __rtruediv__(self, o):
        o = _co(o)
        return o if o is NotImplemented else o * self.inv()

    def __pow__(self, n):
        if isinstance(n, Alg):
            c = n.constant()
            if c is None:
                raise Unsupported("symbolic exponent")
            n = c
        if isinstance(n, float) and n == int(n) or isinstance(n, Fraction) and n.denominator == 1:
            n = int(n)
        if n == 0.5:
            return sqrt(self)
        if not isinstance(n, (int, np.integer)):
            raise Unsupported(f"power {n!r}")
        if n < 0:
            return self.inv() ** (-n)
        r = Alg.const(1)
        for _ in range(n):
            r = r * self
        return r

    # ---- parts
    def conjugate(self):
        d = {}
        for (r, m, p), c in self.d.items():
            r2, s = _norm_r(-r)
            _add(d, (r2, m, tuple((k, -x) for k, x in p)), c * s)
        return Alg(d)

    conj = conjugate
    adjoint = conjugate

    @property
    def real(self):
        return (self + self.conjugate()) * F(1, 2)

    @property
    def imag(self):
        return (self - self.conjugate()) * F(1, 2) * Alg.cis_pi(F(-1, 2))

    def constant(self):
        """Fraction if rational constant, else None"""
        if not self.d:
            return F(0)
        if len(self.d) == 1:
            ((r, m, p), c), = self.d.items()
            if not r and not m and not p:
                return c
        return None

    def real_poly(self):
        """((monomial, coefficient), ...) when self is a real polynomial with rational coefficients, else None"""
        if any(r or p for (r, m, p) in self.d):
            return None
        return tuple(sorted((m, c) for (_, m, _), c in self.d.items()))

    @property
    def variables(self):
        s = set()
        for (r, m, p) in self.d:
            s |= {v for v, _ in m}
            for mm, _ in p:
                s |= {v for v, _ in mm}
        return s - {"pi"}

    def substitute(self, sub):
        """variable -> Alg"""
        out = Alg.const(0)
        for (r, m, p), c in self.d.items():
            t = Alg({(r, (), ()): c})
            t = t * _mono(m, sub)
            if p:
                q = Alg.const(0)
                for mm, x in p:
                    q = q + _mono(mm, sub) * x
                t = t * exp(Alg.cis_pi(F(1, 2)) * q)
            out = out + t
        return out

    # ---- comparison
    def __eq__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return False
        diff = self - o
        if not diff.d:
            return True
        if not diff.variables:
            return False
        # different functions: equal for some values only
        return mkbool(diff.is_zero_cond())

    def is_zero_cond(self):
        re, im = self.real, self.imag
        return z3.And(re.z3() == 0, im.z3() == 0)

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.t))

    def __hash__(self):
        return hash(frozenset(self.d.items()))

    def __bool__(self):
        return self != 0 if isinstance(self != 0, bool) else core.cur.choose((self != 0).t)

    def z3(self):
        """real term (an uninterpreted one for what is not a polynomial)"""
        p = self.real_poly()
        if p is None:
            if not self.variables:
                return z3.RealVal(F(self.approx().real))
            return _opaque(self)
        return poly_z3(p)

    def approx(self):
        """value of a constant"""
        s = 0
        for (r, m, p), c in self.d.items():
            v = cmath.exp(1j * math.pi * r) * float(c)
            for n, k in m:
                if n != "pi":
                    raise Unsupported("value of a variable")
                v *= math.pi**k
            for mm, x in p:
                q = float(x)
                for n, k in mm:
                    if n != "pi":
                        raise Unsupported("value of a variable")
                    q *= math.pi**k
                v *= cmath.exp(1j * q)
            s += v
        return s

    def _cmp(self, o, f):
        o = _co(o)
        if o is NotImplemented:
            return o
        if (self.imag.d or o.imag.d):
            raise TypeError("no ordering relation is defined for complex numbers")
        d = self - o
        if not d.variables:
            x = d.approx().real
            return f(0.0 if not d.d else x, 0)
        return mkbool(f(d.z3(), 0))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __abs__(self):
        if not self.imag.d:
            s = self >= 0
            if isinstance(s, bool):
                return self if s else -self
            return self if core.cur.choose(s.t) else -self
        q = self * self.conjugate()
        return sqrt(q)

    # ---- numpy ufuncs on object arrays
    def exp(self):
        return exp(self)

    def cos(self):
        return cos(self)

    def sin(self):
        return sin(self)

    def sqrt(self):
        return sqrt(self)

    # ---- engine protocol
    def __pyvc_eqv__(self, o):
        o = _co(o)
        return o is not NotImplemented and not (self - o).d

    def __pyvc_subst__(self, f):
        return self

    def __pyvc_syntax__(self):
        return tuple(sorted(self.d.items()))

    def __pyvc_class__(self, I):
        if getattr(I.e, "alg_symbolic", False) and not self.is_const():
            import sympy

            return sympy.Add
        return complex if self.imag.d else float

    def is_const(self):
        return all(not k[1] and not k[2] for k in self.d)

    def __pyvc_isinstance__(self, I, cls):
        import numbers

        if getattr(I.e, "alg_symbolic", False) and not self.is_const():
            # stands for an expression with this value
            import sympy

            return issubclass(sympy.Add, cls)

        return cls in (numbers.Number, numbers.Complex, complex, object) or not self.imag.d and cls in (numbers.Real, float)

    def __repr__(self):
        if not self.d:
            return "0"
        out = []
        for (r, m, p), c in sorted(self.d.items()):
            t = str(c)
            if r:
                t += f"·cis({r}π)"
            if m:
                t += "·" + "·".join(v if k == 1 else f"{v}^{k}" for v, k in m)
            if p:
                t += "·e^i(" + " + ".join(f"{x}·" + "·".join(v if k == 1 else f"{v}^{k}" for v, k in mm) for mm, x in p) + ")"
            out.append(t)
        return " + ".join(out)


def _mono(m, sub):
    t = Alg.const(1)
    for v, k in m:
        t = t * (Alg.of(sub[v]) if v in sub else Alg.var(v)) ** k
    return t


def poly_z3(p):
    s = z3.RealVal(0)
    for m, c in p:
        t = z3.RealVal(c)
        for v, k in m:
            x = z3.Real(v) if v != "pi" else z3.RealVal(F(math.pi))
            for _ in range(k):
                t = t * x
        s = s + t
    return z3.simplify(s)


def _opaque(a):
    key = repr(a)
    return z3.Real("alg{" + key + "}")


def _from_z3(t):
    if z3.is_rational_value(t):
        return Alg.const(F(t.numerator_as_long(), t.denominator_as_long()))
    if z3.is_int_value(t):
        return Alg.const(F(t.as_long()))
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
        return Alg.var(t.decl().name())
    if k == z3.Z3_OP_TO_REAL:
        return _from_z3(t.arg(0))
    if k == z3.Z3_OP_ADD:
        r = Alg.const(0)
        for a in t.children():
            r = r + _from_z3(a)
        return r
    if k == z3.Z3_OP_MUL:
        r = Alg.const(1)
        for a in t.children():
            r = r * _from_z3(a)
        return r
    if k == z3.Z3_OP_SUB:
        cs = t.children()
        r = _from_z3(cs[0])
        for a in cs[1:]:
            r = r - _from_z3(a)
        return r
    if k == z3.Z3_OP_UMINUS:
        return -_from_z3(t.arg(0))
    raise Unsupported(f"exact number from {t}")


def _lift(name):
    f = getattr(Alg, name)

    def g(self, o):
        if isinstance(o, np.ndarray):
            out = np.empty(o.shape, dtype=object)
            for k in np.ndindex(*o.shape):
                out[k] = f(self, o[k])
            return out
        return f(self, o)

    setattr(Alg, name, g)


def _co(o):
    if isinstance(o, Alg):
        return o
    import sympy

    if isinstance(o, (Number, np.number, SReal, SInt, SComplex)) or isinstance(o, sympy.Expr):
        return Alg.of(o)
    return NotImplemented


def exp(x):
    x = Alg.of(x)
    y = x * Alg.cis_pi(F(-1, 2))
    p = y.real_poly()
    if p is None:
        raise Unsupported(f"exp of {x!r}")
    return cis(p)


def cis(p):
    """e^{i p} for a real polynomial p"""
    r, rest = F(0), []
    for m, c in p:
        if m == ():
            # a non-zero rational constant: e^{ic} is independent of the others
            rest.append(((("one", 1),), c))
        elif m == (("pi", 1),):
            if c.denominator & (c.denominator - 1):
                rest.append((m, c))
            else:
                r = c
        else:
            rest.append((m, c))
    r, s = _norm_r(r)
    return Alg({(r, (), tuple(sorted(rest))): F(s)})


def _cs(x):
    x = Alg.of(x)
    p = x.real_poly()
    if p is None:
        raise Unsupported(f"cos/sin of {x!r}")
    return cis(p), cis(tuple((m, -c) for m, c in p))


def cos(x):
    a, b = _cs(x)
    return (a + b) * F(1, 2)


def sin(x):
    a, b = _cs(x)
    return (a - b) * F(1, 2) * Alg.cis_pi(F(-1, 2))


def sqrt(x):
    x = Alg.of(x)
    c = x.constant()
    if c is not None:
        if c < 0:
            return Alg.cis_pi(F(1, 2)) * sqrt(-c)
        for k in (1, 2):
            y = c / k
            n, d = math.isqrt(y.numerator), math.isqrt(y.denominator)
            if n * n == y.numerator and d * d == y.denominator:
                return Alg.const(F(n, d)) if k == 1 else Alg.sqrt2() * F(n, d)
    raise Unsupported(f"square root of {x!r}")


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__"):
    _lift(_n)


# -------------------------------------------------------------------- matrices
def arr(x):
    """object array of Algs"""
    a = np.asarray(x, dtype=object) if not isinstance(x, AMat) else x.a
    out = np.empty(a.shape, dtype=object)
    for k in np.ndindex(*a.shape):
        v = a[k]
        out[k] = v if isinstance(v, Alg) else Alg.of(v)
    return out


class AMat:
    """stand-in for sympy matrices: entries are exact"""

    __pyvc_value__ = True
    __array_ufunc__ = None
    _op_priority = 2000

    def __init__(self, a):
        self.a = a

    # construction as sympy.Matrix
    @staticmethod
    def of(x):
        if isinstance(x, AMat):
            return AMat(x.a.copy())
        a = arr(x)
        if a.ndim == 1:
            a = a.reshape(-1, 1)
        return AMat(a)

    shape = property(lambda self: self.a.shape)
    rows = property(lambda self: self.a.shape[0])
    cols = property(lambda self: self.a.shape[1])
    T = property(lambda self: AMat(self.a.T.copy()))
    H = property(lambda self: self.adjoint())
    C = property(lambda self: self.conjugate())

    def transpose(self):
        return self.T

    def conjugate(self):
        b = np.empty(self.a.shape, dtype=object)
        for k in np.ndindex(*b.shape):
            b[k] = self.a[k].conjugate()
        return AMat(b)

    def adjoint(self):
        return self.conjugate().T

    def __matmul__(self, o):
        if isinstance(o, AMat):
            o = o.a
        if not isinstance(o, np.ndarray):
            return NotImplemented
        if self.a.shape[1] != o.shape[0]:
            raise ValueError("Matrix size mismatch")
        return AMat(_dot(self.a, o)) if o.ndim == 2 else _dot(self.a, o)

    def __rmatmul__(self, o):
        return AMat(_dot(arr(o), self.a))

    def __mul__(self, o):
        if isinstance(o, AMat):
            return self @ o
        o = _co(o)
        return o if o is NotImplemented else AMat(self.a * o)

    def __rmul__(self, o):
        o = _co(o)
        return o if o is NotImplemented else AMat(self.a * o)

    def __truediv__(self, o):
        return AMat(self.a * Alg.of(o).inv())

    def __add__(self, o):
        return AMat(self.a + o.a)

    def __sub__(self, o):
        return AMat(self.a - o.a)

    def __neg__(self):
        return AMat(-self.a)

    def __pow__(self, n):
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if not isinstance(n, int):
            raise Unsupported("matrix power")
        if n < 0:
            raise Unsupported("matrix inverse")
        r = AMat(eye(self.rows))
        for _ in range(n):
            r = r @ self
        return r

    def __eq__(self, o):
        if isinstance(o, AMat):
            o = o.a
        return isinstance(o, np.ndarray) and o.shape == self.a.shape and all(not (x - y).d for x, y in zip(self.a.flat, arr(o).flat))

    __hash__ = None

    def __getitem__(self, k):
        r = self.a.flat[k] if isinstance(k, int) else self.a[k]
        if isinstance(r, np.ndarray):
            if r.ndim == 1:
                r = r.reshape(-1, 1) if isinstance(k[1], int) else r.reshape(1, -1)
            return AMat(r.copy())
        return r

    def __pyvc_getitem__(self, I, k):
        return self[k]

    def __pyvc_setitem__(self, I, k, v):
        from .shims import ArrWrite

        I.e.log(ArrWrite(self.a))
        if isinstance(v, AMat):
            v = v.a
        elif not isinstance(v, np.ndarray):
            v = Alg.of(v)
        t = self.a[k]
        self.a[k] = v.reshape(t.shape) if isinstance(t, np.ndarray) and isinstance(v, np.ndarray) else v

    def __len__(self):
        return self.a.size

    def __iter__(self):
        return iter(self.a.flat)

    def __pyvc_iter__(self, I):
        return [V_One(x) for x in self.a.flat]

    def __pyvc_array__(self, I, dtype=None):
        return self.a.copy()

    def reshape(self, *s):
        return AMat(self.a.reshape(*s))

    @property
    def free_symbols(self):
        return set().union(*[x.variables for x in self.a.flat]) if self.a.size else set()

    def tolist(self):
        return [list(r) for r in self.a]

    def __pyvc_eqv__(self, o):
        return self == o

    def __pyvc_subst__(self, f):
        return self

    def __pyvc_isinstance__(self, I, cls):
        import sympy

        return cls in (sympy.Matrix, sympy.MatrixBase, sympy.MutableDenseMatrix, object)

    def __repr__(self):
        return f"AMat({self.a.tolist()})"


def V_One(x):
    from .values import One

    return One(x)


def _dot(a, b):
    out = np.empty((a.shape[0],) + b.shape[1:], dtype=object)
    if b.ndim == 1:
        for i in range(a.shape[0]):
            s = Alg.const(0)
            for k in range(a.shape[1]):
                x = a[i, k]
                if isinstance(x, Alg) and not x.d:
                    continue
                s = s + x * b[k]
            out[i] = s
        return out
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            s = Alg.const(0)
            for k in range(a.shape[1]):
                x, y = a[i, k], b[k, j]
                if isinstance(x, Alg) and not x.d or isinstance(y, Alg) and not y.d:
                    continue
                s = s + x * y
            out[i, j] = s
    return out


def eye(n):
    a = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            a[i, j] = Alg.const(1 if i == j else 0)
    return a


def kron(*ms):
    r = None
    for m in ms:
        m = m.a if isinstance(m, AMat) else m
        r = m if r is None else np.kron(r, m)
    return r


def block_diag(*ms):
    n = sum(m.shape[0] for m in ms)
    c = sum(m.shape[1] for m in ms)
    out = np.empty((n, c), dtype=object)
    for k in np.ndindex(n, c):
        out[k] = Alg.const(0)
    r = q = 0
    for m in ms:
        out[r:r + m.shape[0], q:q + m.shape[1]] = m
        r += m.shape[0]
        q += m.shape[1]
    return out


# -------------------------------------------------------------------- interpretation of the numeric libraries
def install(I):
    """exact interpretation of the sympy / numpy functions used on numbers and matrices"""
    import sympy
    from .shims import nested

    S = I.shims
    t = I.e.trusted
    t.add("sympy / numpy elementary functions and matrices: exact (mathematical) meaning")

    def mat(I, *a):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, AMat):
                return AMat(x.a.copy())
            return AMat.of(nested(I, x))
        if len(a) == 3:
            r, c, x = a
            return AMat(arr(nested(I, x)).reshape(r, c))
        raise Unsupported("sympy.Matrix")

    for cls in (sympy.Matrix, sympy.ImmutableMatrix, sympy.MutableDenseMatrix):
        S[cls] = mat
    S[sympy.eye] = lambda I, n: AMat(eye(int(n)))
    S[sympy.zeros] = lambda I, r, c=None: AMat(block_zeros(r, c if c is not None else r))
    S[sympy.Matrix.diag] = lambda I, *ms: AMat(block_diag(*[m.a if isinstance(m, AMat) else AMat.of([[m]]).a for m in ms]))
    S[sympy.diag] = S[sympy.Matrix.diag]
    S[sympy.kronecker_product] = lambda I, *ms: AMat(kron(*ms))
    S[sympy.exp] = lambda I, x: exp(x)
    S[sympy.cos] = lambda I, x: cos(x)
    S[sympy.sin] = lambda I, x: sin(x)
    S[sympy.sqrt] = lambda I, x: sqrt(x)
    S[sympy.simplify] = lambda I, x, **k: x
    S[sympy.expand] = lambda I, x, **k: x
    S[sympy.nsimplify] = lambda I, x, **k: x
    S[sympy.N] = lambda I, x, *a: x
    S[sympy.re] = lambda I, x: Alg.of(x).real
    S[sympy.im] = lambda I, x: Alg.of(x).imag
    S[sympy.conjugate] = lambda I, x: Alg.of(x).conjugate()
    S[sympy.sympify] = lambda I, x, **k: x
    S[np.sqrt] = lambda I, x: sqrt(x) if not isinstance(x, np.ndarray) else _map(sqrt, x)
    S[np.exp] = lambda I, x: exp(x) if not isinstance(x, np.ndarray) else _map(exp, x)
    S[np.cos] = lambda I, x: cos(x) if not isinstance(x, np.ndarray) else _map(cos, x)
    S[np.sin] = lambda I, x: sin(x) if not isinstance(x, np.ndarray) else _map(sin, x)
    import math as _m
    import cmath as _cm

    S[_m.sqrt] = lambda I, x: sqrt(x)
    S[_m.cos] = lambda I, x: cos(x)
    S[_m.sin] = lambda I, x: sin(x)
    S[_cm.exp] = lambda I, x: exp(x)

    def shim_num(I, x):
        return x

    old_float, old_complex, old_abs = S[float], S[complex], S[abs]
    S[float] = lambda I, x=0.0: x if isinstance(x, Alg) else old_float(I, x)
    S[complex] = lambda I, a=0, b=None: (a if b is None else a + Alg.cis_pi(F(1, 2)) * b) if isinstance(a, Alg) or isinstance(b, Alg) else old_complex(I, a, b)
    S[abs] = lambda I, x: abs(x) if isinstance(x, Alg) else old_abs(I, x)

    np_names(I)


def _map(f, x):
    out = np.empty(x.shape, dtype=object)
    for k in np.ndindex(*x.shape):
        out[k] = f(x[k])
    return out


def block_zeros(r, c):
    out = np.empty((r, c), dtype=object)
    for k in np.ndindex(r, c):
        out[k] = Alg.const(0)
    return out


def _full(shape, v):
    out = np.empty(shape, dtype=object)
    for k in np.ndindex(*out.shape):
        out[k] = Alg.const(v)
    return out


def np_names(I):
    S = I.shims
    S[np.zeros] = lambda I, shape, dtype=None: _full(I.to_native(shape), 0)
    S[np.ones] = lambda I, shape, dtype=None: _full(I.to_native(shape), 1)
    S[np.eye] = lambda I, n, dtype=None: eye(int(I.to_native(n)))
    S[np.identity] = S[np.eye]
    S[np.kron] = lambda I, a, b: kron(a, b)

    def array(I, x, dtype=None, **k):
        from .shims import nested, object_array

        if isinstance(x, AMat):
            return x.a.copy()
        if isinstance(x, np.ndarray):
            return arr(x) if x.dtype != object else x.copy()
        n = object_array(nested(I, x))
        return arr(n) if dtype is not None and dtype in (complex, float, np.complex128, np.float64) or any(isinstance(v, Alg) for v in n.flat) else np.array(nested(I, x), dtype=dtype)

    def asarray(I, x, dtype=None, **k):
        return x if isinstance(x, np.ndarray) and x.dtype == object else array(I, x, dtype)

    S[np.array] = array
    S[np.asarray] = asarray
    S[np.multiply] = lambda I, a, b: arr(a) * arr(b)
    S[np.dot] = lambda I, a, b: _dot(arr(a), arr(b))
    S[np.matmul] = lambda I, a, b: _dot(arr(a), arr(b))
    S[np.linalg.multi_dot] = lambda I, xs: _multi([force_(x) for x in xs])
    S[np.allclose] = lambda I, a, b, **k: _close(I, a, b)
    S[np.isclose] = lambda I, a, b, **k: _close(I, a, b)


def _multi(xs):
    r = xs[0]
    for x in xs[1:]:
        r = _dot(r, x)
    return r


def force_(x):
    return x


def _close(I, a, b):
    """np.allclose on exact values: equality of functions (documented: tolerance treated as exact equality)"""
    A, B = np.broadcast_arrays(arr(a), arr(b))
    I.e.drops.add("np.allclose on exact values means equality")
    ok = True
    for x, y in zip(A.flat, B.flat):
        r = x == y
        ok = r if ok is True else ok
        if r is False:
            return False
        if isinstance(r, SBool) and not I.truth(r):
            return False
    return True

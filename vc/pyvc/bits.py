"""Numbers below 2^n and their bits."""
from . import core, values as V
from .core import *  # noqa: F401,F403
from .core import z3
from .values import *  # noqa: F401,F403

Z, B = z3.IntSort(), z3.BoolSort()
BIT = z3.Function("bit", Z, Z, B)
NOTE = "itertools.product(two symbols, repeat=n) lists the n-digit binary numbers in increasing order, most significant digit first; numbers below 2^n with the same n bits are equal"


def bit(i, p):
    return SInt(z3.If(BIT(i, p), z3.IntVal(1), z3.IntVal(0)))


def digit_of(x):
    """(number, position) when x is a bit"""
    x = V.force(x) if not isinstance(x, Cases) else x
    if isinstance(x, SStr) and len(x.parts) == 1 and not isinstance(x.parts[0], str) and x.parts[0][0] == "str":
        x = V.force(x.parts[0][1])
    if not isinstance(x, SInt):
        return None
    t = z3.simplify(x.t)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and t.arg(0).num_args() == 2 and t.arg(0).decl().eq(BIT):
        if t.arg(1).eq(z3.IntVal(1)) and t.arg(2).eq(z3.IntVal(0)):
            return t.arg(0).arg(0), t.arg(0).arg(1)
    return None


def product(I, pool, n):
    """product(pool, repeat=n), n symbolic"""
    e = I.e
    n = toint(n)
    if len(pool) != 2:
        raise Unsupported("product with a symbolic repeat count")
    if not e.choose(n >= 0):
        raise ValueError("repeat argument cannot be negative")
    e.trusted.add(NOTE)
    i, q = V.index_var("i"), V.index_var("q")
    a, b = pool
    z = z3.simplify(n - 1 - q)
    if a == 0 and b == 1 and type(a) is int and type(b) is int:
        d = bit(i, z)
    elif (a, b) == ("0", "1"):
        d = SStr([("str", bit(i, z))])
    else:
        d = Cases([(BIT(i, z), b), (z3.Not(BIT(i, z)), a)])
    return PyIter((Fam(toint(core.mk_pow2(n)), i, PyTuple((Fam(n, q, d),))),))


def distinct(I, n, var, key):
    """the keys of different numbers (var) are different: they list all the bits of numbers below 2^k"""
    e = I.e
    key = V.force(key)
    if isinstance(key, SStr):
        ps = key.parts
        if len(ps) != 1 or isinstance(ps[0], str) or ps[0][0] != "join" or ps[0][1] != "":
            return False
        segs = V.norm_segs(ps[0][2].segs)
    elif isinstance(key, PyTuple):
        segs = V.norm_segs(key.segs)
    else:
        return False
    if len(segs) != 1 or not isinstance(segs[0], Fam):
        return False
    f = segs[0]
    d = digit_of(f.val)
    if d is None or not z3.simplify(d[0] - var).eq(z3.IntVal(0)):
        return False
    up, down = z3.simplify(d[1] - f.var), z3.simplify(d[1] + f.var)
    if not (up.eq(z3.IntVal(0)) or e.valid(down == f.n - 1)):
        return False
    k = core.mk_pow2(f.n)
    return e.valid(toint(k) >= n)


TEXT = "bin(i)[2:].zfill(n) and its formatted forms list the n bits of 0 <= i < 2^n, most significant first; (i >> k) & 1 is bit k of i"


class Binary:
    """bin(i), and bin(i)[2:]"""

    __pyvc_value__ = True

    def __init__(self, i, cut=False):
        self.i, self.cut = i, cut

    def __pyvc_getitem__(self, I, k):
        k = V.force(k)
        if self.cut or k != slice(2, None, None):
            raise Unsupported("part of a binary text")
        return Binary(self.i, True)

    def __pyvc_getattr__(self, I, name):
        if name == "zfill" and self.cut:
            from .lin import Meth

            return Meth(self.zfill)
        raise Unsupported(f"{name} of a binary text")

    def zfill(self, I, n):
        n = toint(V.force(n))
        if not I.e.valid(z3.And(n >= 1, self.i >= 0, self.i < toint(core.mk_pow2(n)))):
            raise Unsupported("binary text of a number that may have more digits")
        q = V.index_var("q")
        return SStr([("join", "", PyList((Fam(n, q, SStr([("str", bit(self.i, z3.simplify(n - 1 - q)))])),)))])

    def __pyvc_subst__(self, f):
        return Binary(f(self.i), self.cut)

    def __pyvc_syntax__(self):
        return (self.i,)


def formatted(I, v, spec):
    """f"{v:b}", f"{v:0nb}"; None for other formats"""
    if isinstance(spec, str):
        if spec == "b":
            return Binary(v.t, True)
        if len(spec) > 2 and spec[0] == "0" and spec[-1] == "b" and spec[1:-1].isdigit():
            return Binary(v.t, True).zfill(I, int(spec[1:-1]))
        return None
    ps = [p if isinstance(p, str) else p for p in spec.parts] if isinstance(spec, SStr) else []
    if len(ps) == 3 and ps[0] == "0" and ps[2] == "b" and ps[1][0] == "str":
        return Binary(v.t, True).zfill(I, ps[1][1])
    return None


class Shifted:
    """i >> k"""

    __pyvc_value__ = True

    def __init__(self, i, k):
        self.i, self.k = i, k

    def __and__(self, o):
        if type(o) is int and o == 1 and core.cur.valid(z3.And(self.i >= 0, self.k >= 0)):
            core.cur.trusted.add(TEXT)
            return bit(self.i, z3.simplify(self.k))
        raise Unsupported("bits of a shifted number")

    __rand__ = __and__

    def __mod__(self, o):
        if type(o) is int and o == 2:
            return self & 1
        raise Unsupported("remainder of a shifted number")

    def __pyvc_subst__(self, f):
        return Shifted(toint(f(SInt(self.i))), toint(f(SInt(self.k))))

    def __pyvc_syntax__(self):
        return (SInt(self.i), SInt(self.k))

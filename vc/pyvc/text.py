"""Symbolic text as a sequence of characters: digits of integers 0..9, joins of such texts, literal text."""
import re

import numpy as np

from . import core, values as V
from .core import *  # noqa: F401,F403
from .core import z3
from .values import *  # noqa: F401,F403
from .interp import _map_segs


def chars(s, I=None):
    """segments of one-character texts, or None when the text is not a known sequence of characters"""
    out = []
    for p in ([s] if isinstance(s, str) else s.parts):
        if isinstance(p, str):
            out += [One(c) for c in p]
        elif p[0] == "char":
            out.append(One(SStr([p])))
        elif p[0] == "str" and core._num_kind(p[1]) == 1:
            d = toint(p[1])
            if not core.cur.valid(z3.And(d >= 0, d <= 9)):
                return None
            out.append(One(SStr([p])))
        elif p[0] == "join" and p[1] == "":
            x = [_chars_seg(g) for g in p[2].segs]
            if any(g is None for g in x):
                return None
            for g in x:
                out += g
        else:
            return None
    return tuple(out)


def _chars_seg(g):
    if isinstance(g, One):
        c = chars(V.force(g.v)) if isinstance(V.force(g.v), (str, SStr)) else None
        return None if c is None else list(c)
    if isinstance(g, Fam):
        e = core.cur
        v = V.force(g.val)
        if not isinstance(v, (str, SStr)):
            return None
        e.solver.push()
        try:
            e.solver.add(g.var >= 0, g.var < g.n)
            c = chars(v)
        finally:
            e.solver.pop()
        if c is None:
            return None
        if len(c) == 1 and isinstance(c[0], One):
            return [Fam(g.n, g.var, c[0].v)]
        return [Flat(g.n, g.var, c)]
    if isinstance(g, Flat):
        x = [_chars_seg(y) for y in g.segs]
        return None if any(y is None for y in x) else [Flat(g.n, g.var, tuple(z for y in x for z in y))]
    return None


def code(c):
    """code point of a one-character text"""
    c = V.force(c)
    if isinstance(c, str):
        return ord(c)
    p = c.parts[0]
    if p[0] == "str":
        return p[1] + 48
    raise Unsupported("code of an unknown character")


class Bytes:
    """ASCII bytes of a text"""

    __pyvc_value__ = True

    def __init__(self, segs):
        self.segs = segs

    def __pyvc_subst__(self, f):
        return Bytes(tuple(f(s) for s in self.segs))

    def __pyvc_len__(self, I=None):
        return mkint(V.segs_len(self.segs))


# texts that are lists of non-negative integers: "3,12,0" possibly followed by literal text without digits
def numbers(s):
    """(segments of the integers, separator, trailing text) or None"""
    ps = list(s.parts)
    tail = ""
    if len(ps) == 2 and isinstance(ps[1], str):
        tail = ps.pop()
    if len(ps) != 1 or isinstance(ps[0], str) or any(c.isdigit() or c == "-" for c in tail):
        return None
    p = ps[0]
    e = core.cur

    def num(v):
        v = V.force(v)
        if isinstance(v, str) and v.isdecimal() and str(int(v)) == v:
            return int(v)
        if not (isinstance(v, SStr) and len(v.parts) == 1 and not isinstance(v.parts[0], str) and v.parts[0][0] == "str" and core.is_int(v.parts[0][1])):
            return None
        d = v.parts[0][1]
        return d if e.valid(toint(d) >= 0) else None

    if p[0] == "str":
        d = num(SStr([p]))
        return None if d is None else ((One(d),), None, tail)
    if p[0] != "join" or len(p[1]) != 1 or p[1].isdigit() or p[1] == "-":
        return None
    out = []
    for g in p[2].segs:
        if isinstance(g, One):
            d = num(g.v)
            if d is None:
                return None
            out.append(One(d))
        elif isinstance(g, Fam):
            v = V.force(g.val)
            d = v.parts[0][1] if isinstance(v, SStr) and len(v.parts) == 1 and not isinstance(v.parts[0], str) and v.parts[0][0] == "str" else None
            if d is None or not core.is_int(d) or not V.holds_generic(g.n, lambda j: toint(subst(d, [(g.var, toint(j))])) >= 0):
                return None
            if d is None:
                return None
            out.append(Fam(g.n, g.var, d))
        else:
            return None
    return tuple(out), p[1], tail


def _count(segs):
    return toint(V.segs_len(segs))


_NUMERIC = "0123456789.+-einfaj()"


def _alphabet(p):
    """characters an opaque piece may consist of, or None"""
    return _NUMERIC if p[0] in ("str", "repr") and core._num_kind(p[1]) else None


def could_be(s, lit):
    """can the text of s be the literal text?"""
    ps = [re.escape(p) if isinstance(p, str) else ".*" if _alphabet(p) is None else "[" + re.escape(_NUMERIC) + "]+" for p in s.parts]
    return re.fullmatch("".join(ps), lit, re.S) is not None


def endswith(I, s, end):
    if isinstance(end, tuple):
        return any(I.truth(endswith(I, s, x)) for x in end)
    if not isinstance(end, str):
        raise Unsupported("end of symbolic text")
    for p in reversed(s.parts):
        if end == "":
            return True
        if isinstance(p, str):
            k = min(len(p), len(end))
            if p[len(p) - k:] != end[len(end) - k:]:
                return False
            end = end[:len(end) - k]
        elif _alphabet(p) and end[-1] not in _alphabet(p):
            return False
        else:
            raise Unsupported("end of symbolic text")
    return end == ""


def contains(I, s, sub):
    if isinstance(s, SStr) and isinstance(sub, str) and any(isinstance(p, str) and sub in p for p in s.parts):
        return True
    r = numbers(s) if isinstance(s, SStr) and isinstance(sub, str) and len(sub) == 1 and not sub.isdigit() and sub != "-" else None
    if r is None:
        raise Unsupported("substring test on symbolic text")
    segs, sep, tail = r
    if sub in tail:
        return True
    return mkbool(_count(segs) >= 2) if sub == sep else False


def rstrip(I, s, cs=None):
    r = numbers(s)
    if r is None or not isinstance(cs, str) or any(c.isdigit() for c in cs):
        raise Unsupported(f"strip of symbolic text {s!r} {cs!r}")
    tail = r[2].rstrip(cs)
    return SStr([s.parts[0], tail])


def split(I, s, sep):
    r = numbers(s)
    if r is None or not isinstance(sep, str) or len(sep) != 1 or sep.isdigit() or sep == "-" or r[2] and sep != r[2]:
        return None
    segs, own, tail = r
    if own != sep and not I.e.valid(_count(segs) <= 1):
        return None
    end = (One(""),) if tail else ()
    if not I.e.choose(_count(segs) > 0):
        return PyList((One(""),) + end)
    return PyList(tuple(_map_segs(segs, lambda d: SStr([("str", d)]))) + end)


DIGITS = z3.Function("digits of", z3.IntSort(), z3.IntSort())


def length(I, s):
    r = numbers(s)
    if r is None:
        return None
    segs, own, tail = r
    if not I.e.choose(_count(segs) > 0):
        return len(tail)
    n = z3.Int(I.e.fresh_name("length"))
    if I.e.choose(_count(segs) == 1):
        d = toint(I.getitem(PyList(segs), 0))
        I.e.assume(z3.And(n == DIGITS(d) + len(tail), DIGITS(d) >= 1, (DIGITS(d) == 1) == (d <= 9), (DIGITS(d) <= 2) == (d <= 99)))
    else:
        I.e.assume(n >= 2 * _count(segs) - 1 + len(tail))
    return SInt(n)


def single(I, s):
    """the text of at most one number, as that number"""
    r = numbers(s)
    if r is None or r[2]:
        return None
    if not I.e.choose(_count(r[0]) > 0):
        return ""
    if not I.e.valid(_count(r[0]) == 1):
        return None
    return SStr([("str", V.force(I.getitem(PyList(r[0]), 0)))])


class FlatArr:
    """one-dimensional integer array given by segments"""

    __pyvc_value__ = True
    __array_ufunc__ = None

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __pyvc_subst__(self, f):
        return FlatArr(tuple(f(s) for s in self.segs))

    def __pyvc_iter__(self, I):
        return self.segs

    def __pyvc_len__(self, I=None):
        return mkint(V.segs_len(self.segs))

    def map(self, f):
        return FlatArr(tuple(_map_segs(self.segs, f)))

    def __add__(self, o):
        return self.map(lambda x: x + o) if core.is_int(o) else NotImplemented

    def __sub__(self, o):
        return self.map(lambda x: x - o) if core.is_int(o) else NotImplemented

    def __pyvc_getattr__(self, I, name):
        from .sarr import Meth

        if name == "astype":
            return Meth(lambda I, t: self)
        if name == "reshape":
            return Meth(self.reshape)
        if name in ("ndim",):
            return 1
        raise Unsupported(f"array attribute {name}")

    def reshape(self, I, *shape):
        from .sarr import FArr

        if len(shape) == 1 and isinstance(shape[0], (tuple, PyTuple)):
            shape = tuple(shape[0])
        if len(shape) != 2 or shape[0] != -1:
            raise Unsupported("reshape")
        w = shape[1]
        e = I.e
        if e.valid(toint(w) == 0):
            raise ValueError("cannot reshape array of unknown size into shape (-1, 0)")
        segs = V.norm_segs(self.segs)
        if len(segs) == 1 and isinstance(segs[0], Flat) and len(segs[0].segs) == 1 and isinstance(segs[0].segs[0], Fam):
            f, g = segs[0], segs[0].segs[0]
            if e.valid(g.n == toint(w)) and e.valid(toint(w) > 0):
                return FArr.fn((mkint(f.n), w), lambda a, q: subst(subst(g.val, [(f.var, a)]), [(g.var, q)]))
        if len(segs) == 1 and isinstance(segs[0], Fam) and e.valid(toint(w) == 1):
            return FArr.fn((mkint(segs[0].n), 1), lambda a, q: subst(segs[0].val, [(segs[0].var, a)]))
        if e.valid(toint(w) > 0) and e.valid(V.segs_len(segs) == toint(w)) and len(segs) == 1 and isinstance(segs[0], Fam):
            return FArr.fn((1, w), lambda a, q: subst(segs[0].val, [(segs[0].var, q)]))
        raise Unsupported("reshape of a structured array")


def install(I):
    S = I.shims
    prev = S.get(np.frombuffer)

    def frombuffer(I, b, dtype=float, *a):
        b = V.force(b)
        if isinstance(b, Bytes):
            if a or np.dtype(dtype) != np.dtype("u1"):
                raise Unsupported("frombuffer of another type")
            I.e.trusted.add("numpy.frombuffer of ASCII text: the character codes")
            return FlatArr(tuple(_map_segs(b.segs, code)))
        return I.native(np.frombuffer, [b, dtype, *a], {})

    S[np.frombuffer] = frombuffer
    for n in (ord,):
        old = S.get(n)

        def s_ord(I, c):
            return code(c) if isinstance(V.force(c), SStr) else ord(c)

        S[n] = s_ord

"""Integers given by runs of equal bits from the lowest bit upwards, and a tail: 0 or -1 (all bits equal above), or an unknown number or its
complement.  Two's complement arithmetic on such runs."""
from . import core, values as V
from .core import *  # noqa: F401,F403
from .core import z3
from .values import *  # noqa: F401,F403


class Runs:
    __pyvc_value__ = True

    def __init__(self, runs, tail=0):
        """runs: (count, bit) from the lowest; tail: 0, -1, ("h", name), ("~h", name)"""
        out = []
        for c, b in runs:
            c = z3.simplify(toint(c))
            if core.cur.valid(c == 0):
                continue
            if out and out[-1][1] == b:
                out[-1] = (z3.simplify(out[-1][0] + c), b)
            else:
                out.append((c, b))
        while out and tail in (0, -1) and out[-1][1] == -tail:
            out.pop()
        self.runs, self.tail = tuple(out), tail

    def flip(self):
        t = self.tail
        return Runs([(c, 1 - b) for c, b in self.runs], -1 - t if t in (0, -1) else ("~h" if t[0] == "h" else "h", t[1]))

    def _carry(self, bit):
        """lowest run of `bit` flipped, and the first other bit too"""
        e, out, rest = core.cur, [], list(self.runs)
        while True:
            if not rest:
                if self.tail not in (0, -1):
                    raise Unsupported("carry into unknown bits")
                if -self.tail == bit:
                    return Runs(out, -1 - self.tail)  # -1 + 1, 0 - 1
                return Runs(out + [(z3.IntVal(1), bit)], self.tail)
            c, b = rest.pop(0)
            if not e.choose(c > 0):
                continue
            if b == bit:
                out.append((c, 1 - b))
                continue
            return Runs(out + [(z3.IntVal(1), bit), (c - 1, b)] + rest, self.tail)

    def __add__(self, k):
        if type(k) is int and k == 1:
            return self._carry(1)
        if type(k) is int and k == -1:
            return self._carry(0)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, k):
        return self + -k if type(k) is int else NotImplemented

    def __neg__(self):
        return self.flip() + 1

    def __invert__(self):
        return self.flip()

    def _bits(self, o, f):
        if not isinstance(o, Runs):
            return NotImplemented
        e, out = core.cur, []
        x, y = list(self.runs), list(o.runs)

        def ended(r, t):
            return not r and t in (0, -1)

        while x or y:
            if ended(x, self.tail):
                c, b = y.pop(0)
                out.append((c, f(-self.tail, b)))
            elif ended(y, o.tail):
                c, b = x.pop(0)
                out.append((c, f(b, -o.tail)))
            elif not x or not y:
                raise Unsupported("bits of unknown numbers at different places")
            else:
                (c, a), (d, b) = x[0], y[0]
                if e.valid(c == d):
                    x.pop(0), y.pop(0)
                    out.append((c, f(a, b)))
                elif e.choose(c <= d):
                    x.pop(0)
                    y[0] = (z3.simplify(d - c), b)
                    out.append((c, f(a, b)))
                else:
                    y.pop(0)
                    x[0] = (z3.simplify(c - d), a)
                    out.append((d, f(a, b)))
        s, t = self.tail, o.tail
        if s in (0, -1) and t in (0, -1):
            tail = -f(-s, -t)
        elif s in (0, -1) or t in (0, -1):
            k, u = (s, t) if s in (0, -1) else (t, s)
            on, off = f(-k, 1), f(-k, 0)
            tail = -on if on == off else u if on else ("~h" if u[0] == "h" else "h", u[1])
        elif s[1] == t[1]:
            if s == t:
                on, off = f(1, 1), f(0, 0)
                tail = -on if on == off else s if on else ("~h" if s[0] == "h" else "h", s[1])
            else:
                on, off = f(1, 0), f(0, 1)
                tail = -on if on == off else s if on else t
        else:
            raise Unsupported("bits of two unknown numbers")
        return Runs(out, tail)

    def __and__(self, o):
        return self._bits(o, lambda a, b: a & b)

    def __or__(self, o):
        return self._bits(o, lambda a, b: a | b)

    def __xor__(self, o):
        return self._bits(o, lambda a, b: a ^ b)

    def drop(self, k):
        """the bits from position k upwards (floor division by 2^k)"""
        e, rest, k = core.cur, list(self.runs), z3.simplify(toint(k))
        while not e.valid(k == 0):
            if not rest:
                if self.tail not in (0, -1):
                    raise Unsupported("shift into unknown bits")
                break
            c, b = rest.pop(0)
            if e.choose(c <= k):
                k = z3.simplify(k - c)
            else:
                rest.insert(0, (z3.simplify(c - k), b))
                k = z3.IntVal(0)
        return Runs(rest, self.tail)

    def __rshift__(self, k):
        return self.drop(k) if core.is_int(k) else NotImplemented

    def __floordiv__(self, o):
        if not isinstance(o, Runs):
            return NotImplemented
        r = o.runs
        if o.tail == 0 and len(r) == 1 and r[0][1] == 1 and core.cur.valid(r[0][0] == 1):
            return self
        if o.tail == 0 and len(r) == 2 and r[0][1] == 0 and core.cur.valid(r[1][0] == 1):
            return self.drop(r[0][0])
        raise Unsupported("division by a number that may be no power of two")

    def __pyvc_eqv__(self, o):
        if not isinstance(o, Runs) or self.tail != o.tail or len(self.runs) != len(o.runs):
            return False
        return V.conj([V.eqv(mkint(a), mkint(b)) if x == y else False for (a, x), (b, y) in zip(self.runs, o.runs)])

    def __pyvc_subst__(self, f):
        return Runs([(toint(f(SInt(c))), b) for c, b in self.runs], self.tail)

    def __repr__(self):
        return f"Runs({self.runs}, {self.tail})"

"""Loops that collect the different elements of a sequence: `if x not in S: S.add(x); L.append(x)`.

While the loop body is analysed, the previous content of the set S is a Hole; whether x is already in it is an unknown
In(x).  The set collects all elements; membership in its content before iteration i is membership among the elements of
the earlier iterations (`earlier`), which then appears as the condition under which the list gets a new element."""

from . import core, values as V
from .core import *  # noqa: F401,F403
from .core import z3
from .values import *  # noqa: F401,F403
from .groups import key_term, present

Z = z3.IntSort()


def _canon(segs, names, free, depth):
    """a description of the keys of a sequence, independent of the names of bound variables"""
    out = []

    def term(t):
        t = z3.simplify(t)
        for v in _ix(t):
            if not any(v.eq(a) for a, _ in names) and not any(v.eq(a) for a in free):
                free.append(v)
        ps = list(names) + [(v, z3.Int(f"free·{k}")) for k, v in enumerate(free)]
        return (z3.substitute(t, *ps) if ps else t).sexpr()

    for s in segs:
        if isinstance(s, One):
            out.append("one " + term(key_term(s.v)))
        elif isinstance(s, (Fam, Flat)):
            n = term(s.n)
            inner = (One(s.val),) if isinstance(s, Fam) else s.segs
            sub = _canon(inner, names + [(s.var, z3.Int(f"bound·{depth}"))], free, depth + 1)
            out.append(f"for {n} ({sub})")
        elif isinstance(s, Guard):
            out.append(f"if {term(s.c)} ({_canon(s.segs, names, free, depth)})")
        else:
            raise Unsupported("elements of this sequence")
    return "; ".join(out)


def _ix(t):
    out, seen = [], set()

    def walk(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith("ix_") and z3.is_int(t):
            out.append(t)
        for c in t.children():
            walk(c)

    walk(t)
    return out


def earlier(segs, var, m, t):
    """t is among the keys of the elements of iterations 0 .. m-1 of the sequence (segs for each var)"""
    e = core.cur
    free = []
    name = _canon(segs, [(var, z3.Int("bound·0"))], free, 1)
    names = e.__dict__.setdefault("earlier_names", {})
    f = z3.Function(f"earlier·{names.setdefault(name, len(names))}", *([Z] * (len(free) + 2)), z3.BoolSort())
    e.add(z3.Implies(m <= 0, z3.Not(f(*free, m, t))))
    return f(*free, m, t)


def member(segs, t):
    """t is among the keys of the elements"""
    cs = []
    for s in segs:
        if isinstance(s, Hole):
            cs.append(z3.Function("in·" + s.id, Z, z3.BoolSort())(t))
        elif isinstance(s, One):
            cs.append(key_term(s.v) == t)
        elif isinstance(s, Fam):
            cs.append(earlier((One(s.val),), s.var, s.n, t))
        elif isinstance(s, Flat):
            cs.append(earlier(s.segs, s.var, s.n, t))
        elif isinstance(s, Guard):
            cs.append(z3.And(s.c, member(s.segs, t)))
        else:
            raise Unsupported("membership in a symbolic set")
    return z3.Or(*cs) if cs else z3.BoolVal(False)


def mentions(v, hid):
    """does v depend on membership in the unknown set content"""
    hit = []
    name = "in·" + hid

    def look(t):
        seen = set()

        def walk(t):
            if t.get_id() in seen:
                return
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().name() == name:
                hit.append(t)
            for c in t.children():
                walk(c)

        walk(t)
        return t

    V.subst(v, look)
    return hit


def replace(v, hid, segs):
    """membership in the unknown content becomes membership in the given content"""
    for _ in range(20):
        ts = mentions(v, hid)
        if not ts:
            return v
        t = ts[-1]
        v = V.subst(v, [(t, member(segs, t.arg(0)))])
    return None


def set_pattern(I, n, i, base, hid, adds):
    """the elements collected by iteration i, or None"""
    e = I.e
    full = [a for _, a in adds if a]
    if not full:
        return None
    for a in full[1:]:
        if not V.same_syntax(a, full[0]):
            return None
    A = full[0]
    if any(isinstance(s, Hole) for s in A) or not all(isinstance(s, (One, Fam, Flat, Guard)) for s in A):
        return None
    for c, a in adds:
        if a:
            continue
        # nothing was added: the elements were there already
        if c is None or not all(isinstance(s, One) for s in A):
            return None
        e.solver.push()
        e.add(z3.And(i >= 0, i < n))
        ok = e.valid(z3.Implies(c, z3.And(*[z3.Function("in·" + hid, Z, z3.BoolSort())(key_term(s.v)) for s in A])))
        e.solver.pop()
        if not ok:
            return None
    if mentions(A, hid):
        return None
    return A


class Ordered:
    """the different elements of a collection, sorted"""

    __pyvc_value__ = True

    def __init__(self, segs, key, reverse=False):
        self.segs, self.key, self.reverse = tuple(segs), key, reverse

    def __pyvc_eqv__(self, o):
        if not isinstance(o, Ordered) or o.key is not self.key or bool(o.reverse) != bool(self.reverse):
            return False
        return V.eqv(PyList(self.segs), PyList(o.segs))

    def __pyvc_subst__(self, f):
        return Ordered(f(self.segs), self.key, self.reverse)

    def __pyvc_syntax__(self):
        return self.segs

    def __pyvc_truth__(self, I):
        return I.truth(V_nonempty(I, self.segs))

    def __pyvc_getattr__(self, I, name):
        raise Unsupported(f"{name} of a sorted collection")


def V_nonempty(I, segs):
    from .shims import seq_len_segs

    return seq_len_segs(I, segs) > 0

"""Contracts of builtins and of the standard library (trusted; each one is listed in the evidence when it is used)."""
import builtins
import collections
import collections.abc
import copy as _copy
import dataclasses
import functools
import itertools
import math
import operator
import types
import typing
import warnings

import numpy as np

from . import core, pylib
from . import values as V
from .core import *  # noqa: F401,F403
from .core import z3
from .values import *  # noqa: F401,F403
from .values import _is_repo_instance


class PyRange(PyTuple):
    pass


def _seq_ok(v):
    return isinstance(v, (Cont, tuple, list, set, frozenset, dict, range))


# -------------------------------------------------------------------- builtins
def s_len(I, v):
    if isinstance(v, PySet) and not v.concrete and not getattr(v, "distinct", False):
        raise Unsupported("size of a symbolic set")
    if isinstance(v, PyIter):
        raise TypeError("object of type 'generator' has no len()")
    if isinstance(v, Cont):
        return mkint(V.segs_len(v.segs))
    if hasattr(v, "__pyvc_len__"):
        return v.__pyvc_len__(I)
    if _is_repo_instance(v):
        m = I.find_method(type(v), "__len__")
        if m is None:
            raise TypeError(f"object of type {type(v).__name__!r} has no len()")
        return I.call(m, [v])
    if isinstance(v, SStr):
        from .text import chars, length

        c = chars(v)
        if c is not None:
            return mkint(V.segs_len(c))
        n = length(I, v)
        if n is not None:
            return n
        n = 0
        for p in v.parts:
            if isinstance(p, str):
                n = n + len(p)
            elif p[0] == "char":
                n = n + 1
            else:
                raise Unsupported("length of symbolic text")
        return n
    return len(v)


def s_range(I, a, b=None, c=1):
    if b is None:
        a, b = 0, a
    for x in (a, b, c):
        if not core.is_int(x):
            raise TypeError(f"{type(x).__name__!r} object cannot be interpreted as an integer")
    if not any(isinstance(x, Sym) for x in (a, b, c)):
        return range(int(a), int(b), int(c))
    if isinstance(c, Sym) or c not in (1, -1):
        if I.e.choose(toint(c) == 0):
            raise ValueError("range() arg 3 must not be zero")
        up = I.e.choose(toint(c) > 0)
        a, n, step = mkint(toint(a)), mkint(toint(b) - toint(a) if up else toint(a) - toint(b)), mkint(toint(c) if up else -toint(c))
        if not I.e.choose(toint(n) > 0):
            return PyRange(())
        k = toint((n + step - 1) // step)
        I.e.assume(z3.And(k >= 1, (k - 1) * toint(step) < toint(n), toint(n) <= k * toint(step)))
        k = V.collapse(k)
        v = V.index_var("r")
        return PyRange((Fam(k, v, a + mkint(v) * mkint(toint(c))),))
    n = toint(b) - toint(a) if c == 1 else toint(a) - toint(b)
    n = V.collapse(n)
    if not I.e.choose(n > 0):
        return PyRange(())
    v = V.index_var("r")
    r = PyRange((Fam(n, v, mkint(toint(a) + (v if c == 1 else -v))),))
    return r


def s_list(I, it=()):
    return PyList(I.iter_segs(it))


def s_tuple(I, it=()):
    v = force(it)
    if isinstance(v, (tuple, PyTuple)) and not isinstance(v, PyRange):
        return v
    return conc_tuple(I.iter_segs(it))


def make_set(I, it, cls=PySet):
    it = force(it)
    if isinstance(it, PySet) or isinstance(it, (set, frozenset)):
        # no order is involved
        segs = it.segs if isinstance(it, PySet) else tuple(One(x) for x in it)
    else:
        segs = V.norm_segs(I.iter_segs(it))
        if len(segs) == 1 and isinstance(segs[0], Fam) and isinstance(force(segs[0].val), SInt):
            return _int_set(I, segs[0], cls)
        if not all(isinstance(s, One) for s in segs) and _keyed_elements(segs):
            # an unordered collection of the elements: only its membership is known
            return cls(segs)
    out = []
    for s in segs:
        if isinstance(s, One):
            v = force(s.v)
            if isinstance(v, (PyList, PyDict, list, dict)):
                raise TypeError("unhashable type")
            if not _member(I, out, v):
                out.append(One(v))
        else:
            if out or len(segs) > 1:
                raise Unsupported("set of a mixed symbolic sequence")
            out.append(s)
    return cls(out)


def _keyed_elements(segs):
    return all(hasattr(force(s.v), "__pyvc_key__") if isinstance(s, One) else hasattr(force(s.val), "__pyvc_key__") if isinstance(s, Fam) else _keyed_elements(s.segs) if isinstance(s, (Flat, Guard)) else False for s in segs)


def _int_set(I, f, cls):
    """contract of set(sequence of n unknown integers): m distinct values D(0), ..., D(m-1), in an unknown order"""
    e = I.e
    val = toint(force(f.val))
    d = z3.simplify(val - f.var)
    if not V.occurs(d, [f.var]):
        r = cls((f,))
        r.distinct = True
        r.source = (r.segs, f)
        if e.valid(d >= 0):
            e.trusted.add("CPython: a set of consecutive non-negative integers is iterated in increasing order")
            r.ordered = True
        return r
    ctx = list(e.gidx)
    ints = [z3.IntSort()] * (len(ctx) + 1)
    m = z3.Function(e.fresh_name("setsize"), *ints)(*ctx) if ctx else z3.Int(e.fresh_name("setsize"))
    D, W, P = (z3.Function(e.fresh_name(x), *ints, z3.IntSort()) for x in ("setelem", "setfrom", "setindex"))
    at = lambda t: z3.substitute(val, (f.var, t))
    e.assume(z3.And(m >= 0, m <= f.n, z3.Implies(f.n >= 1, m >= 1)))
    if e.__dict__.get("distinct_reg") and keys_distinct(I, f.n, f.var, SInt(val)):
        e.assume(m == f.n)
    a, j = V.index_var("sa"), V.index_var("sj")
    e.add_qfact(m, a, z3.And(W(*ctx, a) >= 0, W(*ctx, a) < f.n, D(*ctx, a) == at(W(*ctx, a)), P(*ctx, D(*ctx, a)) == a))
    e.add_qfact(f.n, j, z3.And(P(*ctx, at(j)) >= 0, P(*ctx, at(j)) < m, D(*ctx, P(*ctx, at(j))) == at(j)))
    e.add_chain(a, W(*ctx, a))
    for k in (0, 1):  # whether there is one element, or more
        e.reg_index(z3.IntVal(k))
    v = V.index_var("sv")
    r = cls((Fam(m, v, SInt(D(*ctx, v))),))
    r.distinct = r.ordered = True
    r.source = (r.segs, f)
    r.enumeration = (m, D, P, W)
    return r


def _member(I, segs, v):
    """is v equal to one of the elements (forks on symbolic equalities)"""
    pend = []
    for s in segs:
        if not isinstance(s, One):
            raise Unsupported("membership in a symbolic set")
        r = I.py_eq(s.v, v)
        if r is True:
            return True
        if isinstance(r, SBool):
            pend.append(r.t)
        elif r is not False and I.truth(r):
            return True
    if pend:
        return I.e.choose(z3.Or(*pend))
    return False


def s_set(I, it=()):
    if hasattr(force(it), "__pyvc_set__"):
        return force(it).__pyvc_set__(I, set)
    return make_set(I, it)


def s_frozenset(I, it=()):
    if hasattr(force(it), "__pyvc_set__"):
        return force(it).__pyvc_set__(I, frozenset)
    return make_set(I, it, PyFrozenSet)


def s_dict(I, it=(), **kw):
    src = force(it)
    if not isinstance(src, (dict, PyDict)) and not kw:
        segs = V.norm_segs(I.iter_segs(src))
        if segs and not all(isinstance(s, One) for s in segs):
            return dict_of_pairs(I, segs)
        src = PyList(segs)
    d = PyDict()
    dict_update(I, d, src)
    for k, v in kw.items():
        dict_set(I, d, k, v)
    return d


def s_fromkeys(I, it, value=None):
    segs = V.norm_segs(I.iter_segs(it))
    if all(isinstance(s, One) for s in segs):
        d = PyDict()
        for s in segs:
            dict_set(I, d, force(s.v), value)
        return d
    from .interp import _map_segs

    return PyDict(_map_segs(I.call(pylib.firsts, [PyIter(segs)]).segs, lambda k: (k, value)))


def s_counter(I, it=()):
    d = PyDict()
    d.counter = True
    it = force(it)
    if isinstance(it, (PyDict, dict)):
        dict_update(I, d, it)
        return d
    for s in I.iter_segs(it):
        if not isinstance(s, One):
            raise Unsupported("Counter of a symbolic sequence")
        v = force(s.v)
        dict_set(I, d, v, dict_get(I, d, v, 0) + 1)
    return d


def s_defaultdict(I, factory=None, it=()):
    d = PyDict()
    d.default = factory
    dict_update(I, d, it)
    return d


def s_zip(I, *its, strict=False):
    lists = [list(V.norm_segs(I.iter_segs(x))) for x in its]
    return PyIter(zip_segs(I, lists))


def zip_columns(I, segs):
    """zip(*rows) for a non-empty symbolic sequence of tuples of the same length: the columns"""
    e = I.e
    if not e.valid(V.segs_len(segs) > 0):
        raise Unsupported("zip of a possibly empty symbolic number of sequences")

    def width(x):
        if isinstance(x, One):
            v = force(x.v)
            v = v.segs if isinstance(v, Cont) else v
            if isinstance(v, tuple) and all(not isinstance(y, (Fam, Flat, Guard)) for y in v):
                return len(v)
        elif isinstance(x, Fam):
            return width(One(x.val))
        elif isinstance(x, (Flat, Guard)):
            w = {width(y) for y in x.segs}
            if len(w) == 1:
                return w.pop()
        raise Unsupported("zip of a symbolic number of sequences")

    def column(x, k):
        if isinstance(x, One):
            v = force(x.v)
            y = v.segs[k] if isinstance(v, Cont) else v[k]
            return One(y.v if isinstance(y, One) else y)
        if isinstance(x, Fam):
            return Fam(x.n, x.var, column(One(x.val), k).v)
        if isinstance(x, Flat):
            return Flat(x.n, x.var, tuple(column(y, k) for y in x.segs))
        return Guard(x.c, tuple(column(y, k) for y in x.segs))

    ws = {width(x) for x in segs}
    if len(ws) != 1:
        raise Unsupported("zip of a symbolic number of sequences of different lengths")
    return [One(PyTuple(tuple(column(x, k) for x in segs))) for k in range(ws.pop())]


def zip_segs(I, lists):
    e = I.e
    out = []
    lists = [list(l) for l in lists]
    while lists and all(lists):
        heads = [l[0] for l in lists]
        if all(isinstance(h, One) for h in heads):
            out.append(One(tuple(h.v for h in heads)))
            lists = [l[1:] for l in lists]
            continue
        if all(isinstance(h, Fam) for h in heads):
            n = heads[0].n
            if all(h.n.eq(n) or e.valid(h.n == n) for h in heads):
                v = V.index_var("z")
                out.append(Fam(n, v, tuple(subst(h.val, [(h.var, v)]) for h in heads)))
                lists = [l[1:] for l in lists]
                continue
            # different lengths: split at the smallest one
            k = 0
            for j in range(1, len(heads)):
                if e.choose(heads[j].n < heads[k].n):
                    k = j
            n = heads[k].n
            new = []
            for l, h in zip(lists, heads):
                if h is heads[k] or e.valid(h.n == n):
                    new.append([Fam(n, h.var, h.val)] + l[1:])
                else:
                    rest = Fam(z3.simplify(h.n - n), h.var, subst(h.val, [(h.var, h.var + n)]))
                    new.append([Fam(n, h.var, h.val)] + V.norm_segs([rest]) + l[1:])
            lists = new
            continue
        if all(isinstance(h, Flat) and (h.n.eq(heads[0].n) or e.valid(h.n == heads[0].n)) for h in heads):
            v = V.index_var("z")
            inner = [[subst(x, [(h.var, v)]) for x in h.segs] for h in heads]
            if all(isinstance(x, One) for l in inner for x in l) and len({len(l) for l in inner}) == 1:
                out.append(Flat(heads[0].n, v, tuple(zip_segs(I, inner))))
                lists = [l[1:] for l in lists]
                continue
        if all(isinstance(h, (One, Fam)) for h in heads):
            new = []
            for l, h in zip(lists, heads):
                if isinstance(h, Fam):
                    if not e.choose(h.n >= 1):
                        new.append(l[1:])
                        continue
                    rest = Fam(z3.simplify(h.n - 1), h.var, subst(h.val, [(h.var, h.var + 1)]))
                    new.append([One(V.inst(h, z3.IntVal(0)))] + V.norm_segs([rest]) + l[1:])
                else:
                    new.append(l)
            lists = new
            continue
        if all(isinstance(h, Guard) for h in heads) and all(h.c.eq(heads[0].c) or e.valid(h.c == heads[0].c) for h in heads):
            e.solver.push()
            e.add(heads[0].c)
            z = zip_segs(I, [list(h.segs) for h in heads])
            e.solver.pop()
            out.append(Guard(heads[0].c, tuple(z)))
            lists = [l[1:] for l in lists]
            continue
        if all(isinstance(h, Flat) for h in heads):
            n = heads[0].n
            v = V.index_var("z")
            inner = [[subst(s, [(h.var, v)]) for s in h.segs] for h in heads]
            lens = [z3.simplify(V.segs_len(x)) for x in inner]
            if all(e.valid(h.n == n) for h in heads) and all(V._generic_valid(n, v, l == lens[0]) for l in lens):
                e.solver.push()
                e.add(z3.And(v >= 0, v < n))
                z = zip_segs(I, inner)
                e.solver.pop()
                out.append(Flat(n, v, tuple(z)))
                lists = [l[1:] for l in lists]
                continue
        raise Unsupported(f"zip of differently structured symbolic sequences")
    return out


def s_enumerate(I, it, start=0):
    segs = V.norm_segs(I.iter_segs(it))
    off = toint(start)
    out = []
    for s in segs:
        if isinstance(s, One):
            out.append(One((mkint(off), s.v)))
            off = off + 1
        elif isinstance(s, Fam):
            out.append(Fam(s.n, s.var, (mkint(off + s.var), s.val)))
            off = off + s.n
        else:
            raise Unsupported("enumerate over a nested symbolic sequence")
    return PyIter(out)


def reverse_segs(segs):
    out = []
    for s in reversed(list(segs)):
        if isinstance(s, One):
            out.append(s)
        elif isinstance(s, Fam):
            out.append(Fam(s.n, s.var, subst(s.val, [(s.var, s.n - 1 - s.var)])))
        elif isinstance(s, Flat):
            out.append(Flat(s.n, s.var, tuple(reverse_segs([subst(x, [(s.var, s.n - 1 - s.var)]) for x in s.segs]))))
        elif isinstance(s, Guard):
            out.append(Guard(s.c, tuple(reverse_segs(s.segs))))
        else:
            raise Unsupported(f"reversal of {s!r}")
    return out


def s_reversed(I, v):
    if isinstance(v, (PySet,)):
        raise TypeError("'set' object is not reversible")
    if isinstance(v, PyIter):
        raise TypeError("'generator' object is not reversible")
    if _is_repo_instance(v):
        m = I.find_method(type(v), "__reversed__")
        if m is not None:
            return I.call(m, [v])
        raise Unsupported("reversed of a repository object")
    return PyIter(reverse_segs(I.iter_segs(v)))


def s_map(I, f, *its):
    if len(its) == 1:
        r = I.call(pylib.map1, [f, its[0]])
    else:
        r = I.call(pylib.mapn, [f, s_zip(I, *its)])
    I.e.drops.add("map is evaluated eagerly")
    return PyIter(r.segs)


def s_filter(I, f, it):
    r = I.call(pylib.filter_none, [it]) if f is None else I.call(pylib.filter_, [f, it])
    return PyIter(r.segs)


_MISSING = object()


def _extremum(I, plain, keyed, nat, args, key, default):
    if len(args) > 1:
        it = tuple(args)
    else:
        it = args[0]
    s0 = force(it)  # the extremum of a set does not depend on its order
    segs = V.norm_segs(s0.segs if isinstance(s0, PySet) and key is None else I.iter_segs(it))
    if not segs:
        if default is not _MISSING:
            return default
        raise ValueError(f"{nat.__name__}() arg is an empty sequence")
    if not any(isinstance(s, One) for s in segs):
        if not I.e.choose(V.segs_len(segs) > 0):
            for s in segs:
                if isinstance(s, Flat):
                    I.e.add_qfact(s.n, s.var, V.segs_len(s.segs) == 0)
            if default is not _MISSING:
                return default
            raise ValueError(f"{nat.__name__}() arg is an empty sequence")
    I.e.reg_index(z3.IntVal(0))
    vals = [force(s.v) for s in segs] if all(isinstance(s, One) for s in segs) else None
    if vals is not None and key is None and all(isinstance(v, (int, float, str, np.number)) for v in vals):
        return nat(vals)
    if key is None:
        ks = _element_kinds(segs) if vals is None and not any(isinstance(s, Guard) for s in segs) else None
        if any(isinstance(s, Flat) for s in segs) or ks in ({1}, {2}, {1, 2}):
            return _nested_extremum(I, segs, nat is builtins.max, ks is not None and 2 in ks)
    if key is None:
        return I.call(plain, [PyList(segs)])
    return I.call(keyed, [PyList(segs), key])


def _element_kinds(segs):
    """kinds of the numbers in the sequence (1: integers, 2: reals); None when it holds something else"""
    out = set()
    for s in segs:
        if isinstance(s, (One, Fam)):
            v = s.v if isinstance(s, One) else s.val
            for x in [x for _, x in v.alts] if isinstance(v, Cases) else [v]:
                if isinstance(x, (bool, SBool)) or not isinstance(x, (int, float, SInt, SReal)):
                    return None
                out.add(1 if isinstance(x, (int, SInt)) else 2)
        elif isinstance(s, (Flat, Guard)):
            k = _element_kinds(s.segs)
            if k is None:
                return None
            out |= k
        else:
            return None
    return out


def _nested_extremum(I, segs, largest, real=False):
    """contract of max / min of a non-empty nested sequence of numbers: a bound of all elements that is one of them"""
    e = I.e
    ctx = list(e.gidx)
    sort = z3.RealSort() if real else z3.IntSort()
    toint = core.toreal if real else core.toint

    def value(v):
        if not isinstance(v, Cases):
            return toint(force(v))
        t = toint(v.alts[-1][1])
        for c, x in reversed(v.alts[:-1]):
            t = z3.If(c, toint(x), t)
        return t

    def unknown(name, sort=z3.IntSort()):
        return z3.Function(e.fresh_name(name), *[z3.IntSort()] * len(ctx), sort)(*ctx) if ctx else z3.Const(e.fresh_name(name), sort)

    R = unknown("extreme", sort)

    def leq(v):
        return value(v) <= R if largest else value(v) >= R

    def bound(s):
        if isinstance(s, One):
            return leq(s.v)
        if isinstance(s, Fam):
            v = V.index_var("xt")
            f = leq(subst(s.val, [(s.var, v)]))
            return z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < s.n), f))
        if isinstance(s, Guard):
            return z3.Implies(s.c, z3.And(*[bound(x) for x in s.segs]))
        if isinstance(s, Flat):
            v = V.index_var("xt")
            fs = [bound(subst(x, [(s.var, v)])) for x in s.segs]
            return z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < s.n), z3.And(*fs)))
        raise Unsupported("extremum of a guarded sequence")

    def fact(s):
        if isinstance(s, (Fam, Flat)):
            v = V.index_var("xt")
            if isinstance(s, Fam):
                e.add_qfact(s.n, v, leq(subst(s.val, [(s.var, v)])))
                return
            for x in s.segs:
                e.add_qfact(s.n, v, bound(subst(x, [(s.var, v)])))
            return
        e.assume(bound(s))

    def member(s):
        if isinstance(s, One):
            return value(s.v) == R
        w = unknown("at")
        e.reg_index(w)
        rng = z3.And(w >= 0, w < s.n)
        if isinstance(s, Fam):
            return z3.And(rng, value(subst(s.val, [(s.var, w)])) == R)
        if isinstance(s, Flat):
            return z3.And(rng, z3.Or(*[member(subst(x, [(s.var, w)])) for x in s.segs]))
        if isinstance(s, Guard):
            return z3.And(s.c, z3.Or(*[member(x) for x in s.segs]))
        raise Unsupported("extremum of a guarded sequence")

    for s in segs:
        fact(s)
    e.assume(z3.Or(*[member(s) for s in segs]))
    return SReal(R) if real else mkint(R)


def s_max(I, *args, key=None, default=_MISSING):
    return _extremum(I, pylib.max_plain, pylib.max_, builtins.max, args, key, default)


def s_min(I, *args, key=None, default=_MISSING):
    return _extremum(I, pylib.min_plain, pylib.min_, builtins.min, args, key, default)


def s_sum(I, it, start=0):
    segs = V.norm_segs(I.iter_segs(it))
    start = force(start)
    fams = [x.val for x in segs if isinstance(x, Fam) and not isinstance(x.val, Cases)]
    if fams and len(fams) == len(segs) and core._num_kind(start) and not isinstance(start, (bool, SBool)):
        # a start value of a smaller type (0 + 1j ... ): the same number in the type of the elements
        k = max(core._num_kind(x) or 0 for x in fams)
        if k > core._num_kind(start) and all(core._num_kind(x) for x in fams):
            if not I.e.choose(V.segs_len(segs) > 0):
                return start
            c = SComplex.of(start)
            start = c if k == 3 else SReal(c.re)
    return I.call(pylib.sum_, [PyIter(segs), start])


def s_reduce(I, f, it, *init):
    if init:
        return I.call(pylib.reduce_init, [f, it, init[0]])
    segs = V.norm_segs(I.iter_segs(it))
    if not segs:
        raise TypeError("reduce() of empty iterable with no initial value")
    lift = getattr(I, "reduce_lift", None)
    if lift is not None and len(segs) > 1 and isinstance(segs[0], One):
        return I.call(pylib.reduce_init, [f, PyList(segs[1:]), lift(segs[0].v)])
    return I.call(pylib.reduce_, [f, PyList(segs)])


def s_any(I, it):
    return I.call(pylib.any_, [it])


def s_all(I, it):
    return I.call(pylib.all_, [it])


def less(I, a, b):
    import ast

    return I.truth(I.compare(ast.Lt(), a, b))


def s_sorted(I, it, key=None, reverse=False):
    if key is None and reverse is False and hasattr(force(it), "__pyvc_sorted__"):
        return force(it).__pyvc_sorted__(I)
    if isinstance(force(it), PySet) and not force(it).concrete and _keyed_elements(force(it).segs):
        from .seen import Ordered

        return Ordered(force(it).segs, key, I.truth(reverse))
    segs = V.norm_segs(I.iter_segs(it))
    if not all(isinstance(s, One) for s in segs):
        raise Unsupported("sorting a symbolic sequence")
    vals = [force(s.v) for s in segs]
    return PyList.of(sort_vals(I, vals, key, I.truth(reverse)))


def _plain(v):
    if isinstance(v, tuple):
        return all(_plain(x) for x in v)
    return isinstance(v, (int, float, str, bytes, np.number))


def sort_vals(I, vals, key, reverse):
    keys = [v if key is None else force(I.call(key, [v])) for v in vals]
    if all(_plain(k) for k in keys):
        order = sorted(range(len(vals)), key=lambda j: keys[j], reverse=reverse)
        return [vals[j] for j in order]
    # stable insertion sort with symbolic comparisons
    if reverse:
        vals, keys = vals[::-1], keys[::-1]
    out = []
    for v, k in zip(vals, keys):
        p = len(out)
        while p > 0 and less(I, k, out[p - 1][1]):
            p -= 1
        out.insert(p, (v, k))
    r = [v for v, _ in out]
    return r[::-1] if reverse else r


def s_isinstance(I, v, cls):
    v = force(v)
    if isinstance(cls, (tuple, PyTuple)):
        for c in (cls if isinstance(cls, tuple) else cls.items_()):
            if I.truth(s_isinstance(I, v, c)):
                return True
        return False
    if hasattr(v, "__pyvc_isinstance__"):
        return v.__pyvc_isinstance__(I, cls)
    if isinstance(cls, types.UnionType) or typing.get_origin(cls) is typing.Union:
        return s_isinstance(I, v, typing.get_args(cls))
    if isinstance(v, Abs):
        rs = [issubclass(c, cls) for c in v._pyclasses]
        if rs and all(rs):
            return True
        if rs and not any(rs):
            return False
        raise Unsupported(f"isinstance of abstract {type(v).__name__} with {cls}")
    if isinstance(v, (Sym, SComplex, SStr, Cont)) or type(v).__name__ == "IFunc":
        c = I.class_of(v)
        if isinstance(v, PyRange):
            c = range
        return issubclass(c, cls)
    return isinstance(v, cls)


def s_type(I, v, *rest):
    if rest:
        raise Unsupported("type() with three arguments")
    return I.class_of(v)


def s_issubclass(I, a, b):
    return issubclass(a, b)


def s_hasattr(I, v, name):
    if isinstance(force(v), (Cont, Sym, SComplex)) and name.startswith("__"):
        return hasattr(I.class_of(force(v)), name)
    try:
        I.getattr(v, name)
        return True
    except AttributeError:
        return False


def s_getattr(I, v, name, default=_MISSING):
    try:
        return I.getattr(v, name)
    except AttributeError:
        if default is _MISSING:
            raise
        return default


def s_setattr(I, v, name, x):
    I.setattr(v, name, x)


def s_object_setattr(I, o, name, v):
    I.setattr_raw(o, name, v)


def s_int(I, x=0, base=None):
    x = force(x)
    if isinstance(x, SBool):
        return mkint(toint(x))
    if isinstance(x, SInt):
        return x
    if isinstance(x, SReal):
        t = x.t
        if I.e.choose(t >= 0):
            return mkint(z3.ToInt(t))
        return mkint(-z3.ToInt(-t))
    if isinstance(x, SStr):
        if len(x.parts) == 1 and not isinstance(x.parts[0], str) and x.parts[0][0] in ("str", "char") and core.is_int(x.parts[0][1]):
            return x.parts[0][1]
        raise Unsupported("int of symbolic text")
    if hasattr(x, "__pyvc_int__"):
        return x.__pyvc_int__(I)
    if _is_repo_instance(x):
        return I.call(I.find_method(type(x), "__int__"), [x])
    if isinstance(x, (SComplex,)):
        raise TypeError("int() argument must not be 'complex'")
    return int(x) if base is None else int(x, base)


def s_float(I, x=0.0):
    x = force(x)
    if isinstance(x, (SInt, SBool, SReal)):
        return SReal(toreal(x))
    if isinstance(x, SComplex):
        raise TypeError("float() argument must not be 'complex'")
    if hasattr(x, "__pyvc_float__"):
        return x.__pyvc_float__(I)
    return float(x)


def s_complex(I, a=0, b=None):
    a = force(a)
    if any(isinstance(x, (Sym, SComplex)) for x in (a, b)):
        r = SComplex.of(a)
        if b is not None:
            r = r + SComplex.of(b) * 1j
        return r
    if hasattr(a, "__pyvc_complex__"):
        return a.__pyvc_complex__(I)
    return complex(a) if b is None else complex(a, b)


def s_abs(I, x):
    x = force(x)
    if _is_repo_instance(x):
        return I.call(I.find_method(type(x), "__abs__"), [x])
    return abs(x)


def s_bool(I, x=False):
    x = force(x)
    if isinstance(x, SBool):
        return x
    return I.truth(x)


def text_of(I, v, spec=""):
    v = force(v)
    if isinstance(v, str) and not spec:
        return v
    if isinstance(v, SStr):
        return v
    if isinstance(v, (int, float, complex, str, type(None))):
        return format(v, spec)
    if _is_repo_instance(v):
        m = I.find_method(type(v), "__str__")
        import dataclasses as dc

        from .interp import is_repo_function

        if m is not None and is_repo_function(m):
            return I.call(m, [v])
        m = I.find_method(type(v), "__repr__")
        if m is not None and is_repo_function(m):
            return I.call(m, [v])
        return SStr([("str", v)])
    if isinstance(v, SInt) and spec:
        from . import bits

        r = bits.formatted(I, v, spec)
        if r is not None:
            return r
    if isinstance(v, (Cont, Abs, Sym, SComplex)) or hasattr(v, "__pyvc_value__"):
        if spec:
            return SStr([("fmt", spec, v)])
        if hasattr(v, "__pyvc_str__"):
            return v.__pyvc_str__(I)
        return SStr([("str", v)])
    if isinstance(v, (tuple, list)):
        return SStr([("str", v)])
    return format(v, spec) if spec else str(v)


def s_str(I, v=""):
    return text_of(I, v)


def s_repr(I, v):
    v = force(v)
    if _is_repo_instance(v):
        from .interp import is_repo_function

        m = I.find_method(type(v), "__repr__")
        if m is not None and is_repo_function(m):
            return I.call(m, [v])
        return SStr([("repr", v)])
    if isinstance(v, (Cont, Abs, Sym, SComplex, SStr, tuple)):
        return SStr([("repr", v)])
    return repr(v)


def s_format(I, v, spec=""):
    return text_of(I, v, spec)


def s_hash(I, v):
    v = force(v)
    if _is_repo_instance(v):
        from .interp import is_repo_function

        m = I.find_method(type(v), "__hash__")
        if m is not None and is_repo_function(m):
            return I.call(m, [v])
    return GhostHash(v)


class GhostHash:
    """hash of a value: equal for equal values"""

    __pyvc_value__ = True

    def __init__(self, v):
        self.v = v

    def __pyvc_eqv__(self, o):
        return V.eqv(self.v, o.v) if isinstance(o, GhostHash) else False

    def __pyvc_subst__(self, f):
        return GhostHash(f(self.v))


def s_iter(I, it, *a):
    if a:
        raise Unsupported("iter with a sentinel")
    it = force(it)
    if isinstance(it, PyIter):
        return it
    return PyIter(I.iter_segs(it))


def s_next(I, it, default=_MISSING):
    it = force(it)
    if not isinstance(it, PyIter):
        if isinstance(it, (itertools.count,)) or hasattr(it, "__next__"):
            return next(it) if default is _MISSING else next(it, default)
        raise TypeError(f"{type(it).__name__!r} object is not an iterator")
    segs = V.norm_segs(it.segs)
    if len(segs) == 1 and isinstance(segs[0], Flat) and len(segs[0].segs) == 1 and isinstance(segs[0].segs[0], Guard) and [type(x) for x in segs[0].segs[0].segs] == [One]:
        return first_hit(I, it, segs[0], default)
    if segs and not isinstance(segs[0], One):
        if not I.e.choose(V.segs_len(segs) > 0):
            segs = []
        elif isinstance(segs[0], Fam) and I.e.valid(segs[0].n >= 1):
            f = segs[0]
            segs = [One(V.inst(f, z3.IntVal(0))), Fam(z3.simplify(f.n - 1), f.var, subst(f.val, [(f.var, f.var + 1)]))] + list(segs[1:])
        else:
            raise Unsupported("next on a symbolic sequence")
    if not segs:
        if default is _MISSING:
            raise StopIteration
        return default
    it.set_checked(I, segs[1:])
    return force(segs[0].v)


def first_hit(I, it, s, default):
    """next of the elements that satisfy a condition"""
    e, i, g = I.e, s.var, s.segs[0]
    j = V.index_var("j")
    at = lambda t: z3.substitute(g.c, (i, t))
    if not e.choose(z3.Bool(e.fresh_name("hit"))):
        e.add_qfact(s.n, j, z3.Not(at(j)))
        e.add(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < s.n), z3.Not(at(j)))))
        if default is _MISSING:
            raise StopIteration
        it.set_checked(I, ())
        return default
    k = z3.Int(e.fresh_name("first"))
    e.add(z3.And(k >= 0, k < s.n, at(k)))
    e.add_qfact(k, j, z3.Not(at(j)))
    it.set_checked(I, (Hole(e.fresh_name("rest")),))
    return force(subst(g.segs[0].v, [(i, k)]))


def s_callable(I, v):
    return callable(v) or type(v).__name__ == "IFunc"


def s_print(I, *a, **k):
    return None


def s_round(I, x, nd=None):
    if isinstance(x, SInt) and nd is None:
        return x
    if isinstance(x, Sym):
        if nd is None:
            n = I.e.int()
            I.e.assume(z3.And(2 * (x.t - z3.ToReal(n.t)) <= 1, 2 * (z3.ToReal(n.t) - x.t) <= 1))
            return n
        raise Unsupported("round of a symbolic value")
    return round(x) if nd is None else round(x, nd)


def s_divmod(I, a, b):
    return (a // b, a % b)


def s_pow(I, a, b, m=None):
    if m is not None:
        raise Unsupported("modular power")
    import ast

    return I.binop(ast.Pow(), a, b)


def s_id(I, v):
    raise Unsupported("id()")


def s_bin(I, v):
    v = force(v)
    if isinstance(v, SInt):
        from . import bits

        return bits.Binary(v.t)
    return bin(v)


# -------------------------------------------------------------------- itertools / functools / operator / copy
def s_islice(I, it, *args):
    a = [force(x) for x in args]
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if step not in (1, None):
        raise Unsupported("islice with a step")
    start = 0 if start is None else start
    segs = I.iter_segs(it) if not isinstance(it, PyIter) else it.segs
    if isinstance(stop, (int, SInt)) and I.truth(I_lt(stop, 0)):
        raise ValueError("Stop argument for islice() must be None or an integer: 0 <= x <= sys.maxsize.")
    head, rest = split_at(I, segs, start)
    if stop is None:
        taken, rest = rest, []
    else:
        taken, rest = split_at(I, rest, stop - start)
    if isinstance(it, PyIter):
        I.e.drops.add("islice consumes its source eagerly")
        it.set_checked(I, rest)
    return PyIter(taken)


def I_lt(a, b):
    return a < b


def split_at(I, segs, k):
    """(first k elements, the rest) — forks on lengths"""
    e = I.e
    segs = V.norm_segs(segs)
    taken = []
    k = toint(k)
    while segs:
        if not e.choose(k > 0):
            return taken, segs
        s = segs[0]
        if isinstance(s, One):
            taken.append(s)
            segs = segs[1:]
            k = z3.simplify(k - 1)
            continue
        if isinstance(s, Fam):
            if e.choose(s.n <= k):
                taken.append(s)
                segs = segs[1:]
                k = z3.simplify(k - s.n)
                continue
            taken.append(Fam(k, s.var, s.val))
            rest = Fam(z3.simplify(s.n - k), s.var, subst(s.val, [(s.var, s.var + k)]))
            return taken, [rest] + list(segs[1:])
        n = z3.simplify(V.segs_len([s]))
        if e.choose(n <= k):
            taken.append(s)
            segs = segs[1:]
            k = z3.simplify(k - n)
            continue
        raise Unsupported("splitting a nested symbolic sequence")
    return taken, segs


def s_chain(I, *its):
    out = []
    for x in its:
        out.extend(I.iter_segs(x))
    return PyIter(out)


def case_segs(I, v):
    """the elements of a sequence that is one of several"""
    if not isinstance(v, Cases):
        return tuple(I.iter_segs(v))
    return tuple(Guard(c, case_segs(I, x)) for c, x in v.alts)


def flat_segs(I, segs):
    out = []
    for s in segs:
        if isinstance(s, One):
            out.extend(I.iter_segs(s.v))
        elif isinstance(s, Fam):
            out.append(Flat(s.n, s.var, case_segs(I, s.val)))
        elif isinstance(s, Flat):
            out.append(Flat(s.n, s.var, tuple(flat_segs(I, s.segs))))
        elif isinstance(s, Guard):
            out.append(Guard(s.c, tuple(flat_segs(I, s.segs))))
        else:
            raise Unsupported("flattening")
    return out


def s_chain_from(I, it):
    return PyIter(flat_segs(I, I.iter_segs(it)))


def s_product(I, *its, repeat=1):
    if isinstance(repeat, Sym):
        from . import bits

        pool = V.norm_segs(I.iter_segs(its[0])) if len(its) == 1 else ()
        if not pool or not all(isinstance(s, One) for s in pool):
            raise Unsupported("product with a symbolic repeat count")
        return bits.product(I, [force(s.v) for s in pool], repeat)
    pools = [V.norm_segs(I.iter_segs(x)) for x in its] * repeat
    if not all(isinstance(s, One) for p in pools for s in p):
        return PyIter(tuple(_cross(pools, ())))
    pools = [[force(s.v) for s in p] for p in pools]
    return PyIter.of([tuple(p) for p in itertools.product(*pools)])


def _cross(pools, chosen):
    """nested families, first pool outermost"""
    if not pools:
        return [One(chosen)]
    out = []
    for s in pools[0]:
        if isinstance(s, One):
            out += _cross(pools[1:], chosen + (s.v,))
        elif isinstance(s, Fam):
            v = V.index_var("x")
            inner = _cross(pools[1:], chosen + (subst(s.val, [(s.var, v)]),))
            out.append(Fam(s.n, v, inner[0].v) if len(inner) == 1 and isinstance(inner[0], One) else Flat(s.n, v, tuple(inner)))
        else:
            raise Unsupported("product of structured sequences")
    return out


def _ones(I, it):
    segs = V.norm_segs(I.iter_segs(it))
    if not all(isinstance(s, One) for s in segs):
        raise Unsupported("symbolic sequence for a combinatoric iterator")
    return segs


def _combi(f):
    def g(I, it, *a, **k):
        vals = [force(s.v) for s in _ones(I, it)]
        return PyIter.of([tuple(x) for x in f(vals, *[I.to_native(x) for x in a], **{n: I.to_native(x) for n, x in k.items()})])

    return g


def s_groupby(I, it, key=None):
    segs = V.norm_segs(I.iter_segs(it))
    if not all(isinstance(s, One) for s in segs):
        r = getattr(I, "groupby_symbolic", None)
        if r is None:
            raise Unsupported("groupby over a symbolic sequence")
        return r(I, segs, key)
    out = []
    curk, cur = None, None
    for s in segs:
        v = force(s.v)
        k = v if key is None else I.call(key, [v])
        if cur is not None and I.truth(I.py_eq(k, curk)):
            cur.append(v)
        else:
            cur = [v]
            curk = k
            out.append((k, cur))
    return PyIter.of([(k, PyIter.of(g)) for k, g in out])


def s_repeat(I, v, times=None):
    if times is None:
        raise Unsupported("infinite repeat")
    if isinstance(times, Sym):
        if not I.e.choose(times.t > 0):
            return PyIter(())
        return PyIter((Fam(times.t, V.index_var("rep"), v),))
    return PyIter.of([v] * times)


def s_accumulate(I, it, func=None):
    import ast

    vals = [force(s.v) for s in _ones(I, it)]
    out = []
    for v in vals:
        out.append(v if not out else (I.binop(ast.Add(), out[-1], v) if func is None else I.call(func, [out[-1], v])))
    return PyIter.of(out)


def s_count(I, start=0, step=1):
    return itertools.count(start, step)


def _op(node):
    def f(I, a, b):
        return I.binop(node, a, b)

    return f


def _cmpop(node):
    def f(I, a, b):
        return I.compare(node, a, b)

    return f


def s_attrgetter(I, *names):
    if len(names) != 1:
        raise Unsupported("attrgetter of several names")

    class G:
        __pyvc_value__ = True

        def __pyvc_call__(self, I, segs, kw):
            o = force(segs[0].v)
            for p in names[0].split("."):
                o = I.getattr(o, p)
            return o

    return G()


def s_itemgetter(I, *ks):
    class G:
        __pyvc_value__ = True

        def __pyvc_call__(self, I, segs, kw):
            o = force(segs[0].v)
            r = [getitem(I, o, k) for k in ks]
            return r[0] if len(r) == 1 else tuple(r)

    return G()


def s_copy(I, v):
    v = force(v)
    if isinstance(v, Cont):
        return clone(v)
    if _is_repo_instance(v):
        m = I.find_method(type(v), "__copy__")
        if m is not None:
            return I.call(m, [v])
        o = I.new_instance(type(v))
        o.__dict__.update(v.__dict__)
        return o
    if isinstance(v, (Sym, SComplex, SStr, Abs)):
        return v
    return _copy.copy(v)


def clone(v):
    o = type(v)(v.segs)
    for k in ("default", "counter", "ordered"):
        if k in v.__dict__:
            o.__dict__[k] = v.__dict__[k]
    return o


def s_deepcopy(I, v, memo=None):
    memo = {} if not isinstance(memo, dict) else memo
    return _deep(I, v, memo)


def _deep_seg(I, s, memo):
    if isinstance(s, One):
        return One(_deep(I, s.v, memo))
    if isinstance(s, Fam):
        return Fam(s.n, s.var, _deep(I, s.val, memo))
    if isinstance(s, Flat):
        return Flat(s.n, s.var, tuple(_deep_seg(I, x, memo) for x in s.segs))
    if isinstance(s, Guard):
        return Guard(s.c, tuple(_deep_seg(I, x, memo) for x in s.segs))
    return s


def _deep(I, v, memo):
    v = force(v)
    if id(v) in memo:
        return memo[id(v)][1]
    if isinstance(v, (PyTuple, PyFrozenSet)) or isinstance(v, tuple):
        if isinstance(v, tuple):
            vals = [_deep(I, x, memo) for x in v]
            return tuple(vals) if type(v) is tuple else tuple.__new__(type(v), vals)
        return type(v)(tuple(_deep_seg(I, s, memo) for s in v.segs))
    if isinstance(v, Cont):
        o = clone(v)
        memo[id(v)] = (v, o)
        o.segs = tuple(_deep_seg(I, s, memo) for s in v.segs)
        return o
    if _is_repo_instance(v):
        m = I.find_method(type(v), "__deepcopy__")
        if m is not None:
            return I.call(m, [v, PyDict()])
        o = I.new_instance(type(v))
        memo[id(v)] = (v, o)
        for k, x in v.__dict__.items():
            o.__dict__[k] = _deep(I, x, memo)
        return o
    if isinstance(v, (Sym, SComplex, SStr, Abs)) or v is None or isinstance(v, (int, float, complex, str, type)):
        return v
    if isinstance(v, np.ndarray) and v.dtype == object:
        return v.copy()
    return _copy.deepcopy(v)


def s_replace(I, o, **changes):
    if not _is_repo_instance(o):
        if hasattr(o, "__pyvc_replace__"):
            return o.__pyvc_replace__(I, changes)
        raise Unsupported("replace of a non-repository object")
    kw = {}
    for f in dataclasses.fields(o):
        if not f.init:
            continue
        kw[f.name] = changes.pop(f.name) if f.name in changes else I.getattr(o, f.name)
    if changes:
        raise TypeError(f"unexpected keyword arguments {list(changes)}")
    return I.call(type(o), [], kw)


def s_fields(I, o):
    return dataclasses.fields(o)


def s_cast(I, t, v):
    return v


def s_warn(I, *a, **k):
    return None


def s_partial(I, f, *a, **k):
    return functools.partial(f, *a, **k)


def s_vars(I, o):
    raise Unsupported("vars()")


# -------------------------------------------------------------------- math
def s_np_close(I, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    """np.isclose / np.allclose of two numbers: |a - b| <= atol + rtol |b|"""
    a, b = force(a), force(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym) and _plain(a) and _plain(b):
        return bool(np.isclose(a, b, rtol=rtol, atol=atol))
    if any(isinstance(x, Sym) for x in (rtol, atol)):
        raise Unsupported("symbolic tolerance")

    def parts(x):
        if isinstance(x, SComplex):
            return x.re, x.im
        if isinstance(x, complex):
            return toreal(x.real), toreal(x.imag)
        if isinstance(x, (SInt, SReal, int, float, np.number)):
            return toreal(x), z3.RealVal(0)
        raise Unsupported("closeness of these values")

    (ar, ai), (br, bi) = parts(a), parts(b)
    at, rt = z3.Q(*float(atol).as_integer_ratio()), z3.Q(*float(rtol).as_integer_ratio())
    if rtol == 0 or not isinstance(b, Sym) and b == 0:
        tol = at
    elif not isinstance(b, Sym):
        tol = at + rt * z3.Q(*float(abs(b)).as_integer_ratio())
    elif not isinstance(b, SComplex):
        tol = at + rt * z3.If(br >= 0, br, -br)
    else:
        raise Unsupported("relative tolerance against a symbolic complex number")
    x, y = z3.simplify(ar - br), z3.simplify(ai - bi)
    if z3.is_rational_value(y) and y.as_fraction() == 0:
        return mkbool(z3.And(x <= tol, -x <= tol))
    tol = z3.simplify(tol)
    near = z3.Function("near·" + str(tol), z3.RealSort(), z3.RealSort(), z3.BoolSort())(x, y)
    if getattr(I.e, "near_defined", False):  # otherwise an arbitrary predicate of the difference
        I.e.add(near == (x * x + y * y <= z3.simplify(tol * tol)))
    return mkbool(near)


def s_isinf(I, a):
    a = force(a)
    if isinstance(a, (SInt, SReal)):
        return False  # machine floats are treated as reals
    return math.isinf(a)


def s_isnan(I, a):
    a = force(a)
    if isinstance(a, (SInt, SReal)):
        return False
    return math.isnan(a)


def s_isclose(I, a, b, *, rel_tol=1e-09, abs_tol=0.0):
    a, b = force(a), force(b)
    if not any(isinstance(x, (Sym, SComplex)) for x in (a, b)):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    x, y = toreal(a), toreal(b)
    ab = lambda t: z3.If(t >= 0, t, -t)
    m = z3.If(ab(x) >= ab(y), ab(x), ab(y))
    return mkbool(z3.Or(ab(x - y) <= toreal(rel_tol) * m, ab(x - y) <= toreal(abs_tol)))


def s_log2(I, x):
    x = force(x)
    if isinstance(x, SInt):
        # only of powers of two: the exponent is a fresh integer
        t = x.t
        if z3.is_app(t) and t.decl().name() == "pow2":
            return mkint(t.arg(0))
        k = getattr(I.e, "log2_terms", {}).get(t.get_id())
        if k is not None:
            return mkint(k)
        raise Unsupported("log2 of a symbolic integer that isn't syntactically a power of two")
    if isinstance(x, Sym):
        raise Unsupported("log2 of a symbolic value")
    return np.log2(x)


def s_sqrt(I, x):
    x = force(x)
    if hasattr(x, "__pyvc_sqrt__"):
        return x.__pyvc_sqrt__(I)
    if isinstance(x, (SInt, SReal)):
        r = I.e.real()
        t = toreal(x)
        if I.e.choose(t < 0):
            raise ValueError("math domain error")
        I.e.assume(z3.And(r.t >= 0, r.t * r.t == t))
        return r
    return math.sqrt(x)


def s_np_sqrt(I, x):
    x = force(x)
    if isinstance(x, (SInt, SReal)):
        if not I.e.valid(toreal(x) >= 0):
            raise Unsupported("numpy square root of a number that may be negative")
        return s_sqrt(I, x)
    return I.native(np.sqrt, [x], {})


def s_ceil(I, x):
    x = force(x)
    if isinstance(x, (SInt,)):
        return x
    if isinstance(x, SReal):
        return mkint(-z3.ToInt(-x.t))
    return math.ceil(x)


def s_floor(I, x):
    x = force(x)
    if isinstance(x, (SInt,)):
        return x
    if isinstance(x, SReal):
        return mkint(z3.ToInt(x.t))
    return math.floor(x)


def s_conj(I, x):
    x = force(x)
    if isinstance(x, (Sym, SComplex)):
        return x.conjugate()
    return np.conj(x)


def s_np_prod(I, x, *a, **k):
    if a or k:
        raise Unsupported("np.prod with an axis")
    x = force(x)
    if isinstance(x, np.ndarray) and x.dtype != object:
        return np.prod(x)
    r = I.call(pylib.prod_, [x])
    return r


def s_np_array(I, x, dtype=None, **k):
    x = force(x)
    if hasattr(x, "__pyvc_array__"):
        return x.__pyvc_array__(I, dtype)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x.copy()
    try:
        return np.array(I.to_native(x), dtype=dtype, **k)
    except Unsupported:
        n = nested(I, x)
        return object_array(n)


def s_np_asarray(I, x, dtype=None, **k):
    x = force(x)
    if isinstance(x, np.ndarray) and (dtype is None or x.dtype == object):
        return x
    return s_np_array(I, x, dtype, **k)


def nested(I, x):
    x = force(x)
    if isinstance(x, (PyList, PyTuple, tuple, list)):
        return [nested(I, s.v) for s in _ones(I, x)]
    if isinstance(x, np.ndarray):
        return [nested(I, y) for y in x]
    return x


def object_array(n):
    shape = []
    m = n
    while isinstance(m, list):
        shape.append(len(m))
        if not m:
            break
        m = m[0]
    a = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        v = n
        for j in idx:
            v = v[j]
        a[idx] = v
    return a


# -------------------------------------------------------------------- items
def _norm_index(I, k, n):
    """index into a sequence of concrete length n (forks on symbolic indices)"""
    if isinstance(k, SBool):
        k = mkint(toint(k))
    if isinstance(k, SInt):
        for j in range(-n, n):
            if I.e.choose(k.t == j):
                return j
        raise IndexError("index out of range")
    k = operator.index(k)
    if not -n <= k < n:
        raise IndexError("index out of range")
    return k


def getitem(I, o, k):
    if isinstance(o, Poison):
        raise Unsupported(o.why)
    if hasattr(o, "__pyvc_getitem__"):
        return o.__pyvc_getitem__(I, k)
    if isinstance(o, PyDict):
        return dict_getitem(I, o, k)
    if isinstance(o, PySet):
        raise TypeError("'set' object is not subscriptable")
    if isinstance(o, PyIter):
        raise TypeError("'generator' object is not subscriptable")
    if isinstance(o, (PyList, PyTuple)):
        if isinstance(k, slice):
            r = slice_segs(I, o.segs, k)
            return PyList(r) if isinstance(o, PyList) else conc_tuple(r)
        if not core.is_int(k):
            raise TypeError("list indices must be integers or slices")
        return index_segs(I, o.segs, k)
    if isinstance(o, (tuple, list, range)) and not isinstance(k, slice) or isinstance(o, str) and isinstance(k, Sym):
        if isinstance(k, (SInt, SBool)):
            return o[_norm_index(I, k, len(o))]
        r = o[k]
        return force(r) if isinstance(r, Cases) else r
    if isinstance(o, (tuple, list, range, str)) and isinstance(k, slice):
        if any(isinstance(x, Sym) for x in (k.start, k.stop, k.step)):
            r = slice_segs(I, I.iter_segs(o), k)
            return conc_tuple(r) if not isinstance(o, list) else PyList(r)
        return o[k]
    if isinstance(o, dict):
        return native_dict_get(I, o, k)
    if _is_repo_instance(o):
        m = I.find_method(type(o), "__getitem__")
        if m is None:
            raise TypeError(f"{type(o).__name__!r} object is not subscriptable")
        return I.call(m, [o, k])
    if isinstance(o, np.ndarray):
        k = I.to_native_index(k)
        if o.dtype == object and isinstance(k, (SInt,)):
            return o[_norm_index(I, k, len(o))]
        return o[k]
    if isinstance(o, SStr):
        from .text import chars

        c = chars(o)
        if c is not None:
            r = getitem(I, PyTuple(c), k)
            return I.str_join("", r) if isinstance(k, slice) else r
        ps = []
        for p in o.parts:
            if isinstance(p, str):
                ps.extend(p)
            elif p[0] == "char":
                ps.append(SStr([p]))
            else:
                raise Unsupported("indexing symbolic text")
        if isinstance(k, slice):
            return mkstr(ps[I.to_native(k.start):I.to_native(k.stop):I.to_native(k.step)])
        return ps[_norm_index(I, k, len(ps))]
    return o[I.to_native(k)] if not isinstance(k, slice) else o[k]


def index_segs(I, segs, k):
    e = I.e
    if all(isinstance(s, One) for s in segs):
        return force(segs[_norm_index(I, k, len(segs))].v)
    segs = V.norm_segs(segs)
    if all(isinstance(s, One) for s in segs):
        return force(segs[_norm_index(I, k, len(segs))].v)
    kt = toint(k)
    L = V.segs_len(segs)
    if e.choose(kt < 0):
        kt = z3.simplify(kt + L)
        if e.choose(kt < 0):
            raise IndexError("index out of range")
    elif e.choose(kt >= L):
        raise IndexError("index out of range")
    off = z3.IntVal(0)
    for s in segs:
        n = V.seg_len(s)
        if s is segs[-1] or e.choose(kt < off + n):
            rel = z3.simplify(kt - off)
            if isinstance(s, One):
                return force(s.v)
            if isinstance(s, Fam):
                return V.inst(s, rel)
            if isinstance(s, Guard):
                return index_segs(I, s.segs, mkint(rel))
            raise Unsupported("indexing a nested symbolic sequence")
        off = z3.simplify(off + n)
    raise Unsupported("indexing")


def slice_segs(I, segs, k):
    e = I.e
    if all(isinstance(s, One) for s in segs) and not any(isinstance(x, Sym) for x in (k.start, k.stop, k.step)):
        return tuple(segs)[slice(*(None if x is None else operator.index(x) for x in (k.start, k.stop, k.step)))]
    step = 1 if k.step is None else k.step
    if step == -1 and k.start is None and k.stop is None:
        return reverse_segs(segs)
    if step != 1:
        raise Unsupported("slice with a step of a symbolic sequence")
    L = V.segs_len(segs)

    def bound(x, default):
        if x is None:
            return default
        t = toint(x)
        if e.choose(t < 0):
            t = z3.simplify(t + L)
            if e.choose(t < 0):
                return z3.IntVal(0)
            return t
        if e.choose(t > L):
            return L
        return t

    a, b = bound(k.start, z3.IntVal(0)), bound(k.stop, L)
    if not e.choose(a < b):
        return ()
    _, rest = split_at(I, segs, mkint(a))
    if k.stop is None:
        return tuple(rest)
    taken, _ = split_at(I, rest, mkint(b - a))
    return tuple(taken)


def _same_key(I, a, b):
    if type(a) in (int, str, bool, float) and type(b) in (int, str, bool, float):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) and _plain(a) and _plain(b):
        return a == b
    r = I.py_eq(a, b)
    return r


def dict_find(I, d, k, store=False):
    """position of key k in the dict, or None (forks); (segment, index) inside a family of entries"""
    if isinstance(k, (PyList, PyDict, list, dict)) or type(k) is PySet:
        raise TypeError("unhashable type")
    for j, s in enumerate(d.segs):
        if isinstance(s, Fam):
            t = _fam_find(I, s, k)
            if t is not None:
                return (j, t)
            continue
        if isinstance(s, Hole) and store:
            # an entry of an earlier iteration: excluded when the loop is summarised (keys of different iterations differ)
            continue
        if isinstance(s, Hole):
            from .groups import present

            if I.e.choose(present(s, k)):
                return ("group", k)
            continue
        if isinstance(s, Flat) and len(s.segs) == 1 and isinstance(s.segs[0], Guard) and [type(x) for x in s.segs[0].segs] == [One]:
            from . import seen
            from .groups import key_term

            g = s.segs[0]
            known = seen.member((Flat(s.n, s.var, (Guard(g.c, (One(force(g.segs[0].v)[0]),)),)),), key_term(k))
            if store and not I.e.valid(z3.Not(known)):
                raise Unsupported("lookup in a symbolic dictionary")
            if not store and I.e.choose(known):
                return ("group", k)
            continue
        if not isinstance(s, One):
            raise Unsupported("lookup in a symbolic dictionary")
        r = _same_key(I, s.v[0], k)
        if r is False:
            continue
        if r is True or I.truth(r):
            return j
    return None


def _fam_find(I, f, k):
    """index of the entry with key k in a family of entries (keys are pairwise different); None when absent"""
    e = I.e
    cands = []
    V.subst(k, lambda t: (cands.extend(_index_terms(t)), t)[1])
    seen = []
    for t in cands:
        if any(t.eq(x) for x in seen):
            continue
        seen.append(t)
        if not e.valid(z3.And(t >= 0, t < f.n)):
            continue
        try:
            c = V.eqv(V.inst(f, t)[0], k)
        except Unsupported:
            continue
        if c is True or c is not False and e.valid(c):
            return t

    def absent(t):
        c = V.eqv(V.inst(f, t)[0], k)
        return z3.Not(zbool(c))

    if V.holds_generic(f.n, absent):
        return None
    raise Unsupported("lookup in a symbolic dictionary")


def _index_terms(t, seen=None):
    """integer arguments of uninterpreted functions and index variables: possible positions"""
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        if t.num_args() == 0 and t.sort() == z3.IntSort():
            yield t
        for a in t.children():
            if a.sort() == z3.IntSort() and not z3.is_int_value(a):
                yield a
    for c in t.children():
        yield from _index_terms(c, seen)


def dict_value(d, j):
    if isinstance(j, tuple) and j[0] == "group":
        from .groups import GroupRef

        return GroupRef(d, j[1])
    if isinstance(j, tuple):
        return force(V.inst(d.segs[j[0]], j[1])[1])
    return force(d.segs[j].v[1])


def dict_get(I, d, k, default=None):
    j = dict_find(I, d, k)
    return default if j is None else dict_value(d, j)


def dict_getitem(I, d, k):
    j = dict_find(I, d, k)
    if j is None:
        if d.counter:
            return 0
        if d.default is not None:
            v = I.call(d.default)
            d.set_checked(I, d.segs + (One((k, v)),))
            return v
        raise KeyError(k)
    return dict_value(d, j)


def native_dict_get(I, o, k):
    if isinstance(k, (Sym, SStr, Abs, SComplex)) or isinstance(k, tuple) and not _plain(k):
        for kk, v in o.items():
            r = I.py_eq(kk, k)
            if r is not False and I.truth(r):
                return v
        raise KeyError("symbolic key")
    return o[k]


def dict_set(I, d, k, v):
    j = dict_find(I, d, k, store=True)
    if j is None:
        d.set_checked(I, d.segs + (One((k, v)),))
    elif isinstance(j, tuple) and j[0] != "group" and len(d.segs) == 1:
        f = d.segs[0]
        w = V.index_var("w")
        key, old = subst(force(f.val), [(f.var, w)])
        alts = old.alts if isinstance(old, Cases) else [(z3.BoolVal(True), old)]
        t = toint(j[1])
        d.set_item(I, [Fam(f.n, w, (key, Cases([(w == t, v)] + [(z3.simplify(z3.And(w != t, c)), x) for c, x in alts])))])
    elif isinstance(j, tuple):
        raise Unsupported("write to an entry of a symbolic dictionary")
    else:
        segs = list(d.segs)
        segs[j] = One((segs[j].v[0], v))
        d.set_checked(I, segs)


def dict_update(I, d, it):
    it = force(it)
    if isinstance(it, dict):
        for k, v in it.items():
            dict_set(I, d, k, v)
        return
    segs = it.segs if isinstance(it, PyDict) else I.iter_segs(it)
    if not d.segs and isinstance(it, PyDict):
        d.set_checked(I, segs)
        return
    for s in segs:
        if not isinstance(s, One):
            raise Unsupported("dictionary update from a symbolic sequence")
        p = force(s.v)
        k, v = p if isinstance(p, tuple) else [x.v for x in I.iter_segs(p)]
        dict_set(I, d, force(k), v)


def dict_of_pairs(I, segs):
    d = PyDict()
    if all(isinstance(s, One) for s in segs):
        for s in segs:
            k, v = force(s.v)
            dict_set(I, d, force(k), v)
        return d
    # a family of pairs: the keys must be pairwise different
    if len(segs) == 1 and isinstance(segs[0], Flat) and all(isinstance(g, Guard) and len(g.segs) == 1 and isinstance(g.segs[0], One) for g in segs[0].segs):
        # entries kept under conditions that exclude each other
        f = segs[0]
        keys = [force(g.segs[0].v)[0] for g in f.segs]
        cs = [g.c for g in f.segs]
        if all(V.same_syntax(k, keys[0]) for k in keys[1:]) and keys_distinct(I, f.n, f.var, keys[0]):
            if all(V.holds_generic(f.n, lambda j: subst_term(z3.Not(z3.And(a, b)), f.var, j)) for x, a in enumerate(cs) for b in cs[x + 1:]):
                return PyDict(segs)
    for s in segs:
        if not isinstance(s, (One, Fam)):
            raise Unsupported("dictionary from a nested symbolic sequence")
    if len(segs) == 1 and keys_distinct(I, segs[0].n, segs[0].var, _first(segs[0].val)):
        return PyDict(segs)
    raise Unsupported("dictionary from a symbolic sequence with possibly repeated keys")


def _first(pair):
    """first component of a pair, also of a pair that depends on a case distinction which it does not depend on"""
    if isinstance(pair, Cases):
        ks = [force(v)[0] for _, v in pair.alts]
        if all(V.same_syntax(k, ks[0]) for k in ks[1:]):
            return ks[0]
    return force(pair)[0]


def subst_term(t, v, j):
    return z3.substitute(t, (v, toint(j)))


def distinct_keys(e, n, var, key):
    """record that key(a), 0 <= a < n, are pairwise different (an invariant of dictionaries and sets)"""
    e.__dict__.setdefault("distinct_reg", []).append((n, var, key))


def _identity(k):
    """objects identified by a key: pairwise different iff the keys are"""
    return SInt(k.__pyvc_key__()) if hasattr(k, "__pyvc_key__") else k


def keys_distinct(I, n, var, key):
    e = I.e
    key = _identity(key)
    reg = [(n2, v2, _identity(k2)) for n2, v2, k2 in e.__dict__.get("distinct_reg", [])]
    for n2, v2, k2 in reg:
        if n2.eq(n) or e.valid(n <= n2):
            if V.same_syntax(key, subst(k2, [(v2, var)])):
                return True
            try:
                if V.holds_generic(n, lambda j: zbool(V.eqv(subst(key, [(var, j)]), subst(k2, [(v2, j)])))):
                    return True
            except Unsupported:
                pass
    if isinstance(key, PyTuple) and getattr(e, "tuple_key", None) is not None:
        from .groups import key_term

        return keys_distinct(I, n, var, SInt(key_term(key)))
    if isinstance(key, (PyTuple, SStr)):
        from . import bits

        if bits.distinct(I, n, var, key):
            return True
    e.solver.push()
    a, b = V.index_var("da"), V.index_var("db")
    e.add(z3.And(a >= 0, a < n, b >= 0, b < n, a != b))
    marks = (len(e.idxterms), len(e.qfacts))
    try:
        e.reg_index(a)
        e.reg_index(b)
        for n2, v2, k2 in reg:
            # keys computed from keys that are different
            if isinstance(k2, SInt) and k2.t.sort() == z3.IntSort() and (n2.eq(n) or e.valid(n <= n2)):
                e.add(z3.substitute(k2.t, (v2, a)) != z3.substitute(k2.t, (v2, b)))
        c = V.eqv(subst(key, [(var, a)]), subst(key, [(var, b)]))
        return c is False or (c is not True and e.valid(z3.Not(c)))
    except Unsupported:
        return False
    finally:
        del e.idxterms[marks[0]:]
        e.solver.pop()


class ArrWrite:
    __slots__ = ("a", "old")

    def __init__(self, a):
        self.a, self.old = a, a.copy()

    def undo(self):
        self.a[...] = self.old

    loc = property(lambda self: ("array", id(self.a)))


def setitem(I, o, k, v):
    if hasattr(o, "__pyvc_setitem__"):
        return o.__pyvc_setitem__(I, k, v)
    if isinstance(o, PyDict):
        return dict_set(I, o, k, v)
    if isinstance(o, PyList):
        segs = list(o.segs)
        if isinstance(k, slice):
            if not all(isinstance(s, One) for s in segs):
                raise Unsupported("slice assignment in a symbolic list")
            new = list(I.iter_segs(v))
            segs[slice(*(None if x is None else operator.index(x) for x in (k.start, k.stop, k.step)))] = new
            o.set_checked(I, segs)
            return
        if len(segs) == 1 and isinstance(segs[0], Fam) and core.is_int(k):
            f = segs[0]
            j = toint(k)
            if not I.e.valid(z3.And(j >= 0, j < f.n)):
                raise Unsupported("item assignment outside of the provable range of a symbolic list")
            w = V.index_var("w")
            old = subst(f.val, [(f.var, w)])
            alts = old.alts if isinstance(old, Cases) else [(z3.BoolVal(True), old)]
            o.set_item(I, [Fam(f.n, w, Cases([(w == j, v)] + [(z3.simplify(z3.And(w != j, c)), x) for c, x in alts]))])
            return
        if not all(isinstance(s, One) for s in segs):
            raise Unsupported("item assignment in a symbolic list")
        segs[_norm_index(I, k, len(segs))] = One(v)
        o.set_checked(I, segs)
        return
    if isinstance(o, (tuple, PyTuple, str)):
        raise TypeError(f"{I.class_of(o).__name__!r} object does not support item assignment")
    if isinstance(o, np.ndarray):
        b = o
        while isinstance(b, np.ndarray):
            # a view writes to the array it belongs to
            if id(b) in I.frozen:
                I.frame_violation(b)
            b = b.base
        k = I.to_native_index(k)
        I.e.log(ArrWrite(o))
        if o.dtype != object:
            v = I.to_native(v)
        elif isinstance(v, PyList):
            v = object_array(nested(I, v))
        if isinstance(k, SInt):
            k = _norm_index(I, k, len(o))
        o[k] = v
        return
    if _is_repo_instance(o):
        m = I.find_method(type(o), "__setitem__")
        if m is None:
            raise TypeError("object does not support item assignment")
        return I.call(m, [o, k, v])
    if isinstance(o, (dict, list)):
        raise Unsupported("write to a native container")
    raise Unsupported(f"item assignment on {type(o).__name__}")


def delitem(I, o, k):
    if hasattr(o, "__pyvc_delitem__"):
        return o.__pyvc_delitem__(I, k)
    if isinstance(o, PyDict):
        j = dict_find(I, o, k)
        if j is None:
            raise KeyError(k)
        if isinstance(j, tuple):
            raise Unsupported("removal from a symbolic dictionary")
        o.set_checked(I, o.segs[:j] + o.segs[j + 1:])
        return
    if isinstance(o, PyList):
        segs = list(o.segs)
        if not all(isinstance(s, One) for s in segs):
            raise Unsupported("deletion in a symbolic list")
        if isinstance(k, slice):
            del segs[k]
        else:
            del segs[_norm_index(I, k, len(segs))]
        o.set_checked(I, segs)
        return
    raise Unsupported("del")


def contains(I, o, v):
    """v in o"""
    o = force(o)
    if hasattr(o, "__pyvc_contains__"):
        return o.__pyvc_contains__(I, v)
    if isinstance(o, PyRange) and o.segs:
        f = o.segs[0]
        if core.is_int(v):
            first = toint(V.inst(f, z3.IntVal(0)))
            last = toint(V.inst(f, z3.simplify(f.n - 1)))
            return mkbool(z3.And(toint(v) >= first, toint(v) <= last))
    if isinstance(o, PyDict):
        if any(isinstance(s, (Hole, Flat)) for s in o.segs):
            return dict_find(I, o, v) is not None
        return _in_segs(I, [One(s.v[0]) if isinstance(s, One) else s for s in o.segs], v)
    if isinstance(o, PySet) and getattr(o, "source", None) is not None and o.source[0] is o.segs:
        return _in_segs(I, [o.source[1]], v)  # the set has the elements of the sequence it was made from
    if isinstance(o, Cont):
        return _in_segs(I, o.segs, v)
    if isinstance(o, (tuple, list, set, frozenset, range)):
        if _plain(v) and not isinstance(v, tuple) and isinstance(o, (range, set, frozenset)):
            return v in o
        if isinstance(o, range) and isinstance(v, SInt):
            if o.step in (1,):
                return mkbool(z3.And(v.t >= o.start, v.t < o.stop))
        return _in_segs(I, [One(x) for x in o], v)
    if isinstance(o, dict):
        return _in_segs(I, [One(x) for x in o], v) if not _plain(v) else v in o
    if _is_repo_instance(o):
        m = I.find_method(type(o), "__contains__")
        if m is not None:
            return I.call(m, [o, v])
        return _in_segs(I, I.iter_segs(o), v)
    if isinstance(o, SStr):
        from .text import contains

        return contains(I, o, force(v))
    if isinstance(o, str) and isinstance(v, SStr):
        raise Unsupported("substring test on symbolic text")
    return I.to_native(v) in o


def _in_segs(I, segs, v):
    pend = []
    for s in segs:
        if isinstance(s, Hole):
            from .groups import present

            if I.e.choose(present(s, v)):
                return True
            continue
        if isinstance(s, One):
            r = True if s.v is v else I.py_eq(s.v, v)
            if r is True:
                return True
            if isinstance(r, SBool):
                pend.append(r.t)
            elif r is not False and I.truth(r):
                return True
        elif isinstance(s, Fam):
            # exists j: val(j) == v
            if I.e.pick(2) == 0:
                k = I.e.int()
                I.e.assume(z3.And(k.t >= 0, k.t < s.n))
                c = V.eqv(V.inst(s, k.t), v)
                if c is False:
                    raise PathAbort()
                if c is not True:
                    I.e.assume(c)
                return True
            var = V.index_var("in")
            c = V.eqv(subst(s.val, [(s.var, var)]), v)
            if c is True:
                I.e.assume(s.n <= 0)
            elif c is not False:
                I.e.add_qfact(s.n, var, z3.Not(c))
        else:
            raise Unsupported("membership in a nested symbolic sequence")
    return mkbool(z3.Or(*pend)) if pend else False


# -------------------------------------------------------------------- operators on containers
def container_binop(I, name, a, b):
    if isinstance(a, (PyTuple, tuple)) and isinstance(b, (PyTuple, tuple)) and (isinstance(a, PyTuple) or isinstance(b, PyTuple)) and name == "add":
        return conc_tuple(tuple(V.segs_of(a)) + tuple(V.segs_of(b)))
    if isinstance(a, PyList) and name == "add":
        if not isinstance(b, (PyList, list)):
            if _is_repo_instance(b) or isinstance(b, np.ndarray):
                return NotImplemented
            raise TypeError("can only concatenate list to list")
        return PyList(a.segs + tuple(V.segs_of(b)))
    if name == "mul":
        for x, n in ((a, b), (b, a)):
            if isinstance(x, (PyList, PyTuple, tuple)) and not (isinstance(x, tuple) and type(x) is not tuple) and core.is_int(n):
                if isinstance(x, tuple) and not isinstance(n, Sym):
                    return x * int(n)
                segs = V.segs_of(x)
                if not isinstance(n, Sym):
                    r = tuple(segs) * int(n)
                else:
                    if not I.e.choose(n.t > 0):
                        r = ()
                    else:
                        v = V.index_var("m")
                        if len(segs) == 1 and isinstance(segs[0], One):
                            r = (Fam(n.t, v, segs[0].v),)
                        else:
                            r = (Flat(n.t, v, tuple(segs)),)
                return PyList(r) if isinstance(x, PyList) else conc_tuple(r)
            if isinstance(x, str) and isinstance(n, (SInt, SBool)):
                return SStr([("rep", x, n)])
    setish = (PySet, set, frozenset)
    if isinstance(a, setish) and isinstance(b, setish) and (isinstance(a, Cont) or isinstance(b, Cont)):
        if name in ("or", "and", "sub", "xor"):
            return set_op(I, name, a, b)
        if name in ("add",):
            raise TypeError("unsupported operand type(s) for +: 'set' and 'set'")
    if isinstance(a, PyDict) and isinstance(b, (PyDict, dict)):
        if name == "or":
            d = clone(a)
            dict_update(I, d, b)
            return d
        if a.counter and name in ("add", "sub"):
            d = PyDict()
            d.counter = True
            bb = b.items_() if isinstance(b, PyDict) else list(b.items())
            for k, v in a.items_():
                w = dict_get(I, b, k, 0) if isinstance(b, PyDict) else native_dict_get(I, b, k) if k in b else 0
                r = v + w if name == "add" else v - w
                if I.truth(r > 0):
                    dict_set(I, d, k, r)
            for k, v in bb:
                if dict_find(I, a, k) is None:
                    r = v if name == "add" else -v
                    if I.truth(r > 0):
                        dict_set(I, d, k, r)
            return d
    if name == "mod" and isinstance(a, str):
        return SStr([("fmt", a, b)]) if isinstance(b, (Sym, Cont, SStr, Abs)) else a % b
    if isinstance(a, Cont) or isinstance(b, Cont):
        for x in (a, b):
            if hasattr(x, f"__pyvc_{name}__"):
                return NotImplemented
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            conv = lambda x: object_array(nested(I, x)) if isinstance(x, Cont) else x
            import operator as _o

            return getattr(_o, name if name not in ("and", "or") else name + "_")(conv(a), conv(b))
        if not _is_repo_instance(a) and not _is_repo_instance(b):
            raise TypeError(f"unsupported operand type(s) for {name}: {I.class_of(a).__name__!r} and {I.class_of(b).__name__!r}")
    return NotImplemented


def _set_items(I, s):
    return s.items_() if isinstance(s, PySet) else list(s)


def set_op(I, name, a, b):
    ia, ib = _set_items(I, a), _set_items(I, b)
    sb = [One(x) for x in ib]
    sa = [One(x) for x in ia]
    if name == "or":
        out = ia + [x for x in ib if not _member(I, sa, x)]
    elif name == "and":
        out = [x for x in ia if _member(I, sb, x)]
    elif name == "sub":
        out = [x for x in ia if not _member(I, sb, x)]
    else:
        out = [x for x in ia if not _member(I, sb, x)] + [x for x in ib if not _member(I, sa, x)]
    cls = PyFrozenSet if isinstance(a, (PyFrozenSet, frozenset)) else PySet
    return cls.of(out)


def set_compare(I, name, a, b):
    ia, ib = _set_items(I, a), _set_items(I, b)
    sa, sb = [One(x) for x in ia], [One(x) for x in ib]
    sub = lambda x, y: all(_member(I, y, v) for v in x)
    if name == "le":
        return sub(ia, sb)
    if name == "ge":
        return sub(ib, sa)
    if name == "lt":
        return sub(ia, sb) and not sub(ib, sa)
    return sub(ib, sa) and not sub(ia, sb)


def _collected(segs):
    """elements of which only the membership matters: integers or elements with a key"""
    return all(isinstance(x, Hole) for x in segs if not isinstance(x, (One, Fam, Flat, Guard))) and (
        _element_kinds([x for x in segs if not isinstance(x, Hole)]) in (set(), {1}) or _keyed_elements([x for x in segs if not isinstance(x, Hole)]))


def set_update(I, s, it):
    it = force(it)
    new = V.norm_segs(it.segs if isinstance(it, PySet) else I.iter_segs(it))
    if not all(isinstance(x, One) for x in (*new, *s.segs)):
        if getattr(s, "distinct", False) or not _collected((*s.segs, *new)):
            raise Unsupported("set update from a symbolic sequence")
        s.set_checked(I, s.segs + tuple(new))
        return
    segs = list(s.segs)
    it = PyList(new)
    for x in I.iter_segs(it) if not isinstance(it, PySet) else it.segs:
        if not isinstance(x, One):
            raise Unsupported("set update from a symbolic sequence")
        if not _member(I, segs, force(x.v)):
            segs.append(One(force(x.v)))
    s.set_checked(I, segs)


# -------------------------------------------------------------------- methods of containers
class Meth:
    """bound container method"""

    __pyvc_value__ = True

    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj

    def __pyvc_call__(self, I, segs, kw):
        args = []
        for s in segs:
            if not isinstance(s, One):
                if self.fn in (m_sunion, m_supdate) and isinstance(s, (Fam, Flat, Guard)) and not kw:
                    # the union of a family of collections
                    args.append(PyList(s_chain_from(I, PyList((s,))).segs))
                    continue
                if self.fn in (m_sunion, M_set.get("intersection")):
                    raise Unsupported("symbolic star arguments")
                raise Unsupported("symbolic star arguments for a container method")
            args.append(force(s.v))
        return self.fn(I, self.obj, *args, **kw)

    def __call__(self, *a, **k):
        from .interp import INTERP

        return self.fn(INTERP[0], self.obj, *a, **k)


def m_append(I, o, v):
    o.append_(I, v)


def m_extend(I, o, it):
    o.set_checked(I, o.segs + tuple(I.iter_segs(it)))


def m_insert(I, o, k, v):
    if isinstance(k, int) and k == 0:
        o.set_checked(I, (One(v),) + o.segs)
        return
    items = [One(x) for x in o.items_()]
    items.insert(I.to_native(k), One(v))
    o.set_checked(I, items)


def m_pop(I, o, k=-1):
    segs = V.norm_segs(o.segs)
    if not segs:
        raise IndexError("pop from empty list")
    if k == -1 and isinstance(segs[-1], One):
        o.set_checked(I, segs[:-1])
        return force(segs[-1].v)
    if k == 0 and isinstance(segs[0], One):
        o.set_checked(I, segs[1:])
        return force(segs[0].v)
    v = index_segs(I, segs, k)
    if not all(isinstance(s, One) for s in segs):
        raise Unsupported("pop from a symbolic list")
    j = _norm_index(I, k, len(segs))
    del segs[j]
    o.set_checked(I, segs)
    return v


def m_index(I, o, v, *a):
    if a:
        raise Unsupported("index with bounds")
    for j, s in enumerate(I.iter_segs(o)):
        if not isinstance(s, One):
            raise Unsupported("index in a symbolic list")
        if I.truth(I.py_eq(s.v, v)):
            return j
    raise ValueError("value is not in list")


def m_count(I, o, v):
    n = 0
    for s in I.iter_segs(o):
        if not isinstance(s, One):
            raise Unsupported("count in a symbolic list")
        r = I.py_eq(s.v, v)
        n = n + (mkint(toint(r)) if isinstance(r, SBool) else int(I.truth(r)))
    return n


def m_remove(I, o, v):
    for j, s in enumerate(o.segs):
        if not isinstance(s, One):
            raise Unsupported("remove from a symbolic list")
        if I.truth(I.py_eq(s.v, v)):
            o.set_checked(I, o.segs[:j] + o.segs[j + 1:])
            return
    if isinstance(o, PySet):
        raise KeyError(v)
    raise ValueError("list.remove(x): x not in list")


def m_copy(I, o):
    return clone(o)


def m_clear(I, o):
    o.set_checked(I, ())


def m_sort(I, o, key=None, reverse=False):
    o.set_checked(I, [One(v) for v in sort_vals(I, [force(x) for x in o.items_()], key, I.truth(reverse))])


def m_reverse(I, o):
    o.set_checked(I, reverse_segs(o.segs))


def m_dget(I, o, k, default=None):
    return dict_get(I, o, k, default)


def m_items(I, o):
    from .interp import _map_segs

    return PyTuple(_map_segs(o.segs, lambda p: p)) if o.segs else PyTuple(())


def m_keys(I, o):
    from .interp import _map_segs

    r = PyFrozenSet(_map_segs(o.segs, lambda p: p[0]))
    r.ordered = True
    r.distinct = True
    return r


def m_values(I, o):
    from .interp import _map_segs

    return PyTuple(_map_segs(o.segs, lambda p: p[1]))


def m_dpop(I, o, k, default=_MISSING):
    j = dict_find(I, o, k)
    if j is None:
        if default is _MISSING:
            raise KeyError(k)
        return default
    if isinstance(j, tuple):
        raise Unsupported("removal from a symbolic dictionary")
    v = force(o.segs[j].v[1])
    o.set_checked(I, o.segs[:j] + o.segs[j + 1:])
    return v


def m_setdefault(I, o, k, v=None):
    j = dict_find(I, o, k)
    if j is None:
        o.set_checked(I, o.segs + (One((k, v)),))
        return v
    return dict_value(o, j)


def m_dupdate(I, o, *its, **kw):
    for it in its:
        if o.counter:
            it = force(it)
            pairs = it.items_() if isinstance(it, PyDict) else list(it.items()) if isinstance(it, dict) else [(force(s.v), 1) for s in _ones(I, it)]
            for k, v in pairs:
                dict_set(I, o, k, dict_get(I, o, k, 0) + v)
        else:
            dict_update(I, o, it)
    for k, v in kw.items():
        dict_set(I, o, k, v)


def m_popitem(I, o):
    if not o.segs:
        raise KeyError("popitem(): dictionary is empty")
    s = o.segs[-1]
    if not isinstance(s, One):
        raise Unsupported("popitem of a symbolic dictionary")
    o.set_checked(I, o.segs[:-1])
    return s.v


def m_elements(I, o):
    out = []
    for k, v in o.items_():
        if isinstance(v, Sym):
            if I.e.choose(v.t > 0):
                out.append(Fam(v.t, V.index_var("el"), k))
        else:
            out.extend([One(k)] * max(int(v), 0))
    return PyIter(out)


def m_add(I, o, v):
    if any(isinstance(s, Hole) for s in o.segs):
        if not _in_segs(I, o.segs, v):
            o.append_(I, v)
        return
    if not _member(I, o.segs, v):
        o.append_(I, v)


def m_discard(I, o, v):
    for j, s in enumerate(o.segs):
        if not isinstance(s, One):
            raise Unsupported("discard from a symbolic set")
        if I.truth(I.py_eq(s.v, v)):
            o.set_checked(I, o.segs[:j] + o.segs[j + 1:])
            return


def m_sunion(I, o, *its):
    r = PySet(o.segs)
    for it in its:
        set_update(I, r, it)
    return r


def m_supdate(I, o, *its):
    for it in its:
        set_update(I, o, it)


def _mset(name):
    def f(I, o, *its):
        r = o
        for it in its:
            r = set_op(I, name, r, make_set(I, it))
        return r

    return f


def m_issubset(I, o, b):
    return set_compare(I, "le", o, make_set(I, b))


def m_issuperset(I, o, b):
    return set_compare(I, "ge", o, make_set(I, b))


def m_isdisjoint(I, o, b):
    return not set_op(I, "and", o, make_set(I, b)).segs


def m_spop(I, o):
    segs = I.set_order(o)
    if not segs:
        raise KeyError("pop from an empty set")
    o.set_checked(I, segs[1:])
    return force(segs[0].v)


M_list = dict(append=m_append, extend=m_extend, insert=m_insert, pop=m_pop, index=m_index, count=m_count, remove=m_remove, copy=m_copy, clear=m_clear, sort=m_sort, reverse=m_reverse)
M_tuple = dict(index=m_index, count=m_count)
M_dict = dict(get=m_dget, items=m_items, keys=m_keys, values=m_values, pop=m_dpop, setdefault=m_setdefault, update=m_dupdate, copy=m_copy, clear=m_clear, popitem=m_popitem)
M_counter = dict(M_dict, elements=m_elements)
M_set = dict(add=m_add, discard=m_discard, remove=m_remove, union=m_sunion, update=m_supdate, intersection=_mset("and"), difference=_mset("sub"), symmetric_difference=_mset("xor"), issubset=m_issubset, issuperset=m_issuperset, isdisjoint=m_isdisjoint, copy=m_copy, clear=m_clear, pop=m_spop)


def str_method(I, o, name):
    if name == "split":
        def split(I, o, sep=None, maxsplit=-1):
            if sep is None or maxsplit != -1:
                raise Unsupported("split of symbolic text")
            from .text import split as nsplit

            r = nsplit(I, o, sep)
            if r is not None:
                return r
            parts, cur = [], []
            for p in o.parts:
                if isinstance(p, str):
                    xs = p.split(sep)
                    cur.append(xs[0])
                    for x in xs[1:]:
                        parts.append(mkstr(cur))
                        cur = [x]
                else:
                    if not _piece_free_of(p, sep):
                        raise Unsupported("split of symbolic text")
                    cur.append(p)
            parts.append(mkstr(cur))
            return PyList.of(parts)

        return split
    if name == "rstrip":
        from .text import rstrip

        return rstrip
    if name == "endswith":
        from .text import endswith

        return endswith
    if name == "startswith":
        def sw(I, o, pre):
            if isinstance(o.parts[0], str) and (len(o.parts[0]) >= len(pre) or not pre.startswith(o.parts[0])):
                return o.parts[0].startswith(pre)
            raise Unsupported("startswith on symbolic text")

        return sw
    if name == "encode":
        def encode(I, o, *a):
            from .text import Bytes, chars

            c = chars(o)
            if c is None:
                raise Unsupported("bytes of symbolic text")
            return Bytes(c)

        return encode
    return None


def _piece_free_of(p, sep):
    """can the text of an opaque piece not contain sep?"""
    if p[0] in ("str", "char") and core._num_kind(p[1]) == 1:
        return not any(c in "-0123456789" for c in sep)
    return False


DUNDERS = {
    "__getitem__": lambda I, o, k: getitem(I, o, force(k)),
    "__setitem__": lambda I, o, k, v: setitem(I, o, force(k), v),
    "__contains__": lambda I, o, v: contains(I, o, force(v)),
    "__len__": lambda I, o: s_len(I, o),
}


def container_method(I, o, name):
    if isinstance(o, SStr):
        if name in DUNDERS and name != "__setitem__":
            return Meth(DUNDERS[name], o)
        f = str_method(I, o, name)
        return Meth(f, o) if f else (_ for _ in ()).throw(Unsupported(f"str.{name} on symbolic text"))
    t = M_counter if isinstance(o, PyDict) and o.counter else M_dict if isinstance(o, PyDict) else M_set if isinstance(o, PySet) else M_list if isinstance(o, PyList) else M_tuple if isinstance(o, PyTuple) else {}
    if isinstance(o, PyFrozenSet) and name in ("add", "discard", "remove", "update", "pop", "clear"):
        return None
    f = t.get(name)
    if f is None:
        if name in DUNDERS:
            return Meth(DUNDERS[name], o)
        if name.startswith("__") and name.endswith("__"):
            raise Unsupported(f"{type(o).__name__}.{name}")
        cls = I.class_of(o)
        if hasattr(cls, name):
            raise Unsupported(f"{cls.__name__}.{name}")
        return None
    return Meth(f, o)


def install(I):
    import ast

    S = I.shims
    for f, s in {
        len: s_len, range: s_range, list: s_list, tuple: s_tuple, set: s_set, frozenset: s_frozenset, dict: s_dict,
        collections.Counter: s_counter, collections.OrderedDict: s_dict, collections.defaultdict: s_defaultdict, zip: s_zip, enumerate: s_enumerate, reversed: s_reversed,
        map: s_map, filter: s_filter, max: s_max, min: s_min, sum: s_sum, functools.reduce: s_reduce, any: s_any,
        all: s_all, sorted: s_sorted, isinstance: s_isinstance, type: s_type, issubclass: s_issubclass,
        hasattr: s_hasattr, getattr: s_getattr, setattr: s_setattr, object.__setattr__: s_object_setattr, int: s_int,
        float: s_float, complex: s_complex, abs: s_abs, bool: s_bool, str: s_str, repr: s_repr, format: s_format,
        hash: s_hash, iter: s_iter, next: s_next, callable: s_callable, print: s_print, round: s_round,
        divmod: s_divmod, dict.fromkeys: s_fromkeys, pow: s_pow, id: s_id, bin: s_bin, vars: s_vars,
        itertools.islice: s_islice, itertools.chain: s_chain, itertools.chain.from_iterable: s_chain_from,
        itertools.product: s_product, itertools.groupby: s_groupby, itertools.repeat: s_repeat, itertools.accumulate: s_accumulate,
        itertools.permutations: _combi(itertools.permutations), itertools.combinations: _combi(itertools.combinations),
        itertools.combinations_with_replacement: _combi(itertools.combinations_with_replacement),
        operator.attrgetter: s_attrgetter, operator.itemgetter: s_itemgetter, functools.partial: s_partial,
        operator.add: _op(ast.Add()), operator.sub: _op(ast.Sub()), operator.mul: _op(ast.Mult()),
        operator.matmul: _op(ast.MatMult()), operator.truediv: _op(ast.Div()), operator.xor: _op(ast.BitXor()),
        operator.eq: _cmpop(ast.Eq()), operator.ne: _cmpop(ast.NotEq()), operator.lt: _cmpop(ast.Lt()),
        operator.le: _cmpop(ast.LtE()), operator.gt: _cmpop(ast.Gt()), operator.ge: _cmpop(ast.GtE()),
        _copy.copy: s_copy, _copy.deepcopy: s_deepcopy, dataclasses.replace: s_replace, dataclasses.fields: s_fields, typing.cast: s_cast,
        warnings.warn: s_warn, math.isclose: s_isclose, math.isinf: s_isinf, math.isnan: s_isnan, np.isclose: s_np_close, np.allclose: s_np_close, math.log2: s_log2, np.log2: s_log2, math.sqrt: s_sqrt, np.sqrt: s_np_sqrt,
        math.ceil: s_ceil, math.floor: s_floor, np.conj: s_conj, np.conjugate: s_conj, np.prod: s_np_prod,
        np.array: s_np_array, np.asarray: s_np_asarray,
    }.items():
        S[f] = s

"""Symbolic numpy arrays: shapes and entries are terms.

A Cell is the functional content: entry template over index variables (or an unknown content inside a loop), overwritten
by a list of stores.  FArr is the mutable array object holding a Cell; FView is a view fixing leading indices.  The
array contracts (elementwise arithmetic, broadcasting, sums, indexing) are numpy's documented ones over exact numbers."""
import operator

import numpy as np

from . import core, values as V
from .core import *  # noqa: F401,F403
from .core import z3
from .values import *  # noqa: F401,F403

_KIND = {1: "i", 2: "f", 3: "c"}
_RANK = {"b": 0, "i": 1, "f": 2, "c": 3}


def rank(v):
    v = force(v)
    if isinstance(v, (bool, SBool, np.bool_)):
        return "b"
    k = core._num_kind(v)
    if not k:
        raise Unsupported(f"array entry of type {type(v).__name__}")
    return _KIND[k]


def cast(v, kind):
    """entry converted to the kind of the array"""
    v = force(v)
    if kind == "c":
        return SComplex.of(v)
    if kind == "f":
        if rank(v) == "c":
            raise Unsupported("complex entry of a real array")
        return SReal(toreal(v))
    if kind == "i":
        if rank(v) not in "bi":
            raise Unsupported("real entry of an integer array")
        return mkint(toint(v))
    if kind == "b":
        return mkbool(zbool(v))
    return v


def ite(c, a, b):
    c = zbool(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    k = max(rank(a), rank(b), key=_RANK.get)
    a, b = cast(a, k), cast(b, k)
    if k == "c":
        a, b = SComplex.of(a), SComplex.of(b)
        return SComplex(z3.If(c, a.re, b.re), z3.If(c, a.im, b.im))
    if k == "f":
        return SReal(z3.simplify(z3.If(c, toreal(a), toreal(b))))
    if k == "i":
        return mkint(z3.If(c, toint(a), toint(b)))
    return mkbool(z3.If(c, zbool(a), zbool(b)))


def _same_idx(a, b):
    cs = []
    for x, y in zip(a, b):
        c = z3.simplify(toint(x) == toint(y))
        if z3.is_true(c):
            continue
        if z3.is_false(c):
            return z3.BoolVal(False)
        cs.append(c)
    return z3.And(*cs) if len(cs) > 1 else cs[0] if cs else z3.BoolVal(True)


class Region:
    """overwritten part of an array: where cond(vars) holds the entry is val(vars)"""

    __pyvc_value__ = True

    def __init__(self, vars, cond, val):
        self.vars, self.cond, self.val = tuple(vars), cond, val

    @classmethod
    def point(cls, idx, v):
        vs = [V.index_var("st") for _ in idx]
        return cls(vs, z3.And(*[x == toint(k) for x, k in zip(vs, idx)]) if vs else z3.BoolVal(True), v)

    def at(self, idx):
        pairs = [(v, toint(x)) for v, x in zip(self.vars, idx)]
        return z3.simplify(z3.substitute(self.cond, *pairs)) if pairs else self.cond, force(subst(self.val, pairs))

    def rename(self, vs):
        c, v = self.at(vs)
        return Region(vs, c, v)

    def sub(self, pairs):
        return Region(self.vars, z3.substitute(self.cond, *pairs), subst(self.val, pairs))

    def __pyvc_subst__(self, f):
        return Region(self.vars, toz(f(SBool(self.cond))), f(self.val))

    def __pyvc_syntax__(self):
        return (SBool(self.cond), self.val)

    def __repr__(self):
        return f"[{self.vars} | {self.cond} -> {self.val!r}]"


def toz(c):
    c = force(c)
    return c.t if isinstance(c, SBool) else z3.BoolVal(bool(c))


class Cell:
    """content of an array: an entry template over index variables, or an unknown content inside a loop, overwritten by
    a list of regions"""

    __pyvc_value__ = True

    def __init__(self, shape, vars, val, kind, stores=(), unk=None):
        self.shape, self.vars, self.val, self.kind, self.stores, self.unk = tuple(shape), tuple(vars), val, kind, tuple(stores), unk

    def base(self, *idx):
        if self.unk is not None:
            ts = [toint(x) for x in idx]
            if self.kind == "c":
                return SComplex(self.unk[0](*ts), self.unk[1](*ts))
            t = self.unk[0](*ts)
            return SReal(t) if self.kind == "f" else mkint(t) if self.kind == "i" else mkbool(t)
        for x in idx:
            core.cur.reg_index(toint(x))
        return force(subst(self.val, [(v, toint(x)) for v, x in zip(self.vars, idx)]))

    def elem(self, *idx):
        r = None
        top = []
        for s in reversed(self.stores):
            c, v = s.at(idx)
            if z3.is_true(c):
                r = v
                break
            if not z3.is_false(c):
                top.append((c, v))
        if r is None:
            r = self.base(*idx)
        for c, v in reversed(top):
            r = ite(c, v, r)
        return r

    def store(self, idx, v):
        v = cast(v, self.kind)
        return Cell(self.shape, self.vars, self.val, self.kind, self.stores + (Region.point(idx, v),), self.unk)

    def __pyvc_subst__(self, f):
        shape = tuple(f(x) for x in self.shape)
        stores = tuple(f(s) for s in self.stores)
        if self.unk is not None:
            return Cell(shape, (), None, self.kind, stores, self.unk)
        return Cell(shape, self.vars, f(self.val), self.kind, stores)

    def __pyvc_syntax__(self):
        return (self.shape, self.val, self.stores, self.unk and self.unk[0].name())

    def __pyvc_eqv__(self, o):
        if not isinstance(o, Cell) or len(o.shape) != len(self.shape):
            return False
        dims = V.conj([V.eqv(mkint_(a), mkint_(b)) for a, b in zip(self.shape, o.shape)])
        if dims is not True and (dims is False or not core.cur.valid(dims)):
            return False
        return _entries_equal(self.shape, self.elem, o.elem)

    def __pyvc_havoc__(self, I):
        e = I.e
        name = e.fresh_name("arr")
        sorts = [z3.IntSort()] * len(self.shape)
        rng = {"c": z3.RealSort(), "f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[self.kind]
        fs = [z3.Function(name + x, *sorts, rng) for x in ((".re", ".im") if self.kind == "c" else ("",))]
        r = Cell(self.shape, (), None, self.kind, (), fs)
        r.hid = name
        return r, []

    def __pyvc_reads__(self, v, now):
        """v with reads of this unknown content replaced by the content `now`; None when that is impossible"""
        if self.unk is None:
            return v
        names = {f.name() for f in self.unk}
        if not names & V.applied(v):
            return v
        if not isinstance(now, Cell):
            return None

        def f(t):
            pairs = []
            for a in _apps(t):
                if a.decl().name() in names:
                    x = now.elem(*[a.arg(k) for k in range(a.num_args())])
                    pairs.append((a, (SComplex.of(x).re if a.decl().eq(self.unk[0]) else SComplex.of(x).im) if self.kind == "c" else _zv(x, self.kind)))
            return z3.substitute(t, *pairs) if pairs else t

        v = subst(v, f)
        return None if names & V.applied(v) else v

    def __pyvc_summ__(self, I, n, i, old, vals, conds_ok):
        for hint in getattr(I, "array_invariants", []):
            f = hint(n, i, old)
            if f is not None and self._invariant(I, n, i, old, vals, f):
                return f
        return self._accumulate(I, n, i, old, vals, conds_ok) or self._stores(I, n, i, old, vals)

    def _accumulate(self, I, n, i, old, vals, conds_ok):
        """every entry is increased by a number that does not depend on the content"""
        if self.kind not in "ifc" or len(vals) > 1 and not conds_ok:
            return None
        vs = [V.index_var("r") for _ in self.shape]
        base = SComplex.of(self.base(*vs)) if self.kind == "c" else self.base(*vs)
        incs = []
        for c, k, new in vals:
            if k == "same":
                incs.append((c, SComplex.of(0) if self.kind == "c" else 0))
                continue
            if not isinstance(new, Cell) or new.kind != self.kind or c is not None and self._mentions_unk(c):
                return None
            if new.stores and new.unk is not None:
                return None
            x = new.elem(*vs)
            if self.kind == "c":
                x = SComplex.of(x)
                d = SComplex(z3.simplify(x.re - base.re, som=True), z3.simplify(x.im - base.im, som=True))
            else:
                d = type(base)(z3.simplify(_t(x) - _t(base), som=True))
            if self._mentions_val(d):
                return None
            incs.append((c, d))
        d = incs[-1][1]
        for c, x in reversed(incs[:-1]):
            d = ite(c, x, d)

        def at(m):
            def f(*idx):
                return scalar_op("+", old.elem(*idx), sum_over(m, lambda q: subst(d, [(i, q), *zip(vs, idx)]), self.kind))

            return FArr.fn(old.shape, f, self.kind).cell

        return at

    def _mentions_unk(self, t):
        names = {f.name() for f in self.unk}
        return any(d in names for d in _decls(t))

    def _stores(self, I, n, i, old, vals):
        """stores into regions that identify the iteration and do not meet"""
        e = I.e
        vs = [V.index_var("r") for _ in self.shape]
        rs = []
        for cond, k, new in vals:
            if k == "same":
                continue
            if not isinstance(new, Cell) or new.unk is None or new.unk[0].name() != self.unk[0].name():
                return None
            for x in new.stores:
                r = x.rename(vs)
                rs.append(r if cond is None else Region(vs, z3.And(cond, r.cond), r.val))
        if not rs:
            return lambda m: old
        if len({str(c) for c, k, _ in vals if k != "same"}) > 1 and len(vals) > 1 and False:
            return None
        plan = []
        rng = z3.And(i >= 0, i < n, *[z3.And(v >= 0, v < toint(d)) for v, d in zip(vs, self.shape)])
        for r in rs:
            if self._mentions_unk(r.cond):
                return None
            pos = None
            for q in _conjuncts(r.cond):
                for p, v in enumerate(vs):
                    t = _solved(q, v)
                    if t is None:
                        continue
                    d = z3.simplify(t - i)
                    if not V.occurs(d, [i]) and not V.occurs(d, vs):
                        pos = (p, d)
                        break
                if pos:
                    break
            if pos is None:
                return None
            plan.append((r, pos))
        # later stores of an iteration hide earlier ones on the same place; different iterations must not meet
        i2 = V.index_var("i2")
        for a, (ra, pa) in enumerate(plan):
            for b, (rb, pb) in enumerate(plan):
                if pa == pb:
                    continue  # the same place means the same iteration
                rb2 = rb.sub([(i, i2)])
                if not e.valid(z3.Implies(z3.And(rng, i2 >= 0, i2 < n, ra.cond, rb2.cond), i == i2)):
                    return None
        out = []
        for r, pos in plan:
            v = r.val
            for args in self._places(v):
                # reads of a place that only this iteration writes see the old content
                if not any(e.valid(z3.Implies(z3.And(rng, r.cond), z3.substitute(r2.cond, *zip(vs, args)))) for r2, _ in plan):
                    return None
                before, now = old.elem(*args), self.base(*args)
                if self.kind == "c":
                    now, before = SComplex.of(now), SComplex.of(before)
                    pairs = [(now.re, before.re), (now.im, before.im)]
                else:
                    pairs = [(_t(now), _zv(before, self.kind))]
                v = subst(v, pairs)
            if self._mentions_val(v):
                return None
            out.append((Region(vs, r.cond, v), pos))

        def at(m):
            m = z3.simplify(toint(m))
            stores = []
            for r, (p, d) in out:
                j = z3.simplify(vs[p] - d)
                c = z3.And(*([j >= 0, j < m] + [z3.simplify(q) for q in (z3.substitute(q, (i, j)) for q in _conjuncts(r.cond)) if not z3.is_true(z3.simplify(q))]))
                stores.append(Region(vs, z3.simplify(c), subst(r.val, [(i, j)])))
            return Cell(old.shape, old.vars, old.val, old.kind, tuple(old.stores) + tuple(stores), old.unk)

        return at

    def _mentions_val(self, v):
        v = force(v)
        ts = [v.re, v.im] if isinstance(v, SComplex) else [_t(v)] if isinstance(v, Sym) else []
        return any(self._mentions_unk(t) for t in ts)

    def _invariant(self, I, n, i, old, vals, f):
        e = I.e
        c = V.eqv(f(z3.IntVal(0)), old)
        if c is not True and (c is False or not e.valid(c)):
            return False
        for cond, k, v in vals:
            new = self if k == "same" else v

            def step():
                e.add(z3.And(i >= 0, i < n))
                e.gidx.append(i)
                e.reg_index(i)
                if cond is not None:
                    e.assume(cond)
                before, after = f(i), f(z3.simplify(i + 1))
                idx = [V.index_var("g") for _ in self.shape]
                for x, d in zip(idx, self.shape):
                    e.add(z3.And(x >= 0, x < toint(d)))
                    e.gidx.append(x)
                    e.reg_index(x)
                a, b = new.elem(*idx), after.elem(*idx)
                for args in self._places(a):
                    e.add(zbool(V.eqv(self.base(*args), before.elem(*args))))
                g = V.eqv(a, b)
                return g is True or g is not False and e.valid(g)

            for _, _, kind, r in e.explore(step, local=True):
                if kind == "exc":
                    raise r
                if not r:
                    return False
        return True

    def _places(self, v):
        names = {f.name() for f in self.unk}
        v = force(v)
        out = []
        for t in ([v.re, v.im] if isinstance(v, SComplex) else [_t(v)] if isinstance(v, Sym) else []):
            for a in _apps(t):
                if a.decl().name() in names:
                    args = [a.arg(k) for k in range(a.num_args())]
                    if not any(all(x.eq(y) for x, y in zip(args, o)) for o in out):
                        out.append(args)
        return out

    def __repr__(self):
        return f"Cell{self.shape}({self.unk or self.val!r}{' stores ' + repr(self.stores) if self.stores else ''})"


def _t(v):
    return v.t if isinstance(v, Sym) else v


def _zv(v, kind):
    v = cast(v, kind)
    return toint(v) if kind == "i" else zbool(v) if kind == "b" else toreal(v)


def _conjuncts(c):
    if z3.is_and(c):
        return [x for k in c.children() for x in _conjuncts(k)]
    return [c]


def _solved(q, v):
    """t when q is the equation v == t (up to rearrangement)"""
    if not z3.is_eq(q) or q.arg(0).sort() != z3.IntSort():
        return None
    d = z3.simplify(q.arg(0) - q.arg(1))
    t = z3.simplify(v - d)
    if not V.occurs(t, [v]):
        return t
    t = z3.simplify(v + d)
    return None if V.occurs(t, [v]) else t


def _apps(t, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args():
        yield t
    for c in t.children():
        yield from _apps(c, seen)


def _decls(t):
    return {a.decl().name() for a in _apps(t)}


def mkint_(x):
    return x if isinstance(x, (int, SInt)) else mkint(x)


def _entries_equal(shape, f, g):
    """for every index in the shape: f(idx) == g(idx) -> True / False"""

    def level(k, idx):
        if k == len(shape):
            return V.eqv(f(*idx), g(*idx))
        d = shape[k]
        if isinstance(d, int):
            return V.conj([level(k + 1, idx + [z3.IntVal(j)]) for j in range(d)])
        return V.holds_generic(toint(d), lambda j: level(k + 1, idx + [toint(j)]))

    return level(0, [])


class FArr:
    """numpy array with symbolic shape / entries"""

    __pyvc_value__ = True
    __array_ufunc__ = None

    def __init__(self, cell):
        self.cell = cell

    @classmethod
    def fn(cls, shape, f, kind=None):
        vs = [V.index_var("a") for _ in shape]
        val = f(*vs)
        kind = kind or rank(val)
        return cls(Cell([mkint_(d) for d in shape], vs, cast(val, kind), kind))

    shape = property(lambda self: self.cell.shape)
    kind = property(lambda self: self.cell.kind)
    ndim = property(lambda self: len(self.cell.shape))

    def elem(self, *idx):
        return self.cell.elem(*idx)

    # protocol
    def __pyvc_eqv__(self, o):
        o = lift(o)
        return self.cell.__pyvc_eqv__(o.cell) if isinstance(o, FArr) else False

    def __pyvc_subst__(self, f):
        return FArr(f(self.cell))

    def __pyvc_syntax__(self):
        return self.cell.__pyvc_syntax__()

    def __pyvc_havoc__(self, I):
        c, t = self.cell.__pyvc_havoc__(I)
        r = FArr(c)
        r.hid = c.hid
        return r, t

    def __pyvc_reads__(self, v, now):
        return self.cell.__pyvc_reads__(v, now.cell if isinstance(now, FArr) else None)

    def __pyvc_summ__(self, I, n, i, old, vals, ok):
        f = self.cell.__pyvc_summ__(I, n, i, old.cell, [(c, k, v.cell if isinstance(v, FArr) else v) for c, k, v in vals], ok)
        return None if f is None else lambda m: FArr(f(m))

    def __pyvc_len__(self, I=None):
        return self.shape[0]

    def __pyvc_isinstance__(self, I, cls):
        return isinstance(cls, type) and issubclass(np.ndarray, cls)

    def __pyvc_class__(self, I):
        return np.ndarray

    def __pyvc_iter__(self, I):
        d = self.shape[0]
        if isinstance(d, int):
            return tuple(One(self._sub((z3.IntVal(j),))) for j in range(d))
        v = V.index_var("it")
        if self.ndim == 1:
            return (Fam(toint(d), v, self.cell.elem(v)),)
        return (Fam(toint(d), v, self._sub((v,))),)

    def _sub(self, idx):
        if len(idx) == self.ndim:
            return self.cell.elem(*idx)
        return FView(self, idx)

    def _norm(self, I, k, axis):
        d = toint(self.shape[axis])
        k = toint(k)
        if z3.is_int_value(k) and k.as_long() < 0 or not z3.is_int_value(k) and I.e.choose(k < 0):
            k = z3.simplify(k + d)
        if not I.e.choose(z3.And(k >= 0, k < d)):
            raise IndexError("index out of bounds")
        return k

    def __pyvc_getitem__(self, I, k):
        ks = list(k) if isinstance(k, tuple) else [k]
        if all(core.is_int(x) for x in ks) and len(ks) <= self.ndim:
            return self._sub(tuple(self._norm(I, x, a) for a, x in enumerate(ks)))
        # general basic / one-array fancy indexing
        shape, build, axis = [], [], 0
        for x in ks:
            if x is None:
                shape.append(1)
                build.append(("new",))
                continue
            if axis >= self.ndim:
                raise IndexError("too many indices for array")
            if isinstance(x, slice):
                d = self.shape[axis]
                if x.start is None and x.stop is None and x.step is None:
                    shape.append(d)
                    build.append(("all",))
                elif x.step is None or x.step == 1:
                    lo = _clip(x.start, d, z3.IntVal(0))
                    hi = _clip(x.stop, d, toint(d))
                    shape.append(mkint(z3.If(hi >= lo, hi - lo, 0)))
                    build.append(("from", lo))
                elif x.step == -1 and x.start is None and x.stop is None:
                    shape.append(d)
                    build.append(("rev", d))
                else:
                    raise Unsupported("array slice with a step")
                axis += 1
            elif core.is_int(x):
                build.append(("int", self._norm(I, x, axis)))
                axis += 1
            else:
                x = from_seq(I, x) if isinstance(x, (PyList, list)) else lift(x)
                if not isinstance(x, FArr) or x.ndim != 1 or x.kind != "i":
                    raise Unsupported("array index")
                if sum(b[0] == "fancy" for b in build):
                    raise Unsupported("several index arrays")
                d = toint(self.shape[axis])
                xs = x
                if not V.holds_generic(toint(x.shape[0]), lambda j: z3.And(toint(xs.elem(j)) >= 0, toint(xs.elem(j)) < d)):
                    raise Unsupported("index array whose entries may be out of range or negative")
                shape.append(x.shape[0])
                build.append(("fancy", x))
                axis += 1
        while axis < self.ndim:
            shape.append(self.shape[axis])
            build.append(("all",))
            axis += 1
        src = self.cell

        def f(*idx):
            idx = list(idx)
            out = []
            for b in build:
                if b[0] == "int":
                    out.append(b[1])
                    continue
                j = idx.pop(0)
                if b[0] == "new":
                    continue
                if b[0] == "all":
                    out.append(j)
                elif b[0] == "from":
                    out.append(z3.simplify(b[1] + j))
                elif b[0] == "rev":
                    out.append(z3.simplify(toint(b[1]) - 1 - j))
                else:
                    out.append(toint(b[1].elem(j)))
            return src.elem(*out)

        return FArr.fn(shape, f, self.kind)

    def __pyvc_setitem__(self, I, k, v):
        ks = list(k) if isinstance(k, tuple) else [k]
        v = force(v)
        if len(ks) == self.ndim and all(core.is_int(x) for x in ks):
            idx = tuple(self._norm(I, x, a) for a, x in enumerate(ks))
            I.setattr_raw(self, "cell", self.cell.store(idx, v))
            return
        if len(ks) == 1 and isinstance(ks[0], slice) and ks[0] == slice(None) and not isinstance(v, (Cont,)):
            w = lift(v)
            if isinstance(w, FArr) and w.ndim == self.ndim:
                old = self.cell
                new = FArr.fn(self.shape, lambda *i: w.elem(*i), None)
                I.setattr_raw(self, "cell", Cell(self.shape, new.cell.vars, cast(new.cell.val, self.kind), self.kind))
                return
        if len(ks) == 1 == self.ndim and isinstance(force(ks[0]), PyList) and core._num_kind(v):
            for f in getattr(I, "index_sets", []):
                c = f(force(ks[0]).segs, toint(self.shape[0]))
                if c is not None:
                    x = V.index_var("st")
                    r = Region([x], c(x), cast(v, self.kind))
                    I.setattr_raw(self, "cell", Cell(self.cell.shape, self.cell.vars, self.cell.val, self.kind, self.cell.stores + (r,), self.cell.unk))
                    return
        if len(ks) == self.ndim and all(core.is_int(x) or x == slice(None) for x in ks if not isinstance(x, Cont)) and not any(isinstance(x, Cont) for x in ks):
            free = [a for a, x in enumerate(ks) if isinstance(x, slice)]
            w = lift(v)
            if not isinstance(w, FArr) or w.ndim != len(free) or not all(core.cur.valid(toint(self.shape[a]) == toint(d)) for a, d in zip(free, w.shape)):
                raise Unsupported("assignment of another shape to part of an array")
            vs = [V.index_var("st") for _ in ks]
            c = [vs[a] == self._norm(I, x, a) for a, x in enumerate(ks) if a not in free]
            r = Region(vs, z3.And(*c) if c else z3.BoolVal(True), cast(w.elem(*[vs[a] for a in free]), self.kind))
            I.setattr_raw(self, "cell", Cell(self.cell.shape, self.cell.vars, self.cell.val, self.kind, self.cell.stores + (r,), self.cell.unk))
            return
        raise Unsupported("assignment to part of an array")

    def __pyvc_inplace__(self, I, r):
        """a op= b: the content of this array object changes"""
        r = lift(r)
        if isinstance(r, FView):
            r = r.arr()
        if not isinstance(r, FArr) or r.ndim != self.ndim or not all(core.cur.valid(toint(a) == toint(b)) for a, b in zip(r.shape, self.shape)):
            raise Unsupported("in-place array operation that changes the shape")
        if _RANK[r.kind] > _RANK[self.kind]:
            raise Unsupported("in-place array operation that changes the type of the array")
        I.setattr_raw(self, "cell", Cell(self.shape, r.cell.vars, cast(r.cell.val, self.kind), self.kind) if not r.cell.stores and r.cell.unk is None else FArr.fn(self.shape, lambda *i: cast(r.elem(*i), self.kind), self.kind).cell)
        return self

    def __pyvc_getattr__(self, I, name):
        if name == "shape":
            return tuple(self.shape)
        if name == "ndim":
            return self.ndim
        if name == "size":
            r = 1
            for d in self.shape:
                r = r * d
            return r
        if name == "real":
            return self.map(lambda x: mkreal(SComplex.of(x).re) if rank(x) == "c" else x)
        if name == "imag":
            return self.map(lambda x: mkreal(SComplex.of(x).im) if rank(x) == "c" else 0)
        if name == "T":
            if self.ndim == 1:
                return self
            return FArr.fn(tuple(reversed(self.shape)), lambda *i: self.cell.elem(*reversed(i)), self.kind)
        if name == "dtype":
            return {"b": np.dtype(bool), "i": np.dtype(int), "f": np.dtype(float), "c": np.dtype(complex)}[self.kind]
        m = getattr(self, "m_" + name, None)
        if m is None:
            raise Unsupported(f"array attribute {name}")
        return Meth(m)

    # methods
    def m_sum(self, I, axis=None, **kw):
        if kw:
            raise Unsupported("sum options")
        if axis is None:
            return self.total(0, ())
        axis = axis % self.ndim
        shape = [d for k, d in enumerate(self.shape) if k != axis]
        d = self.shape[axis]

        def f(*idx):
            return sum_over(d, lambda j: self.cell.elem(*idx[:axis], j, *idx[axis:]), self.kind)

        if not shape:
            return f()
        return FArr.fn(shape, f, "i" if self.kind == "b" else self.kind)

    def total(self, k, idx):
        if k == self.ndim:
            return self.cell.elem(*idx)
        return sum_over(self.shape[k], lambda j: self.total(k + 1, idx + (j,)), self.kind)

    def m_dot(self, I, o):
        o = lift(o)
        if isinstance(o, FView):
            o = o.arr()
        if not isinstance(o, FArr):
            return self._bin(o, "*")
        a, b = self.cell, o.cell
        k, m = self.ndim, o.ndim
        if k not in (1, 2) or m not in (1, 2):
            raise Unsupported("product of arrays of these ranks")
        d, d2 = self.shape[-1], o.shape[0]
        if not core.cur.valid(toint(d) == toint(d2)):
            if core.cur.choose(toint(d) == toint(d2)) is False:
                raise ValueError("shapes not aligned")
        kind = max(self.kind, o.kind, key=_RANK.get)

        def f(*idx):
            left, right = idx[:k - 1], idx[k - 1:]
            return sum_over(d, lambda j: _ranged((*[self.shape[0]] * len(left), d), (*left, j), lambda: scalar_op("*", a.elem(*left, j), b.elem(j, *right))), kind)

        shape = tuple(self.shape[:k - 1]) + tuple(o.shape[1:])
        if not shape:
            return f()
        return FArr.fn(shape, f, kind)

    def __matmul__(self, o):
        return self.m_dot(None, o)

    def m_mean(self, I):
        s = self.m_sum(I)
        n = 1
        for d in self.shape:
            n = n * d
        if not I.e.valid(toint(n) > 0):
            raise Unsupported("mean of a possibly empty array")
        return core._arith("/", s, n)

    def m_copy(self, I, *a):
        return FArr(self.cell)

    def m_conj(self, I):
        return self.map(lambda x: SComplex.of(x).conjugate() if rank(x) == "c" else x)

    m_conjugate = m_conj

    def m_tolist(self, I):
        return PyList(tuple(One(s.v) if isinstance(s, One) else s for s in self.__pyvc_iter__(I)))

    def m_item(self, I):
        raise Unsupported("item of an array")

    def m_astype(self, I, t, **k):
        kind = full_width(t)
        if _RANK[kind] < _RANK[self.kind]:
            raise Unsupported("narrowing array conversion")
        return self.map(lambda x: cast(x, kind), kind)

    def m_reshape(self, I, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, PyTuple)):
            shape = tuple(shape[0])
        if len(shape) == 1 and shape[0] == -1 and self.ndim == 1:
            return FArr(self.cell)
        if len(shape) == 1 and isinstance(shape[0], Cont):
            shape = tuple(force(shape[0]).items_())
        none = lambda ds: any(core.cur.valid(toint(d) == 0) for d in ds)
        if shape and none(shape) and none(self.shape):  # no elements either way
            return FArr.fn(tuple(mkint_(toint(d)) for d in shape), lambda *i: cast(0, self.kind), self.kind)
        raise Unsupported("reshape")

    m_flatten = m_ravel = lambda self, I: self.m_reshape(I, -1)

    def map(self, f, kind=None):
        return FArr.fn(self.shape, lambda *i: f(self.cell.elem(*i)), kind)

    # arithmetic
    def _bin(self, o, op, swap=False):
        o = lift(o)
        if isinstance(o, FView):
            o = o.arr()
        if not isinstance(o, (FArr, Sym, SComplex, int, float, complex, np.number)):
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        return elementwise(op, a, b)

    def __neg__(self):
        return self.map(lambda x: -x)

    def __pos__(self):
        return self

    def __abs__(self):
        return self.map(absolute)

    def __len__(self):
        raise Unsupported("len of a symbolic array")

    def __eq__(self, o):
        return self._bin(o, "==")

    def __ne__(self, o):
        return self._bin(o, "!=")

    def __bool__(self):
        raise Unsupported("truth of an array")

    __hash__ = object.__hash__

    def __repr__(self):
        return f"FArr({self.cell!r})"


def absolute(x):
    x = force(x)
    if rank(x) == "c":
        return abs(SComplex.of(x))
    if isinstance(x, Sym):
        t = toint(x) if rank(x) in "bi" else toreal(x)
        t = z3.If(t >= 0, t, -t)
        return mkint(t) if rank(x) in "bi" else mkreal(t)
    return abs(x)


for _n, _o in [("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("pow", "**"), ("mod", "%"), ("floordiv", "//")]:
    setattr(FArr, f"__{_n}__", (lambda op: lambda self, o: self._bin(o, op))(_o))
    setattr(FArr, f"__r{_n}__", (lambda op: lambda self, o: self._bin(o, op, True))(_o))
for _n, _o in [("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")]:
    setattr(FArr, f"__{_n}__", (lambda op: lambda self, o: self._bin(o, op))(_o))


def scalar_op(op, a, b):
    a, b = force(a), force(b)
    if op == "/":
        e = core.cur
        nz = SComplex.of(b)
        if not e.valid(z3.Or(nz.re != 0, nz.im != 0)):
            raise Unsupported("array division by a value that may be zero")
        if rank(b) != "c" and rank(a) == "c":
            c = SComplex.of(a)
            t = toreal(b)
            return SComplex(c.re / t, c.im / t)
        if rank(b) != "c":
            return mkreal(toreal(a) / toreal(b))
    if op in ("==", "!=", "<", "<=", ">", ">="):
        return core._cmp(op, a, b)
    if op == "%" and rank(a) in "bi" and rank(b) in "bi":
        y = toint(b)
        if not core.cur.valid(y > 0):
            raise Unsupported("array modulo by a value that may not be positive")
        return mkint(toint(a) % y)
    if op == "**":
        if not (isinstance(b, int) and b >= 0):
            raise Unsupported("array power")
        r = 1
        for _ in range(b):
            r = scalar_op("*", r, a)
        return r
    if not isinstance(a, (Sym, SComplex)) and not isinstance(b, (Sym, SComplex)):
        return {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv, "%": operator.mod}[op](a, b)
    r = core._arith(op, a, b)
    if r is NotImplemented:
        raise Unsupported(f"array operation {op}")
    return r


def elementwise(op, a, b):
    sa = a.shape if isinstance(a, FArr) else ()
    sb = b.shape if isinstance(b, FArr) else ()
    n = max(len(sa), len(sb))
    pa, pb = (1,) * (n - len(sa)) + tuple(sa), (1,) * (n - len(sb)) + tuple(sb)
    shape, ua, ub = [], [], []
    e = core.cur
    for x, y in zip(pa, pb):
        if isinstance(x, int) and x == 1:
            shape.append(y)
            ua.append(isinstance(y, int) and y == 1)
            ub.append(True)
            continue
        if isinstance(y, int) and y == 1:
            shape.append(x)
            ua.append(True)
            ub.append(False)
            continue
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                raise ValueError("operands could not be broadcast together")
        elif not e.valid(toint(x) == toint(y)):
            if e.choose(toint(x) == toint(y)):
                pass
            elif e.valid(z3.And(toint(x) != 1, toint(y) != 1)):
                raise ValueError("operands could not be broadcast together")
            else:
                raise Unsupported("broadcast of arrays whose lengths may be 1")
        shape.append(x)
        ua.append(True)
        ub.append(True)

    def pick(arr, s, used, idx):
        if not isinstance(arr, FArr):
            return arr
        idx = idx[n - len(s):]
        used = used[n - len(s):]
        return arr.cell.elem(*[i if u else z3.IntVal(0) for i, u in zip(idx, used)])

    return FArr.fn(shape, lambda *idx: _ranged(shape, idx, lambda: scalar_op(op, pick(a, sa, ua, list(idx)), pick(b, sb, ub, list(idx)))))


def _ranged(shape, idx, f):
    """evaluate an entry template with its indices in range"""
    e = core.cur
    e.solver.push()
    try:
        for i, d in zip(idx, shape):
            e.solver.add(i >= 0, i < toint(d))
        return f()
    finally:
        e.solver.pop()


def sum_over(d, f, kind):
    v = V.index_var("s")
    x = force(f(v))
    if rank(x) == "b":
        x = mkint(toint(x)) if isinstance(x, SBool) else int(x)
    n = toint(d)
    if rank(x) == "c":
        x = SComplex.of(x)
        return SComplex(V.sum_term(n, v, x.re), V.sum_term(n, v, x.im))
    if rank(x) == "i":
        return mkint(V.sum_term(n, v, toint(x)))
    return mkreal(V.sum_term(n, v, toreal(x)))


def _clip(x, d, default):
    if x is None:
        return default
    d = toint(d)
    x = toint(x)
    x = z3.If(x < 0, z3.If(x + d < 0, z3.IntVal(0), x + d), z3.If(x > d, d, x))
    return z3.simplify(x)


class FView(FArr):
    """view of an array with leading indices fixed"""

    def __init__(self, base, idx):
        self.base, self.idx = base, tuple(idx)

    @property
    def cell(self):
        c = self.base.cell
        vs = [V.index_var("w") for _ in c.shape[len(self.idx):]]
        return Cell(c.shape[len(self.idx):], vs, c.elem(*self.idx, *vs), c.kind)

    def arr(self):
        return FArr(self.cell)

    def _sub(self, idx):
        return self.base._sub(self.idx + tuple(idx))

    def __pyvc_setitem__(self, I, k, v):
        ks = tuple(k) if isinstance(k, tuple) else (k,)
        if len(ks) == self.ndim and all(core.is_int(x) for x in ks):
            idx = tuple(self._norm(I, x, a) for a, x in enumerate(ks))
            self.base.__pyvc_setitem__(I, tuple(mkint(x) for x in self.idx + idx), v)
            return
        raise Unsupported("assignment to part of an array view")

    def __pyvc_subst__(self, f):
        return FView(f(self.base), tuple(f(x) for x in self.idx))

    def __pyvc_havoc__(self, I):
        raise Unsupported("array view carried through a loop")

    def __repr__(self):
        return f"FView({self.base!r}, {self.idx})"


class Meth:
    __pyvc_value__ = True

    def __init__(self, f):
        self.f = f

    def __pyvc_call__(self, I, segs, kw):
        return self.f(I, *[force(s.v) for s in segs], **kw)

    def __pyvc_subst__(self, f):
        raise Unsupported("method value in a loop")


def lift(x):
    """arrays and nested symbolic sequences of numbers as FArr; scalars unchanged"""
    x = force(x)
    if isinstance(x, FArr) or isinstance(x, (Sym, SComplex)) or isinstance(x, (int, float, complex, np.number)):
        return x
    if isinstance(x, np.ndarray):
        return concrete(x)
    return x


def full_width(t):
    """the kind of a dtype; numbers are exact here, so the narrow ones, which wrap or round early, are not supported"""
    d = np.dtype(t)
    if d.kind not in "biufc" or d.kind != "b" and d.itemsize < (16 if d.kind == "c" else 8):
        raise Unsupported(f"arrays of {d}")
    return d.kind.replace("u", "i")


def concrete(x):
    kind = "i" if x.dtype == object else full_width(x.dtype)
    if x.dtype == object:
        kinds = [rank(v) for v in x.flat] or ["f"]
        kind = max(kinds, key=_RANK.get)

    def f(*idx):
        def level(k, a):
            if k == x.ndim:
                return a if x.dtype == object else a.item()
            r = None
            if not len(a):
                return 0
            for j in reversed(range(len(a))):
                v = level(k + 1, a[j])
                r = v if r is None else ite(idx[k] == j, v, r)
            return r

        return level(0, x)

    return FArr.fn(x.shape, f, kind)


def from_seq(I, x):
    """np.array of a (nested) sequence"""
    x = force(x)
    if isinstance(x, FArr):
        return FArr(x.cell)
    segs = V.norm_segs(I.iter_segs(x))
    if not segs:
        return FArr.fn((0,), lambda j: SReal(z3.RealVal(0)))
    if not all(isinstance(s, (One, Fam)) for s in segs):
        raise Unsupported("array of a structured sequence")
    # piecewise: entry j belongs to the segment it falls into
    parts = []
    lo = z3.IntVal(0)
    for s in segs:
        if isinstance(s, One):
            parts.append((lo, z3.simplify(lo + 1), None, force(s.v)))
            lo = z3.simplify(lo + 1)
        else:
            parts.append((lo, z3.simplify(lo + s.n), s.var, force(s.val)))
            lo = z3.simplify(lo + s.n)

    def entry(v):
        if isinstance(v, (PyList, PyTuple, tuple, list)):
            return from_seq(I, v)
        return lift(v)

    ents = [entry(v) for _, _, _, v in parts]
    if all(isinstance(x, FArr) for x in ents):
        inner = ents[0].shape
        for x in ents[1:]:
            if len(x.shape) != len(inner) or not all(core.cur.valid(toint(a) == toint(b)) for a, b in zip(x.shape, inner)):
                raise Unsupported("array of rows of different lengths")
    elif any(isinstance(x, FArr) for x in ents):
        raise ValueError("inhomogeneous array")
    else:
        inner = ()
    if any(V.occurs(toint(d), [p[2] for p in parts if p[2] is not None]) for d in inner):
        raise Unsupported("array of rows of different lengths")
    if inner and not core.cur.choose(lo > 0):  # no rows: numpy cannot know their size
        return FArr.fn((0,), lambda j: SReal(z3.RealVal(0)))

    def f(j, *idx):
        r = None
        for (a, b, var, _), x in reversed(list(zip(parts, ents))):
            v = x.elem(*idx) if isinstance(x, FArr) else x
            if var is not None:
                v = subst(v, [(var, z3.simplify(j - a))])
            r = v if r is None else ite(j < b, v, r)
        return r

    return FArr.fn((mkint(lo),) + tuple(inner), f)


def filled(shape, v, dtype):
    shape = tuple(shape) if isinstance(shape, (tuple, list)) else tuple(shape.items_()) if isinstance(shape, Cont) else (shape,)
    kind = full_width(dtype if dtype is not None else float)
    return FArr.fn(shape, lambda *i: cast(v, kind), kind)


def install(I):
    S = I.shims
    I.e.trusted.add("numpy: elementwise arithmetic, broadcasting, sums, indexing, stores (exact numbers)")
    old = {}

    def wrap(f, new):
        prev = S.get(f)

        def shim(I, *a, **k):
            r = new(I, *a, **k)
            if r is not NotImplemented:
                return r
            if prev is not None:
                return prev(I, *a, **k)
            return I.native(f, list(a), k)

        S[f] = shim

    def symbolic(I, x):
        x = force(x)
        if isinstance(x, FArr):
            return True
        if isinstance(x, (Sym, SComplex)):
            return True
        if isinstance(x, (PyList, PyTuple, PySet, PyIter)):
            return not x.concrete or any(symbolic(I, s.v) for s in x.segs)
        if isinstance(x, (tuple, list)):
            return any(symbolic(I, y) for y in x)
        return hasattr(x, "__pyvc_iter__")

    def array(I, x, dtype=None, **k):
        if not symbolic(I, x) or k:
            return NotImplemented
        r = from_seq(I, x)
        return r if dtype is None or dtype is object else r.m_astype(I, dtype)

    def fromiter(I, x, dtype=None, count=-1):
        return array(I, x, dtype)

    def zeros(I, shape, dtype=None, **k):
        return filled(shape, 0, dtype) if symbolic(I, shape) else NotImplemented

    def ones(I, shape, dtype=None, **k):
        return filled(shape, 1, dtype) if symbolic(I, shape) else NotImplemented

    def unary(g):
        def f(I, x, **k):
            x = force(x)
            if isinstance(x, FArr):
                return x.map(g)
            if isinstance(x, (Sym, SComplex)):
                return g(x)
            return NotImplemented

        return f

    def asum(I, x, axis=None, **k):
        return x.m_sum(I, axis) if isinstance(x, FArr) else NotImplemented

    wrap(np.iscomplexobj, lambda I, x: force(x).kind == "c" if isinstance(force(x), FArr) else NotImplemented)
    wrap(np.array, array)
    wrap(np.asarray, array)
    wrap(np.fromiter, fromiter)
    wrap(np.zeros, zeros)
    wrap(np.ones, ones)
    wrap(np.abs, unary(absolute))
    wrap(np.real, unary(lambda x: mkreal(SComplex.of(x).re) if rank(x) == "c" else x))
    wrap(np.imag, unary(lambda x: mkreal(SComplex.of(x).im) if rank(x) == "c" else 0))
    wrap(np.conj, unary(lambda x: SComplex.of(x).conjugate() if rank(x) == "c" else x))
    wrap(np.sum, asum)
    wrap(np.dot, lambda I, a, b: a.m_dot(I, b) if isinstance(a, FArr) else NotImplemented)
    wrap(np.matmul, lambda I, a, b: a.m_dot(I, b) if isinstance(a, FArr) else NotImplemented)

    def elementwise(op):
        def f(I, a, b, **k):
            if k or not (symbolic(I, a) or symbolic(I, b)):
                return NotImplemented
            a, b = [from_seq(I, force(x)) if isinstance(force(x), (Cont, tuple, list)) else force(x) for x in (a, b)]
            return op(a, b)

        return f

    def outer(I, a, b, out=None):
        a, b = [from_seq(I, x) if isinstance(force(x), (Cont, tuple, list)) else lift(x) for x in (a, b)]
        if out is not None or not all(isinstance(x, FArr) and x.ndim == 1 for x in (a, b)):
            return NotImplemented
        return FArr.fn((a.shape[0], b.shape[0]), lambda i, j: a.elem(i) * b.elem(j), max(a.kind, b.kind, key=_RANK.get))

    wrap(np.outer, outer)
    for f, op in ((np.add, operator.add), (np.subtract, operator.sub), (np.multiply, operator.mul), (np.divide, operator.truediv)):
        wrap(f, elementwise(op))
    prev_abs = S.get(abs)

    def babs(I, x):
        if isinstance(x, FArr):
            return x.map(absolute)
        return prev_abs(I, x) if prev_abs is not None else abs(x)

    S[abs] = babs

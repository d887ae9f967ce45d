"""Finite index sets and counters: contracts of set enumeration and collections.Counter.

IdxSet     a set of integers 0 <= q < size known by its membership predicate.  Iterating it visits every element exactly
           once in an unknown order: for every f, the sum of f over the visit equals the sum of [q in set] f(q).
counter    collections.Counter of a sequence x_0 .. x_{N-1}: distinct elements with positive counts; for every function h of
           an element, the sum of count * h(element) over the entries is the sum of h(x_i) over the sequence.
Both are installed as rewriting rules of symbolic sums."""
import collections

from . import core, values as V
from .core import *  # noqa: F401,F403
from .core import z3
from .values import *  # noqa: F401,F403


def add_rewrite(e, key, f):
    e.__dict__.setdefault("sum_rewrites", {}).setdefault(key, f)


def size_of(nq, var, chi):
    return V.sum_term(nq, var, z3.If(chi, z3.IntVal(1), z3.IntVal(0)))


class IdxSet:
    __pyvc_value__ = True

    def __init__(self, nq, var, chi, cls=set):
        self.nq, self.var, self.chi, self.cls = nq, var, chi, cls

    def has(self, q):
        return z3.simplify(z3.substitute(self.chi, (self.var, toint(q))))

    @property
    def size(self):
        return size_of(toint(self.nq), self.var, self.chi)

    def _new(self, o, f):
        if isinstance(o, (set, frozenset)):
            o = literal(self.nq, o)
        if not isinstance(o, IdxSet):
            raise Unsupported("set operation with another kind of set")
        if not core.cur.valid(toint(o.nq) == toint(self.nq)):
            raise Unsupported("sets over different ranges")
        return IdxSet(self.nq, self.var, z3.simplify(f(self.chi, o.has(self.var))), self.cls)

    def __xor__(self, o):
        return self._new(o, lambda a, b: z3.Xor(a, b))

    def __or__(self, o):
        return self._new(o, lambda a, b: z3.Or(a, b))

    def __and__(self, o):
        return self._new(o, lambda a, b: z3.And(a, b))

    def __sub__(self, o):
        return self._new(o, lambda a, b: z3.And(a, z3.Not(b)))

    __rxor__, __ror__, __rand__ = __xor__, __or__, __and__

    def enumerate_(self, increasing=False):
        e = core.cur
        k = self.size
        reg = e.__dict__.setdefault("sorted_reg" if increasing else "enum_reg", [])
        key = (z3.simplify(toint(self.nq)), z3.substitute(self.chi, (self.var, z3.Int("·q"))))
        ps = V.index_consts(key[1])
        canon = [z3.Const(f"·p{j}:{p.sort()}", p.sort()) for j, p in enumerate(ps)]
        kc = z3.substitute(key[1], *zip(ps, canon)) if ps else key[1]
        kc = z3.simplify(kc)
        sorts = [p.sort() for p in ps] + [z3.IntSort()]
        for n2, c2, E in reg:
            if n2.eq(key[0]) and c2.eq(kc):
                break
        else:
            s = z3.Solver()  # the same set, written differently
            s.set("timeout", 500)
            for n2, c2, E in reg:
                if n2.eq(key[0]) and [E.domain(j) for j in range(E.arity())] == sorts and s.check(c2 != kc) == z3.unsat:
                    break
            else:
                E = None
        if E is None:
            E = z3.Function(f"{'sorted' if increasing else 'enum'}{len(reg)}", *[p.sort() for p in ps], z3.IntSort(), z3.IntSort())
            reg.append((key[0], kc, E))
        v = V.index_var("e")
        el = E(*ps, v)
        e.add_qfact(k, v, z3.And(el >= 0, el < toint(self.nq), self.has(el)))
        from .shims import distinct_keys

        distinct_keys(e, k, v, SInt(el))
        if increasing:
            w = V.index_var("e")
            e.add_qfact(k - 1, w, E(*ps, w) < E(*ps, w + 1))
        chi, var, nq = self.chi, self.var, toint(self.nq)
        e.add_qfact(nq, var, z3.Implies(k <= 0, z3.Not(chi)))
        free = [p for p in ps if not any(p.eq(g) for g in e.gidx)]
        if len(free) == 1 and free[0].sort() == z3.IntSort():
            # elements of a family: the enumeration of every member
            p, w = free[0], V.index_var("p")
            at = lambda f: z3.substitute(f, (p, w))
            u, u2 = V.index_var("u"), V.index_var("u")
            fs = [z3.ForAll([u], at(z3.Implies(z3.And(u >= 0, u < k), z3.And(E(*ps, u) >= 0, E(*ps, u) < nq, self.has(E(*ps, u))))))]
            fs.append(z3.ForAll([u2], at(z3.Implies(z3.And(u2 >= 0, u2 < nq, k <= 0), z3.Not(self.has(u2))))))
            if increasing:
                fs.append(z3.ForAll([u], at(z3.Implies(z3.And(u >= 0, u < k - 1), E(*ps, u) < E(*ps, u + 1)))))
            for f in fs:
                e.qfacts.append((None, w, f))
                for t in list(e.idxterms):
                    e._inst(None, w, f, t)

        def rewrite(n, x, body):
            if not _has_decl(body, E) or not (n.eq(k) or e.valid(n == k)):
                return None
            hits = [t for t in _apps_of(body, E) if all(t.arg(j).eq(p) for j, p in enumerate(ps)) and t.arg(t.num_args() - 1).eq(x)]
            if not hits:
                return None
            q = V.index_var("q")
            b = z3.substitute(body, *[(t, q) for t in hits])
            if V._mentions(b, x):
                return None
            zero = z3.IntVal(0) if b.sort() == z3.IntSort() else z3.RealVal(0)
            return V.sum_term(nq, q, z3.If(z3.substitute(chi, (var, q)), b, zero))

        add_rewrite(e, ("enum", E, tuple(p.get_id() for p in ps), k.get_id()), rewrite)
        return (Fam(k, v, SInt(el)),)

    def position(self, q):
        """every element is enumerated: its position"""
        e = core.cur
        (f,) = self.enumerate_()
        E = f.val.t.decl()
        P = z3.Function(E.name() + ".at", *[E.domain(j) for j in range(E.arity())], z3.IntSort())
        ps = [f.val.t.arg(j) for j in range(E.arity() - 1)]
        p = P(*ps, toint(q))
        e.add(z3.Implies(z3.And(q >= 0, q < toint(self.nq), self.has(q)), z3.And(p >= 0, p < f.n, E(*ps, p) == q)))
        e.reg_index(p)
        e.reg_index(p - 1)
        return p

    def __pyvc_iter__(self, I):
        I.e.trusted.add("set: iteration visits every element exactly once, in unknown order")
        return self.enumerate_()

    def __pyvc_set__(self, I, cls):
        return IdxSet(self.nq, self.var, self.chi, cls)

    def __pyvc_sorted__(self, I):
        I.e.trusted.add("sorted(set): the elements in increasing order, each once")
        return PyList(self.enumerate_(increasing=True))

    def __pyvc_len__(self, I=None):
        return mkint(self.size)

    def __bool__(self):
        e = core.cur
        k = self.size
        r = e.choose(k > 0)
        if not r:
            e.add_qfact(toint(self.nq), self.var, z3.Not(self.chi))
        return r

    def __pyvc_contains__(self, I, x):
        q = toint(x)
        return mkbool(z3.And(q >= 0, q < toint(self.nq), self.has(q)))

    def __pyvc_eqv__(self, o):
        if isinstance(o, (set, frozenset)):
            o = literal(self.nq, o)
        if not isinstance(o, IdxSet):
            return False
        return V.holds_generic(toint(self.nq), lambda q: self.has(q) == o.has(q))

    def __pyvc_subst__(self, f):
        nv = V.index_var("q")
        c = f(SBool(z3.substitute(self.chi, (self.var, nv))))
        return IdxSet(f(self.nq) if isinstance(self.nq, Sym) else self.nq, nv, c.t if isinstance(c, SBool) else z3.BoolVal(bool(c)), self.cls)

    def __pyvc_syntax__(self):
        return (SBool(z3.substitute(self.chi, (self.var, z3.Int("·q")))),)

    def __pyvc_isinstance__(self, I, cls):
        return isinstance(cls, type) and issubclass(self.cls, cls)

    def __pyvc_class__(self, I):
        return self.cls

    def __pyvc_getattr__(self, I, name):
        ops = dict(symmetric_difference="__xor__", union="__or__", intersection="__and__", difference="__sub__")
        if name in ops:
            f = getattr(self, ops[name])
            return _Call(lambda I, *a: _fold(f, a))
        if name == "copy":
            return _Call(lambda I: self)
        if name == "isdisjoint":
            return _Call(lambda I, o: mkbool(V.holds_generic(toint(self.nq), lambda q: z3.Not((self & o).has(q)))))
        raise Unsupported(f"set method {name}")

    __hash__ = object.__hash__

    def __eq__(self, o):
        return mkbool(self.__pyvc_eqv__(o))

    def __repr__(self):
        return f"IdxSet({self.chi})"


def _fold(f, args):
    if len(args) != 1:
        raise Unsupported("set operation with several arguments")
    return f(force(args[0]))


def literal(nq, xs):
    v = V.index_var("q")
    return IdxSet(nq, v, z3.Or(*[v == toint(x) for x in xs]) if xs else z3.BoolVal(False))


class _Call:
    __pyvc_value__ = True

    def __init__(self, f):
        self.f = f

    def __pyvc_call__(self, I, segs, kw):
        return self.f(I, *[force(s.v) for s in segs], **kw)


def _has_decl(t, f):
    return any(True for _ in _apps_of(t, f))


def _apps_of(t, f, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    if z3.is_app(t) and t.num_args() and t.decl().eq(f):
        yield t
    for c in t.children():
        yield from _apps_of(c, f, seen)


def element_functions(val, i):
    """the uninterpreted functions through which the element template depends on its index i"""
    out = []

    def term(t, seen):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if t.eq(i):
            raise Unsupported("counter of elements that are not functions of their index")
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() and any(a.eq(i) for a in t.children()):
            if not any(t.decl().eq(g) for g in out):
                out.append(t.decl())
            for a in t.children():
                if not a.eq(i):
                    term(a, seen)
            return
        for c in t.children():
            term(c, seen)

    def walk(v):
        v = force(v)
        if isinstance(v, SComplex):
            term(v.re, set()), term(v.im, set())
        elif isinstance(v, Sym):
            term(v.t, set())
        elif isinstance(v, SStr):
            for p in v.parts:
                if not isinstance(p, str):
                    for x in p[1:]:
                        walk(x)
        elif isinstance(v, Cont):
            for s in v.segs:
                seg(s)
        elif isinstance(v, tuple):
            for x in v:
                walk(x)
        elif isinstance(v, (int, float, str, complex, type(None))):
            pass
        else:
            raise Unsupported(f"counter of {type(v).__name__}")

    def seg(s):
        if isinstance(s, One):
            walk(s.v)
        elif isinstance(s, Fam):
            term(s.n, set())
            walk(s.val)
        elif isinstance(s, (Flat,)):
            term(s.n, set())
            for x in s.segs:
                seg(x)
        else:
            raise Unsupported("counter of structured sequences")

    walk(val)
    return out


def depends_only(t, i, fns, bound=()):
    """t depends on i only through applications f(.., i, ..) of the given functions"""
    if t.eq(i):
        return False
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args():
        if any(t.decl().eq(g) for g in fns):
            return all(a.eq(i) or depends_only(a, i, fns) for a in t.children())
        if t.decl().name().startswith("Σ"):
            for _, n, v, body in V.sum_symbols(t).values():
                if n.eq(t.arg(0)):
                    fresh = z3.substitute(body, (v, V.index_var("d")))
                    return depends_only(n, i, fns) and depends_only(fresh, i, fns)
            return False
    return all(depends_only(c, i, fns) for c in t.children())


class Counted:
    def __init__(self, m, cnt, W, N):
        self.m, self.cnt, self.W, self.N = m, cnt, W, N


def _same(f, g):
    try:
        return V.seq_eqv([f], [g]) is True
    except Unsupported:
        return False


def counter(I, segs):
    """Counter of one family of N elements"""
    e = I.e
    segs = V.norm_segs(segs)
    if not segs:
        d = PyDict()
        d.counter = True
        return d
    if len(segs) != 1 or not isinstance(segs[0], Fam):
        raise Unsupported("Counter of a structured symbolic sequence")
    f = segs[0]
    N = f.n
    reg = e.__dict__.setdefault("counter_reg", [])
    for f2, r in reg:
        if f2.n.eq(f.n) and _same(f2, f):
            break
    else:
        I.e.trusted.add("collections.Counter: distinct elements with positive counts; count-weighted sums over the entries are sums over the sequence")
        fns = element_functions(f.val, f.var)
        name = e.fresh_name("ctr")
        m = z3.Int(name + ".m")
        C = z3.Function(name + ".c", z3.IntSort(), z3.IntSort())
        W = z3.Function(name + ".w", z3.IntSort(), z3.IntSort())
        r = Counted(m, C, W, N)
        reg.append((f, r))

        def rewrite(n, x, body):
            if not _has_decl(body, C) or not (n.eq(m) or e.valid(n == m)):
                return None
            cx, wx = C(x), W(x)
            g = z3.substitute(body, (cx, z3.IntVal(1)))
            i = V.index_var("i")
            h = _through(g, x, wx, i)
            if V._mentions(h, x):
                return None
            scaled = cx * g if g.sort() == z3.IntSort() else z3.ToReal(cx) * g
            if not V._generic_same(body, scaled):
                return None
            if not depends_only(h, i, fns):
                return None
            return V.sum_term(N, i, h)

        add_rewrite(e, name, rewrite)
    e.add(z3.And(r.m >= 0, r.m <= N, (r.m > 0) == (N > 0)))
    a = V.index_var("a")
    e.add_qfact(r.m, a, z3.And(r.cnt(a) >= 1, r.W(a) >= 0, r.W(a) < N))
    a = V.index_var("k")
    from .shims import distinct_keys

    distinct_keys(e, r.m, a, subst(f.val, [(f.var, r.W(a))]))
    d = PyDict((Fam(r.m, a, (subst(f.val, [(f.var, r.W(a))]), SInt(r.cnt(a)))),))
    d.counter = True
    d.counted = r
    return d


def _through(g, x, wx, i):
    """wx -> i, also inside the summands of sums that mention x"""
    subs = [(wx, i)]
    for t, n, v, body in V.sum_symbols(g).values():
        if V._mentions(t, x):
            nv = V.index_var("s")
            b = _through(z3.substitute(body, (v, nv)), x, wx, i)
            subs.append((t, V.sum_term(z3.substitute(n, (wx, i)), nv, b)))
    return z3.substitute(g, *subs)


def install(I):
    S = I.shims
    prev = S[collections.Counter]

    def s_counter(I, it=()):
        it = force(it)
        if not isinstance(it, (PyDict, dict)):
            segs = I.iter_segs(it)
            if any(not isinstance(s, One) for s in segs):
                return counter(I, segs)
            it = PyTuple(segs)
        return prev(I, it)

    S[collections.Counter] = s_counter

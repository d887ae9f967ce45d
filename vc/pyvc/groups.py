"""Group-by loops: a dictionary from keys to lists, where iteration i adds one element to the list of its key.

While the loop body is analysed, the previous content of the dictionary is a Hole; whether a key is already present is an
unknown In(key).  A body that appends to the list of a present key and starts a new list for an absent one (or uses
defaultdict / setdefault) gives the grouping of the elements by key: groups in order of first occurrence, members in order."""
from . import core, values as V
from .core import *  # noqa: F401,F403
from .core import z3
from .values import *  # noqa: F401,F403


def key_term(k):
    k = force(k)
    if isinstance(k, SInt):
        return k.t
    if hasattr(k, "__pyvc_key__"):
        return k.__pyvc_key__()
    if isinstance(k, SStr) and len(k.parts) == 1 and not isinstance(k.parts[0], str) and k.parts[0][0] == "str" and hasattr(k.parts[0][1], "__pyvc_key__"):
        return k.parts[0][1].__pyvc_key__()
    if isinstance(k, Abs) and k.key and isinstance(k.key[-1], z3.ExprRef) and z3.is_int(k.key[-1]):
        return k.key[-1]
    if isinstance(k, SStr) and getattr(core.cur, "text_key", None) is not None:
        return core.cur.text_key(k)
    if isinstance(k, (PyTuple, tuple)) and getattr(core.cur, "tuple_key", None) is not None:
        return core.cur.tuple_key(V.segs_of(k))
    raise Unsupported("lookup in a symbolic dictionary")


def same_key(a, b):
    return V.same_syntax(a, b) or key_term(a).eq(key_term(b))


def present(hole, k):
    return z3.Function("in·" + hole.id, z3.IntSort(), z3.BoolSort())(key_term(k))


class GroupAppend:
    """entry marker: the list of this key is extended by elements"""

    __pyvc_value__ = True

    def __init__(self, v):
        self.v = v

    def __pyvc_subst__(self, f):
        return GroupAppend(f(self.v))

    def __pyvc_syntax__(self):
        return (self.v,)

    def __pyvc_eqv__(self, o):
        return isinstance(o, GroupAppend) and V.eqv(self.v, o.v)


class GroupSum:
    """entry marker: the number of this key is increased"""

    __pyvc_value__ = True

    def __init__(self, k, v):
        self.k, self.v = k, v

    def __pyvc_subst__(self, f):
        return GroupSum(f(self.k), f(self.v))

    def __pyvc_syntax__(self):
        return (self.k, self.v)

    def __add__(self, o):
        return GroupSum(self.k, self.v + o)

    __radd__ = __add__

    def __pyvc_eqv__(self, o):
        return isinstance(o, GroupSum) and V.conj([V.eqv(self.k, o.k), V.eqv(self.v, o.v)])


class GroupRef:
    """the list or number of a present key"""

    def __add__(self, o):
        o = force(o)
        if not isinstance(o, (int, float, SInt, SReal, SComplex, complex)):
            raise Unsupported("arithmetic with an entry of a symbolic dictionary")
        return GroupSum(self.k, o)

    __radd__ = __add__

    __pyvc_value__ = True

    def __init__(self, d, k):
        self.d, self.k = d, k

    def __pyvc_eqv__(self, o):
        """whether the value stored for this key equals another value is unknown"""
        return z3.Bool(core.cur.fresh_name("stored·same"))

    def __pyvc_getattr__(self, I, name):
        if name == "append":
            return Bound(self.append)
        raise Unsupported(f"list of a group: {name}")

    def append(self, I, v):
        d = self.d
        d.set_checked(I, d.segs + (One((self.k, GroupAppend(v))),))


class Bound:
    __pyvc_value__ = True

    def __init__(self, f):
        self.f = f

    def __pyvc_call__(self, I, segs, kw):
        return self.f(I, *[force(s.v) for s in segs], **kw)


def pattern(I, n, i, base, hole_id, adds):
    """(key template, element template) when every path adds one element to the list of its key; None otherwise"""
    e = I.e
    hole = Hole(hole_id)
    out, kinds = None, set()
    for c, segs in adds:
        if len(segs) != 1 or not isinstance(segs[0], One):
            return None
        k, v = force(segs[0].v)
        known = present(hole, k)
        if isinstance(v, GroupAppend):
            el = v.v
            want = known
            kinds.add("list")
        elif isinstance(v, GroupSum):
            if not same_key(v.k, k):
                return None
            el = v.v
            want = known
            kinds.add("sum")
        elif core._num_kind(v):
            el = v
            want = z3.Not(known)
            kinds.add("sum")
        else:
            kinds.add("list")
            if not isinstance(v, PyList) or len(v.segs) != 1 or not isinstance(v.segs[0], One):
                return None
            el = v.segs[0].v
            want = z3.Not(known)
        if c is None:
            return None
        e.solver.push()
        e.add(z3.And(i >= 0, i < n))
        ok = e.valid(z3.Implies(c, want))
        e.solver.pop()
        if not ok:
            return None
        if isinstance(el, (SReal, SInt)):
            el = type(el)(z3.simplify(el.t))
        if out is None:
            out = (k, el)
        elif not (same_key(out[0], k) and V.same_syntax(out[1], el)):
            return None
    if base or out is None or len(kinds) != 1:
        return None
    return (*out, kinds.pop())


def first_pattern(I, n, i, hole_id, adds):
    """`if k not in D: D[k] = v`, possibly only under a condition: (condition, key, value), or None"""
    from . import seen

    e = I.e
    put = [(c, a) for c, a in adds if a]
    if len(put) != 1 or put[0][0] is None or len(put[0][1]) != 1 or not isinstance(put[0][1][0], One):
        return None
    c0, (one,) = put[0]
    k, v = force(one.v)
    if isinstance(force(v), (GroupAppend, GroupSum)):
        return None
    known = present(Hole(hole_id), k)
    lits = []

    def flat(t):
        t = z3.simplify(t)
        for x in t.children() if z3.is_and(t) else [t]:
            lits.append(x)

    flat(c0)
    free = lambda t: not seen.mentions(SBool(t), hole_id)
    cond = z3.And(*[t for t in lits if free(t)]) if any(free(t) for t in lits) else z3.BoolVal(True)
    e.solver.push()
    try:
        e.add(z3.And(i >= 0, i < n))
        if not e.valid(c0 == z3.And(cond, z3.Not(known))):
            return None
        for c, a in adds:
            if not a and (c is None or not e.valid(z3.Implies(c, z3.Or(known, z3.Not(cond))))):
                return None
    finally:
        e.solver.pop()
    if seen.mentions(v, hole_id) or seen.mentions(k, hole_id):
        return None
    return z3.simplify(cond), k, v


def strip(I, c, hole_id):
    return z3.BoolVal(True)


class Grouping:
    def __init__(self, G, size, mem):
        self.G, self.size, self.mem = G, size, mem


def grouping(e, m, i, key):
    """groups of 0 .. m-1 by key (registered once)"""
    from .shims import distinct_keys

    reg = e.__dict__.setdefault("group_reg", [])
    canon = z3.simplify(key_term(subst(key, [(i, z3.Int("·i"))])))
    if canon.eq(z3.Int("·i")) and e.valid(m >= 0):  # pairwise different keys: groups of one, in order
        distinct_keys(e, m, i, key)
        return Grouping(m, lambda g: z3.IntVal(1), lambda g, u: g)
    for m2, k2, r in reg:
        if m2.eq(m) and k2.eq(canon):
            break
    else:
        Zi = z3.IntSort()
        name = e.fresh_name("grp")
        ctx = list(e.gidx)
        cs = [Zi] * len(ctx)
        G = z3.Function(name + ".n", *cs, Zi)(*ctx) if ctx else z3.Int(name + ".n")
        S, M = z3.Function(name + ".size", *cs, Zi, Zi), z3.Function(name + ".mem", *cs, Zi, Zi, Zi)
        r = Grouping(G, lambda g: S(*ctx, g), lambda g, u: M(*ctx, g, u))
        reg.append((m, canon, r))
    e.trusted.add("group-by: groups in order of first occurrence; members in order; every element in exactly one group")
    G, size, mem = r.G, r.size, r.mem
    e.add(z3.And(G >= 0, z3.Or(G <= m, m <= 0), (G > 0) == (m > 0)))
    g, u = V.index_var("g"), V.index_var("u")
    e.add_qfact(G, g, z3.And(size(g) >= 1, size(g) <= m, mem(g, z3.IntVal(0)) >= 0, mem(g, z3.IntVal(0)) < m))
    at = lambda x: key_term(subst(key, [(i, x)]))
    e.add_qfact(G, g, z3.ForAll([u], z3.Implies(z3.And(u >= 0, u < size(g)), z3.And(
        mem(g, u) >= 0, mem(g, u) < m, at(mem(g, u)) == at(mem(g, z3.IntVal(0))))), patterns=[mem(g, u)]))
    a = V.index_var("a")
    distinct_keys(e, G, a, subst(key, [(i, mem(a, z3.IntVal(0)))]))
    return r


def content(I, m, i, key, el, kind="list"):
    e = I.e
    if kind == "sum" and type(el) is int and el == 1 and e.__dict__.get("tallies") and e.valid(m >= 0):
        # every element counts once: the counter of the keys
        from .count import counter

        return counter(I, (Fam(m, i, key),)).segs
    gr = grouping(e, m, i, key)
    g, u = V.index_var("g"), V.index_var("u")
    if kind == "sum":
        total = sum_of(gr.size(g), u, subst(el, [(i, gr.mem(g, u))]))
        return (Fam(gr.G, g, (subst(key, [(i, gr.mem(g, z3.IntVal(0)))]), total)),)
    inner = PyList((Fam(gr.size(g), u, subst(el, [(i, gr.mem(g, u))])),))
    return (Fam(gr.G, g, (subst(key, [(i, gr.mem(g, z3.IntVal(0)))]), inner)),)


def sum_of(n, u, v):
    v = force(v)
    if isinstance(v, (complex, SComplex)):
        v = SComplex.of(v)
        return SComplex(V.sum_term(n, u, v.re), V.sum_term(n, u, v.im))
    if core.is_int(v):
        return mkint(V.sum_term(n, u, toint(v)))
    return SReal(V.sum_term(n, u, toreal(v)))

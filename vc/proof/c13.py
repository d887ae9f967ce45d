"""C13: splitting, expanding and recombining batches of circuits.

Every obligation is for sequences of arbitrary (symbolic) length."""
from vc.pyvc.driver import *
from vc.pyvc.driver import V, z3
from vc.pyvc import loops
from orquestra.quantum.circuits import _itertools as it


class Item(Abs):
    """a circuit, a measurement or any other object"""


def nsf():
    return z3.Function("ns", z3.IntSort(), z3.IntSort())


@obligation("C13")
def expand_one(cx):
    """_expand_sample_size: the parts are positive, at most the maximum, sum to the request, and there are as many as
    the multiplicity says"""
    n, m = cx.int("n", 0), cx.int("m", 1)
    sizes, mult = cx.call(it._expand_sample_size, n, m)
    cx.prove(cx.call(sum, sizes) == n, "sum of the parts is the request")
    cx.prove(cx.len(sizes) == mult, "as many parts as the multiplicity")
    for s in V.segs_of(sizes):
        v = s.v if isinstance(s, One) else s.val
        cx.prove(v >= 0, "parts are not negative")
        cx.prove(SBool(z3.Implies(n.t > 0, (v >= 1).t if isinstance(v >= 1, SBool) else z3.BoolVal(v >= 1))), "parts are positive")
        cx.prove(v <= m, "parts fit")


def expand_model(I, n, m):
    """contract of _expand_sample_size (discharged by expand_one): an abstract tuple of `mult(n, m)` sizes"""
    M = z3.Function("mult", z3.IntSort(), z3.IntSort(), z3.IntSort())
    S = z3.Function("part", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
    v = V.index_var("p")
    mt = M(toint(n), toint(m))
    I.e.assume(mt >= 0)
    return (PyTuple((Fam(mt, v, SInt(S(toint(n), toint(m), v))),)), mkint(mt))


@obligation("C13")
def expand_all_counts(cx):
    """expand_sample_sizes: one multiplicity per circuit, as many circuits as sizes, the sizes add up to the request"""
    N, m = cx.int("N", 0), cx.int("m", 1)
    circuits, ns = cx.objs(Item, N, "c"), cx.ints("ns", N)
    cx.forall(N, lambda j: SBool(nsf()(j.t) >= 0))
    cx.freeze(circuits), cx.freeze(ns)
    nc, nn, mult = cx.call(it.expand_sample_sizes, circuits, ns, m)
    cx.prove(cx.len(mult) == N, "one multiplicity per circuit")
    cx.prove(cx.len(nc) == cx.call(sum, mult), "circuits are repeated by their multiplicity")
    cx.prove(cx.len(nn) == cx.len(nc), "one size per (repeated) circuit")
    cx.prove(cx.call(sum, nn) == cx.call(sum, ns), "the sizes add up to the request")


@obligation("C13")
def expand_all_layout(cx):
    """expand_sample_sizes over the contract of _expand_sample_size: group j consists of circuit j repeated mult_j times
    with exactly the parts of request j, in order"""
    N, m = cx.int("N", 0), cx.int("m", 1)
    circuits, ns = cx.objs(Item, N, "c"), cx.ints("ns", N)
    cx.forall(N, lambda j: SBool(nsf()(j.t) >= 0))
    cx.contract(it._expand_sample_size, expand_model)
    nc, nn, mult = cx.call(it.expand_sample_sizes, circuits, ns, m)
    M = z3.Function("mult", z3.IntSort(), z3.IntSort(), z3.IntSort())
    S = z3.Function("part", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
    j, p = V.index_var("j"), V.index_var("p")
    cnt = M(nsf()(j), m.t)
    cx.same(nc, PyList((Flat(N.t, j, (Fam(cnt, p, Item("c", j)),)),)), "order and repetition of the circuits")
    cx.same(nn, PyList((Flat(N.t, j, (Fam(cnt, p, SInt(S(nsf()(j), m.t, p))),)),)), "order of the sizes")
    cx.same(mult, PyList((Fam(N.t, j, SInt(cnt)),)), "multiplicities")


class BatchLoop:
    """_iterate_in_batches: after k batches of size B, k * B elements (or all) are consumed and batch j consists of the
    elements j*B, j*B+1, ..."""

    def __init__(self, I, env):
        self.I, self.env = I, env
        # whatever the code calls the iterator it takes the batches from and the batch itself
        self.names = tuple(loops.assigned_names(I.while_node))
        (self.src,) = [v for v in env.vars.values() if isinstance(v, V.PyIter)]
        self.B = toint(I.lookup("batch_size", env))
        segs = V.norm_segs(self.src.segs)
        self.base = segs[0] if segs else None
        if len(segs) > 1 or segs and not isinstance(segs[0], Fam):
            raise Unsupported("batches of a structured sequence")
        self.L = self.base.n if segs else z3.IntVal(0)
        self.out = I.yield_target(env)
        self.before = self.out.segs

    def conts(self):
        return {id(self.src), id(self.out)}

    def used(self, k):
        t = z3.simplify(k * self.B)
        return z3.If(t <= self.L, t, self.L)

    def batch(self, j):
        v = V.index_var("b")
        start = j * self.B
        n = z3.If(start + self.B <= self.L, self.B, self.L - start)
        return PyTuple((Fam(n, v, subst(self.base.val, [(self.base.var, start + v)])),))

    def state(self, k):
        I, env = self.I, self.env
        rest = () if self.base is None else (loops._suffix(self.base, self.used(k)),)
        j = V.index_var("j")
        done = () if self.base is None else (Fam(k, j, self.batch(j)),)
        return [
            ("consumed", lambda: self.src.segs, lambda v: self.src.set_checked(I, v), rest),
            ("batches so far", lambda: self.out.segs, lambda v: self.out.set_checked(I, v), tuple(self.before) + done),
        ]

    def holds(self, k):
        # every batch so far is non-empty
        return z3.And(k >= 0, z3.Or(k == 0, (k - 1) * self.B < self.L))

    def bound(self):
        return self.L if self.base is not None else z3.IntVal(0)


@obligation("C13", cost=5)
def batches(cx):
    """split_into_batches: consecutive non-empty batches of at most the maximum size that cover all circuits in order,
    each with the largest of its sample sizes"""
    L, B = cx.int("L", 0), cx.int("B", 1)
    cx.I.while_specs = {"_iterate_in_batches": BatchLoop}
    circuits, ns = cx.objs(Item, L, "c"), cx.ints("ns", L)
    cx.freeze(circuits), cx.freeze(ns)
    r = cx.call(it.split_into_batches, circuits, ns, B)
    segs = V.norm_segs(r.segs)
    if not segs:
        cx.prove(L == 0, "no batch only without circuits")
        return
    cx.prove(len(segs) == 1, "one family of batches")
    f = segs[0]
    K = f.n
    Bt, Lt = B.t, L.t
    cx.prove(SBool(z3.And(K >= 1, (K - 1) * Bt < Lt, Lt <= K * Bt)), "the batches cover the sequence")

    def body(j):
        chunk, m = V.inst(f, j)
        start = j * Bt
        n = V.segs_len(V.segs_of(chunk))
        cx.prove(SBool(z3.And(n >= 1, n <= Bt)), "batches are not empty and fit")
        cx.prove(SBool(n == z3.If(start + Bt <= Lt, Bt, Lt - start)), "only the last batch may be smaller")
        v = V.index_var("v")
        cx.prove(V.seq_eqv(V.segs_of(chunk), (Fam(n, v, Item("c", start + v)),)), "batch j holds the circuits from j*B on, in order")
        p = z3.Int("p")
        cx.e.assume(z3.And(p >= 0, p < n))
        cx.e.reg_index(p)
        cx.e.reg_index(p - 1)
        cx.prove(SBool(nsf()(start + p) <= toint(m)), "the batch size covers every request")
        w = V.index_var("w")
        cx.e.solver.push()
        cx.e.add(z3.ForAll([w], z3.Implies(z3.And(w >= 0, w < n), nsf()(start + w) != toint(m))))
        cx.prove(False, "the batch size is one of the requests")
        cx.e.solver.pop()
        return True

    cx.prove(V.holds_generic(K, body))


@obligation("C13")
def batches_reject(cx):
    """mismatched lengths and non-positive batch sizes are refused with ValueError"""
    L, M, B = cx.int("L", 0), cx.int("M", 0), cx.int("B")
    cx.assume(z3.Or(L.t != M.t, B.t <= 0))
    cx.raises(ValueError, it.split_into_batches, cx.objs(Item, L, "c"), cx.ints("ns", M), B)


def multf():
    return z3.Function("mu", z3.IntSort(), z3.IntSort())


def prefix_total(cx, N):
    """mu(j) >= 0 and L = mu(0) + ... + mu(N-1)"""
    cx.forall(N, lambda j: SBool(multf()(j.t) >= 0))
    return cx.call(sum, cx.ints("mu", N))


class CountsFold(Abs):
    """the measurement counts first + m(s) + m(s+1) + ... + m(s+n-1) (abstract fold)"""


def measure_model(I, first, second):
    """contract of _combine_measurements: extends a fold by the next measurement"""
    if isinstance(first, PyDict) and not first.segs:
        return MFold((), second)
    if isinstance(first, MFold):
        return MFold(first.items, second)
    raise Unsupported("combination of unexpected values")


class MFold:
    """counts combined from a sequence of measurements, in order: segments"""

    __pyvc_value__ = True

    def __init__(self, items, *more):
        self.items = tuple(items) + tuple(One(m) for m in more)

    def __pyvc_eqv__(self, o):
        return V.seq_eqv(self.items, o.items) if isinstance(o, MFold) else False

    def __pyvc_subst__(self, f):
        r = MFold(())
        r.items = tuple(f(s) for s in self.items)
        return r

    def __pyvc_syntax__(self):
        return self.items

    def __pyvc_havoc__(self, I):
        hid = I.e.fresh_name("mf")
        r = MFold((Hole(hid),))
        r.hid = hid
        return r, []

    def __pyvc_summ__(self, I, n, i, old, vals, conds_ok):
        if len(vals) != 1 or vals[0][1] != "new" or not isinstance(vals[0][2], MFold):
            return None
        items = vals[0][2].items
        if not items or not isinstance(items[0], Hole) or items[0].id != self.hid:
            return None
        add = items[1:]
        base = () if isinstance(old, PyDict) and not old.segs else old.items if isinstance(old, MFold) else None
        if base is None:
            return None

        def at(m):
            m = z3.simplify(toint(m))
            r = MFold(())
            r.items = base + ((Fam(m, i, add[0].v),) if len(add) == 1 and isinstance(add[0], One) else (Flat(m, i, add),))
            return r

        return at


@obligation("C13", cost=4)
def combine_counts_groups(cx):
    """combine_measurement_counts: result j combines exactly the measurements p_j .. p_j + mult_j - 1, in order, where
    p_j = mult_0 + ... + mult_{j-1}; every measurement is used once; the arguments are not written"""
    N = cx.int("N", 0)
    L = prefix_total(cx, N)
    ms = cx.objs(Item, L, "m")
    mult = cx.ints("mu", N)
    cx.freeze(ms), cx.freeze(mult)
    empty = []

    def model(I, f, items, init):
        # reduce(_combine_measurements, group, {}): the fold of the group (definition of reduce; the step is
        # _combine_measurements, whose contract is obligation combine_any_two)
        if f is not it._combine_measurements or not isinstance(init, PyDict) or init.segs:
            raise ProofFailed("groups are folded with _combine_measurements from an empty dictionary", "refuted")
        r = MFold(())
        r.items = tuple(I.iter_segs(items))
        return r

    import functools

    cx.I.shims[functools.reduce] = model
    out = cx.call(it.combine_measurement_counts, ms, mult)
    segs = V.norm_segs(out.segs)
    if not segs:
        cx.prove(N == 0, "empty only without groups")
        return
    cx.prove(len(segs) == 1, "one family")
    f = segs[0]
    cx.prove(SBool(f.n == N.t), "one result per multiplicity")

    def body(j):
        got = V.inst(f, j)
        start = V.sum_term(j, z3.Int("ix_q"), multf()(z3.Int("ix_q")))
        v = V.index_var("v")
        cnt = multf()(j)
        if not isinstance(got, MFold):
            return False
        return V.seq_eqv(got.items, (Fam(cnt, v, Item("m", start + v)),))

    cx.prove(V.holds_generic(N.t, body), "group j")


@obligation("C13", cost=4)
def combine_bitstrings_groups(cx):
    """combine_bitstrings: result j is the concatenation of the lists p_j .. p_j + mult_j - 1; arguments not written"""
    N = cx.int("N", 0)
    L = prefix_total(cx, N)
    ln = z3.Function("ln", z3.IntSort(), z3.IntSort())
    i, v = V.index_var("i"), V.index_var("v")
    cx.forall(L, lambda j: SBool(ln(j.t) >= 0))
    bits = PyList((Fam(toint(L), i, PyList((Fam(ln(i), v, Item("b", i, v)),))),))
    mult = cx.ints("mu", N)
    cx.freeze(bits), cx.freeze(mult)
    out = cx.call(it.combine_bitstrings, bits, mult)
    segs = V.norm_segs(out.segs)
    if not segs:
        cx.prove(N == 0, "empty only without groups")
        return
    cx.prove(len(segs) == 1, "one family")
    f = segs[0]
    cx.prove(SBool(f.n == N.t), "one result per multiplicity")

    def body(j):
        got = V.inst(f, j)
        start = V.sum_term(j, z3.Int("ix_q"), multf()(z3.Int("ix_q")))
        a, b = V.index_var("a"), V.index_var("b")
        return V.seq_eqv(got.segs, (Flat(multf()(j), a, (Fam(ln(start + a), b, Item("b", start + a, b)),)),))

    cx.prove(V.holds_generic(N.t, body), "group j")


@obligation("C13")
def combine_reject(cx):
    """a number of results that differs from the sum of the multiplicities is refused with ValueError"""
    N, M = cx.int("N", 0), cx.int("M", 0)
    L = prefix_total(cx, N)
    cx.assume(toint(L) != M.t)
    f = it.combine_measurement_counts if cx.pick(2) else it.combine_bitstrings
    cx.raises(ValueError, f, cx.objs(Item, M, "m"), cx.ints("mu", N))


@obligation("C13")
def combine_any_two(cx):
    """_combine_measurements, mappings with any number of entries, observed at an arbitrary key: the counts are added, a key is
    present iff it is in one of the mappings; arguments are not written"""
    import collections

    from vc.pyvc import pylib

    k0 = SStr([("key", SInt(z3.Int("k0")))])

    def mapping(s):
        n = cx.int(f"n{s}", 0)
        kf = z3.Function(f"key{s}", z3.IntSort(), z3.IntSort())
        cf = z3.Function(f"count{s}", z3.IntSort(), z3.IntSort())
        cx.forall(n, lambda j: SBool(cf(j.t) >= 1))
        v = V.index_var("v")
        at = z3.Int(f"position{s}")  # of the observed key, if it is there
        here = SBool(z3.And(0 <= at, at < n.t))
        cx.e.reg_index(at)
        cx.forall(n, lambda j: SBool((kf(j.t) == z3.Int("k0")) == z3.And(here.t, j.t == at)))
        entries = PyList((Fam(n.t, v, PyTuple.of([SStr([("key", SInt(kf(v)))]), SInt(cf(v))])),))
        # the count at the observed key, as the sum over the entries that have this key (the one at `position`)
        count = SInt(V.sum_term(n.t, v, z3.If(kf(v) == z3.Int("k0"), cf(v), z3.IntVal(0))))
        cx.assume(SBool(z3.If(here.t, count.t == cf(at), count.t == 0)))
        cx.assume(SBool(z3.Implies(here.t, cf(at) >= 1)))
        m = cx.call(pylib.CountsAt, k0, count, here, entries, True)
        return m, count, here

    def copy(strict):
        def model(I, m=None):
            if m is None:
                return I.call(pylib.CountsAt, [k0, 0, False, PyList(()), strict])
            if not (isinstance(m, pylib.CountsAt)):
                raise Unsupported("another mapping")
            r = I.call(I.getattr(m, "copy"))
            I.setattr(r, "strict", strict)
            return r
        return model

    cx.I.shims[collections.Counter] = copy(False)
    cx.I.shims[dict] = copy(True)
    cx.I.shims[pylib.count_elsewhere] = lambda I, m, k: SInt(z3.FreshInt("elsewhere"))
    a, ca, ha = mapping("A")
    b, cb, hb = mapping("B")
    cx.freeze(a), cx.freeze(b)
    r = cx.call(it._combine_measurements, a, b)
    cx.prove(cx.get(r, "count") == ca + cb, "counts are added at every key")
    cx.prove(cx.eq(cx.get(r, "present"), SBool(z3.Or(ha.t, hb.t))), "the keys are those of both")

"""scipy.sparse matrices of Pauli operators, by the matrix they denote.

SpM    a Kronecker product of factors: a scalar, identities on k qubits, 2x2 Pauli matrices (kron, identity: library contract)
Part   data / rows / cols of such a matrix as tocoo() and nonzero() give them
SpSum  a sum of such matrices (coo_matrix adds up entries with equal position: library contract)

Library contract for triplets: a scalar times a Pauli string has one entry per row and per column and a symmetric pattern; data
lists the entries column by column, nonzero() lists (row, column) row by row; hence data with row indices nonzero()[1] and
column indices nonzero()[0] is the matrix itself, and with the two exchanged its transpose."""
import numpy as np
import scipy.sparse

from . import core, values as V
from .core import *  # noqa: F401,F403
from .core import z3
from .values import *  # noqa: F401,F403
from .count import _Call
from .lin import At

PAULIS = {1: [[0, 1], [1, 0]], 2: [[0, -1j], [1j, 0]], 3: [[1, 0], [0, -1]], 4: [[1, 0], [0, 1]]}


def ident(k):
    k = z3.simplify(toint(k))
    return () if z3.is_int_value(k) and k.as_long() == 0 else (Guard(k > 0, (One(At("id", (k,))),)),)


def scalar(c):
    from .pauli import sc

    c = sc(c)
    return (One(At("c", (c.re, c.im))),)


def exponent(t):
    """k with t == 2**k, from the syntax"""
    t = z3.simplify(toint(t))
    if z3.is_int_value(t):
        n = t.as_long()
        if n > 0 and n & (n - 1) == 0:
            return z3.IntVal(n.bit_length() - 1)
    if z3.is_app(t) and t.decl().name() == "pow2":
        return t.arg(0)
    if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
        return z3.simplify(exponent(t.arg(0)) + exponent(t.arg(1)))
    raise Unsupported("dimension that is not a power of two")


class SpM:
    __pyvc_value__ = True

    def __init__(self, segs, bare=False):
        self.segs, self.bare = tuple(segs), zbool(bare)  # bare: a number that no matrix was multiplied to

    @classmethod
    def of(cls, x):
        x = force(x)
        if isinstance(x, cls):
            return x
        if core._num_kind(x):
            return cls(scalar(x), True)
        if isinstance(x, scipy.sparse.spmatrix) and x.shape == (2, 2):
            for k, m in PAULIS.items():
                if np.array_equal(x.toarray(), m):
                    return cls((One(At("s", (z3.IntVal(k),))),)) if k != 4 else cls(ident(1))
        raise Unsupported(f"Kronecker factor {type(x).__name__}")

    def kron(self, o):
        return SpM(self.segs + SpM.of(o).segs)

    def __pyvc_getattr__(self, I, name):
        if name == "tocoo":
            return _Call(lambda I, copy=True: self.coo(I))
        if name == "tocsc":
            return _Call(lambda I, copy=True: self)
        if name == "nonzero":
            return _Call(lambda I: (Part("rows", self.matrix(I)), Part("cols", self.matrix(I))))
        if name == "data":
            return Part("data", self.matrix(I))
        raise Unsupported(f"sparse matrix: {name}")

    def matrix(self, I):
        if not I.e.valid(z3.Not(self.bare)):
            raise Unsupported("Kronecker product that may be a bare number")
        return self

    def coo(self, I):
        return self.matrix(I)

    def __pyvc_isinstance__(self, I, cls):
        return isinstance(cls, type) and issubclass(scipy.sparse.csc_matrix, cls)

    def __pyvc_eqv__(self, o):
        return isinstance(o, SpM) and V.seq_eqv(self.segs, o.segs)

    def __pyvc_subst__(self, f):
        return SpM(f(self.segs), f(SBool(self.bare)).t if not z3.is_false(self.bare) and not z3.is_true(self.bare) else self.bare)

    def __pyvc_syntax__(self):
        return (self.segs,)

    def __pyvc_havoc__(self, I):
        hid = I.e.fresh_name("kron")
        r = SpM((Hole(hid),))
        r.hid = hid
        return r, []

    def __pyvc_summ__(self, I, n, i, old, vals, conds_ok):
        if not isinstance(old, SpM) or len(vals) > 1 and not conds_ok:
            return None
        parts = []
        for c, k, v in vals:
            if k == "same":
                parts.append(())
                continue
            if not isinstance(v, SpM) or not v.segs or not isinstance(v.segs[0], Hole) or v.segs[0].id != self.hid:
                return None
            parts.append(v.segs[1:])

        def at(m):
            m = z3.simplify(toint(m))
            body = parts[0] if len(parts) == 1 else tuple(Guard(c, p) for (c, _, _), p in zip(vals, parts) if p)
            every = all(parts) or all(k == "new" for _, k, _ in vals)
            return SpM(old.segs + ((Flat(m, i, body),) if body else ()), z3.simplify(z3.And(old.bare, m <= 0)) if every else old.bare)

        return at

    __hash__ = object.__hash__

    def __repr__(self):
        return f"SpM{self.segs!r}"


class Part:
    __pyvc_value__ = True

    def __init__(self, kind, m):
        self.kind, self.m = kind, m

    def __pyvc_eqv__(self, o):
        return isinstance(o, Part) and self.kind == o.kind and V.eqv(self.m, o.m)

    def __pyvc_subst__(self, f):
        return Part(self.kind, f(self.m))

    def __pyvc_syntax__(self):
        return (self.kind, self.m)

    def __repr__(self):
        return f"{self.kind}({self.m!r})"


class Cat:
    """concatenation of parts"""

    __pyvc_value__ = True

    def __init__(self, segs):
        self.segs = tuple(segs)


def matrices(segs, kinds):
    """the matrices that the parts belong to"""
    out = []
    for s in segs:
        if isinstance(s, One):
            out.append(One(_mat(s.v, kinds)))
        elif isinstance(s, Fam):
            out.append(Fam(s.n, s.var, _mat(s.val, kinds)))
        elif isinstance(s, Flat):
            out.append(Flat(s.n, s.var, matrices(s.segs, kinds)))
        elif isinstance(s, Guard):
            out.append(Guard(s.c, matrices(s.segs, kinds)))
        else:
            raise Unsupported("triplets")
    return tuple(out)


def _mat(v, kinds):
    if not isinstance(v, Cases):
        v = force(v)
    if isinstance(v, Cases):
        return Cases([(c, _mat(x, kinds)) for c, x in v.alts])
    if not isinstance(v, Part):
        raise Unsupported("triplets of something else")
    kinds.add(v.kind)
    return v.m


class SpSum:
    __pyvc_value__ = True

    def __init__(self, segs, transposed=False, dim=None):
        self.segs, self.transposed, self.dim = tuple(segs), transposed, dim

    def __pyvc_getattr__(self, I, name):
        if name in ("tocsc", "tocsr", "tocoo"):
            return _Call(lambda I, copy=True: self)
        if name == "eliminate_zeros":
            return _Call(lambda I: None)
        raise Unsupported(f"sparse matrix: {name}")

    def __pyvc_isinstance__(self, I, cls):
        return isinstance(cls, type) and issubclass(scipy.sparse.csc_matrix, cls)


def install(I):
    S = I.shims
    e = I.e
    e.trusted.add("scipy.sparse: kron, identity, csc_matrix(shape) and coo_matrix denote the mathematical operation; order of data and nonzero()")
    S[scipy.sparse.kron] = lambda I, a, b, format=None: SpM.of(a).kron(b)
    S[scipy.sparse.identity] = lambda I, n, dtype="d", format=None: SpM(ident(exponent(n)))
    S[scipy.sparse.eye] = S[scipy.sparse.identity]
    prev = S.get(np.concatenate)

    def concatenate(I, xs, axis=0):
        segs = V.norm_segs(I.iter_segs(xs))
        if not segs:
            if not I.e.valid(z3.BoolVal(False)):
                raise ValueError("need at least one array to concatenate")
        try:
            matrices(segs, set())
        except Unsupported:
            if prev:
                return prev(I, xs)
            raise
        return Cat(segs)

    S[np.concatenate] = concatenate

    def coo(I, arg, shape=None, dtype=None, copy=False):
        vals, (rows, cols) = [force(x) for x in V_tuple(I, arg)][0], [force(x) for x in V_tuple(I, V_tuple(I, arg)[1])]
        out = []
        for x, want in ((vals, {"data"}), (rows, None), (cols, None)):
            if not isinstance(x, Cat):
                raise Unsupported("triplets")
            kinds = set()
            out.append((matrices(x.segs, kinds), kinds))
        ms, kd = out[0]
        for o, _ in out[1:]:
            c = V.seq_eqv(ms, o)
            if c is not True and (c is False or not I.e.valid(c)):
                raise Unsupported("triplets of different matrices")
        kr, kc = out[1][1], out[2][1]
        if kd - {"data"} or (kr, kc) not in (({"cols"}, {"rows"}), ({"rows"}, {"cols"}), (set(), set())):
            raise Unsupported("triplets in a different order")
        return SpSum(ms, kr == {"rows"}, _dim(I, shape))

    S[scipy.sparse.coo_matrix] = coo

    def csc(I, arg, shape=None, dtype=None, copy=False):
        a = force(arg)
        if isinstance(a, (tuple, PyTuple)) and len(V.segs_of(a)) == 2 and all(core.is_int(force(s.v)) for s in V.segs_of(a)):
            return SpSum((), False, _dim(I, a))
        raise Unsupported("csc_matrix")

    S[scipy.sparse.csc_matrix] = csc
    I.reduce_lift = SpM.of


def V_tuple(I, x):
    x = force(x)
    return list(x) if isinstance(x, (tuple, list)) else [force(s.v) for s in V.segs_of(x)]


def _dim(I, shape):
    if shape is None:
        raise Unsupported("sparse matrix without a shape")
    a, b = [toint(force(x)) for x in V_tuple(I, shape)]
    if not I.e.valid(a == b):
        raise Unsupported("rectangular sparse matrix")
    return a

"""Containers of pyvc: lists / dicts / sets whose content is a list of segments

  One(v)                a single element
  Fam(n, var, val)      the elements val[var := 0..n-1]
  Flat(n, var, segs)    the concatenation of segs[var := 0..n-1]
  Guard(c, segs)        segs if c else nothing
  Hole(id)              unknown content of a loop-carried container (only during loop analysis)

plus structural (ghost) equality, substitution of terms in values and abstract objects."""
import copy as _copy

from . import core
from .core import *  # noqa: F401,F403
from .core import z3


class One:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"One({self.v!r})"


class Fam:
    __slots__ = ("n", "var", "val")

    def __init__(self, n, var, val):
        self.n, self.var, self.val = n, var, val  # n: z3 Int term (non-negative on the path)

    def __repr__(self):
        return f"Fam({self.n}, {self.var} -> {self.val!r})"


class Flat:
    __slots__ = ("n", "var", "segs")

    def __init__(self, n, var, segs):
        self.n, self.var, self.segs = n, var, segs

    def __repr__(self):
        return f"Flat({self.n}, {self.var} -> {self.segs!r})"


class Guard:
    __slots__ = ("c", "segs")

    def __init__(self, c, segs):
        self.c, self.segs = c, segs

    def __repr__(self):
        return f"Guard({self.c}, {self.segs!r})"


class Hole:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return f"Hole({self.id})"


class ElemHole:
    """the element at a position of a symbolic list whose elements are overwritten by a loop (unknown until the loop rule
    has found the closed form)"""

    __slots__ = ("id", "at")

    def __init__(self, id, at):
        self.id, self.at = id, at

    def __pyvc_subst__(self, f):
        return ElemHole(self.id, f(self.at))

    def __pyvc_syntax__(self):
        return (self.id, self.at)

    def __repr__(self):
        return f"ElemHole({self.id}, {self.at})"


class Cases:
    """a value that depends on conditions: [(z3 cond, value)], exactly one condition holds"""

    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return f"Cases({self.alts!r})"


def force(v):
    while isinstance(v, Cases):
        for c, x in v.alts[:-1]:
            if core.cur.choose(c):
                v = x
                break
        else:
            core.cur.assume(v.alts[-1][0])
            v = v.alts[-1][1]
    return v


class Poison:
    """value the engine has lost track of; any use is unsupported"""

    peel = False

    def __init__(self, why):
        self.why = why

    def error(self, name=None):
        why = self.why if name is None else f"{name}: {self.why}"
        if not self.peel:
            return Unsupported(why)
        p = core.Peel(why)
        p.source = self
        return p


class ContWrite:
    """trail entry: content of an engine container before a write"""

    __slots__ = ("obj", "old", "item")

    def __init__(self, obj, item=False):
        self.obj, self.old, self.item = obj, obj.segs, item

    def undo(self):
        self.obj.segs = self.old

    loc = property(lambda self: ("cont", id(self.obj)))


class AttrWrite:
    __slots__ = ("obj", "name", "had", "old")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name
        d = obj.__dict__
        self.had = name in d
        self.old = d.get(name)

    def undo(self):
        if self.had:
            self.obj.__dict__[self.name] = self.old
        else:
            self.obj.__dict__.pop(self.name, None)

    loc = property(lambda self: ("attr", id(self.obj), self.name))


class VarWrite:
    __slots__ = ("env", "name", "had", "old")

    def __init__(self, env, name):
        self.env, self.name = env, name
        self.had = name in env
        self.old = env.get(name)

    def undo(self):
        if self.had:
            self.env[self.name] = self.old
        else:
            self.env.pop(self.name, None)

    loc = property(lambda self: ("var", id(self.env), self.name))


class Cont:
    """engine container"""

    def __init__(self, segs=()):
        self.segs = tuple(segs)  # immutable tuple, replaced on write
        e = core.cur
        if e is not None:
            e.stamp += 1
            self.stamp = e.stamp
        else:
            self.stamp = 0
        self.frozen = False

    @classmethod
    def of(cls, values):
        return cls([One(v) for v in values])

    def set(self, segs):
        if self.frozen:
            core.cur.frame_violation(self)
        core.cur.log(ContWrite(self))
        self.segs = tuple(segs)

    @property
    def concrete(self):
        return all(isinstance(s, One) for s in self.segs)

    def items_(self):
        if not self.concrete:
            raise Unsupported(f"container of symbolic length: {self.segs!r}")
        return [s.v for s in self.segs]

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return f"{type(self).__name__}{list(self.segs)!r}"


class PyList(Cont):
    pass


class PyTuple(Cont):
    """immutable sequence with symbolic segments (concrete tuples are native tuples)"""


class PySet(Cont):
    """values of the segments (possibly repeated)"""


class PyFrozenSet(PySet):
    pass


class PyDict(Cont):
    """segments of (key, value) pairs with pairwise different keys, in insertion order; default: default_factory"""

    default = None
    counter = False


class PyIter(Cont):
    """iterator / generator: remaining content"""


def conc_tuple(segs):
    if all(isinstance(s, One) for s in segs):
        return tuple(s.v for s in segs)
    return PyTuple(segs)


# -------------------------------------------------------------------- abstract objects
class Abs:
    """object known only through the contract of its class; `key` identifies it (z3 integer terms / constants)"""

    _pyclasses = ()
    _keyed = False  # objects with different keys are different

    def __init__(self, *key):
        self.__dict__["key"] = tuple(key)

    def with_key(self, key):
        o = object.__new__(type(self))
        o.__dict__.update(self.__dict__)
        o.__dict__["key"] = key
        return o

    def fint(self, name):
        return mkint(self.fterm(name, z3.IntSort()))

    def freal(self, name):
        return SReal(self.fterm(name, z3.RealSort()))

    def fbool(self, name):
        return mkbool(self.fterm(name, z3.BoolSort()))

    def fterm(self, name, sort):
        """uninterpreted function of the key"""
        ts = [k for k in self.key if isinstance(k, (z3.ExprRef, int)) and not isinstance(k, bool)]
        tag = ".".join(str(k) for k in self.key if not isinstance(k, (z3.ExprRef, int)))
        nm = f"{type(self).__name__}.{tag}.{name}"
        if not ts:
            return z3.Const(nm, sort)
        ts = [z3.IntVal(k) if isinstance(k, int) else k for k in ts]
        return z3.Function(nm, *[t.sort() for t in ts], sort)(*ts)

    def __repr__(self):
        return f"{type(self).__name__}{self.key!r}"

    def __hash__(self):
        raise Unsupported(f"hash of abstract {type(self).__name__}")

    def __eq__(self, o):
        return mkbool(eqv(self, o))

    def __ne__(self, o):
        return mkbool(z3.Not(zbool(self == o)))


# -------------------------------------------------------------------- substitution
def _is_repo_instance(v):
    return getattr(type(v), "__module__", "").startswith("orquestra") and not isinstance(v, type) and hasattr(v, "__dict__")


def _tsub(t, pairs):
    return pairs(t) if callable(pairs) else z3.substitute(t, *pairs)


def applied(v):
    """names of the uninterpreted functions applied in v (also in the summands of its sums)"""
    out, seen = set(), set()

    def walk(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.decl().name())
            if t.decl().name().startswith("Σ"):
                for s in sum_symbols(t).values():
                    if s[0].eq(t):
                        walk(s[3])
        for c in t.children():
            walk(c)

    def f(t):
        walk(t)
        return t

    subst(v, f)
    return out


def subst(v, pairs):
    """v with z3 terms replaced (pairs: [(old, new)])"""
    if v is None or isinstance(v, (int, float, complex, str, bytes, type)):
        return v
    if isinstance(v, z3.ExprRef):
        return _tsub(v, pairs)
    if isinstance(v, SInt):
        return mkint(_tsub(v.t, pairs))
    if isinstance(v, SBool):
        return mkbool(_tsub(v.t, pairs))
    if isinstance(v, SReal):
        return SReal(_tsub(v.t, pairs))
    if isinstance(v, SComplex):
        return SComplex(_tsub(v.re, pairs), _tsub(v.im, pairs))
    if isinstance(v, SStr):
        return SStr([p if isinstance(p, str) else tuple(subst(x, pairs) for x in p) for p in v.parts])
    if isinstance(v, tuple):
        r = tuple(subst(x, pairs) for x in v)
        return v if all(a is b for a, b in zip(r, v)) else r
    if isinstance(v, Cases):
        return Cases([(_tsub(c, pairs), subst(x, pairs)) for c, x in v.alts])
    if isinstance(v, One):
        r = subst(v.v, pairs)
        return v if r is v.v else One(r)
    if isinstance(v, Fam):
        return Fam(z3.simplify(_tsub(v.n, pairs)), v.var, subst(v.val, pairs))
    if isinstance(v, Flat):
        return Flat(z3.simplify(_tsub(v.n, pairs)), v.var, tuple(subst(s, pairs) for s in v.segs))
    if isinstance(v, Guard):
        return Guard(z3.simplify(_tsub(v.c, pairs)), tuple(subst(s, pairs) for s in v.segs))
    if isinstance(v, Hole):
        return v
    if isinstance(v, Cont):
        segs = tuple(subst(s, pairs) for s in v.segs)
        if all(a is b for a, b in zip(segs, v.segs)):
            return v
        o = _copy.copy(v)
        o.segs = segs
        return o
    if isinstance(v, Abs):
        key = tuple(subst(k, pairs) for k in v.key)
        if all(a is b or (isinstance(a, z3.ExprRef) and a.eq(b)) for a, b in zip(key, v.key)):
            return v
        return v.with_key(key)
    if hasattr(v, "__pyvc_subst__"):
        return v.__pyvc_subst__(lambda x: subst(x, pairs))
    if isinstance(v, (list, dict, set)):
        if isinstance(v, dict):
            r = {k: subst(x, pairs) for k, x in v.items()}
            return v if all(r[k] is v[k] for k in v) else r
        r = type(v)(subst(x, pairs) for x in v)
        return v if isinstance(v, set) or all(a is b for a, b in zip(r, v)) else r
    if _is_repo_instance(v):
        d = {k: subst(x, pairs) for k, x in v.__dict__.items()}
        if all(d[k] is v.__dict__[k] for k in d):
            return v
        o = object.__new__(type(v))
        o.__dict__.update(d)
        return o
    import numpy as np

    if isinstance(v, np.ndarray) and v.dtype == object:
        o = np.empty(v.shape, dtype=object)
        for idx, x in np.ndenumerate(v):
            o[idx] = subst(x, pairs)
        return o
    return v


def occurs(v, consts):
    """does v mention one of the z3 constants"""
    pairs = [(c, z3.FreshConst(c.sort(), "occ")) for c in consts]
    r = subst(v, pairs)
    return not same_syntax(r, v)


def same_syntax(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, Sym):
        return a.t.eq(b.t)
    if isinstance(a, SComplex):
        return a.re.eq(b.re) and a.im.eq(b.im)
    if isinstance(a, SStr):
        return len(a.parts) == len(b.parts) and all(same_syntax(x, y) for x, y in zip(a.parts, b.parts))
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same_syntax(x, y) for x, y in zip(a, b))
    if isinstance(a, Cases):
        return len(a.alts) == len(b.alts) and all(same_syntax(x, y) for x, y in zip(a.alts, b.alts))
    if isinstance(a, One):
        return same_syntax(a.v, b.v)
    if isinstance(a, Fam):
        return a.n.eq(b.n) and a.var.eq(b.var) and same_syntax(a.val, b.val)
    if isinstance(a, Flat):
        return a.n.eq(b.n) and a.var.eq(b.var) and same_syntax(a.segs, b.segs)
    if isinstance(a, Guard):
        return a.c.eq(b.c) and same_syntax(a.segs, b.segs)
    if isinstance(a, Hole):
        return a.id == b.id
    if isinstance(a, Cont):
        return same_syntax(a.segs, b.segs)
    if isinstance(a, Abs):
        return same_syntax(a.key, b.key)
    if hasattr(a, "__pyvc_syntax__"):
        return same_syntax(a.__pyvc_syntax__(), b.__pyvc_syntax__())
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same_syntax(a[k], b[k]) for k in a)
    if _is_repo_instance(a):
        return same_syntax(a.__dict__, b.__dict__)
    import numpy as np

    if type(a).__module__.startswith("scipy."):
        return a is b
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and all(same_syntax(x, y) for x, y in zip(a.reshape(-1), b.reshape(-1)))
    try:
        return bool(a == b)
    except Exception:
        return False


# -------------------------------------------------------------------- structural equality
def conj(cs):
    out = []
    for c in cs:
        if c is True or (isinstance(c, z3.BoolRef) and z3.is_true(c)):
            continue
        if c is False or (isinstance(c, z3.BoolRef) and z3.is_false(c)):
            return False
        out.append(c)
    if not out:
        return True
    return z3.And(*out) if len(out) > 1 else out[0]


def eqv(a, b):
    """ghost equality of two values as a condition (True / False / z3 Bool)"""
    a, b = force(a), force(b)
    if a is b:
        return True
    if isinstance(a, (Poison,)) or isinstance(b, Poison):
        raise Unsupported("comparison of a lost value: " + (a.why if isinstance(a, Poison) else b.why))
    if isinstance(a, z3.ExprRef):
        a = SBool(a) if z3.is_bool(a) else SInt(a) if z3.is_int(a) else SReal(a)
    if isinstance(b, z3.ExprRef):
        b = SBool(b) if z3.is_bool(b) else SInt(b) if z3.is_int(b) else SReal(b)
    ka, kb = core._num_kind(a), core._num_kind(b)
    if ka and kb:
        r = core._cmp("==", a, b)
        return r if isinstance(r, bool) else r.t
    if ka or kb:
        return False
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        pa, pb = SStr([a]).parts, SStr([b]).parts
        for x, y in ((pa, pb), (pb, pa)):
            # the text of a whole number against a literal: equal exactly when it is the canonical text of that number
            if len(x) == 1 and not isinstance(x[0], str) and x[0][0] == "str" and isinstance(x[0][1], SInt) and all(isinstance(p, str) for p in y):
                lit = "".join(y)
                try:
                    k = int(lit)
                except ValueError:
                    return False
                return x[0][1].t == k if str(k) == lit else False
            if all(isinstance(p, str) for p in y):
                from .text import could_be

                if len(x) == 1 and not isinstance(x[0], str) and x[0][0] == "str" and hasattr(x[0][1], "__pyvc_literal__"):
                    return x[0][1].__pyvc_literal__("".join(y))
                if not could_be(SStr(x), "".join(y)):
                    return False
        if len(pa) != len(pb):
            raise Unsupported("comparison of texts with different symbolic structure")
        cs = []
        for x, y in zip(pa, pb):
            if isinstance(x, str) != isinstance(y, str):
                raise Unsupported("comparison of texts with different symbolic structure")
            if isinstance(x, str):
                cs.append(x == y)
            elif x[0] == y[0] == "join":
                cs += [eqv(x[1], y[1]), seq_eqv(segs_of(x[2]), segs_of(y[2]))]
            else:
                cs.append(eqv(x, y))
        return conj(cs)
    if isinstance(a, (tuple, PyTuple)) and isinstance(b, (tuple, PyTuple)):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return conj([eqv(x, y) for x, y in zip(a, b)])
        return seq_eqv(segs_of(a), segs_of(b))
    if isinstance(a, (list, PyList)) and isinstance(b, (list, PyList)):
        return seq_eqv(segs_of(a), segs_of(b))
    if isinstance(a, (dict, PyDict)) and isinstance(b, (dict, PyDict)):
        return dict_eqv(a, b)
    if isinstance(a, Abs) and isinstance(b, Abs) and not hasattr(a, "__pyvc_eqv__"):
        if type(a) is not type(b) or len(a.key) != len(b.key):
            return False
        cs = []
        for x, y in zip(a.key, b.key):
            if isinstance(x, z3.ExprRef) or isinstance(y, z3.ExprRef):
                cs.append(_zt(x) == _zt(y))
            else:
                cs.append(eqv(x, y))
        return conj(cs)
    if hasattr(a, "__pyvc_eqv__"):
        return a.__pyvc_eqv__(b)
    if hasattr(b, "__pyvc_eqv__"):
        return b.__pyvc_eqv__(a)
    if isinstance(a, (PySet, set, frozenset)) and isinstance(b, (PySet, set, frozenset)):
        return set_eqv(a, b)
    if _is_repo_instance(a) and type(a) is type(b):
        keys = set(a.__dict__) | set(b.__dict__)
        if set(a.__dict__) != set(b.__dict__):
            return False
        return conj([eqv(a.__dict__[k], b.__dict__[k]) for k in sorted(keys)])
    import numpy as np

    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return False
        return conj([eqv(x, y) for x, y in zip(a.reshape(-1), b.reshape(-1))])
    if isinstance(a, (Cont, Abs)) or isinstance(b, (Cont, Abs)):
        return False
    try:
        return bool(a == b)
    except EngineError:
        raise
    except Exception:
        return False


def _zt(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def segs_of(v):
    if isinstance(v, Cont):
        return v.segs
    return tuple(One(x) for x in v)


def fresh_index(n, base="j"):
    """generic index 0 <= j < n; the caller brackets its scope with an exploration or push/pop"""
    e = core.cur
    j = index_var(base)
    e.add(z3.And(j >= 0, j < n))
    e.gidx.append(j)
    e.reg_index(j)
    return j


def fresh_index_unbounded(base="w"):
    e = core.cur
    j = index_var(base)
    e.add(j >= 0)
    e.gidx.append(j)
    e.reg_index(j)
    return j


def inst(seg, j):
    """element of a family at index j"""
    j = toint(j)
    core.cur.reg_index(j)
    return force(subst(seg.val, [(seg.var, j)]))


def holds_generic(n, build):
    """for all 0 <= j < n: build(j) — explored on all local paths; returns True or raises ProofFailed / returns False"""
    e = core.cur

    def run():
        j = fresh_index(n)
        c = build(j)
        if c is True:
            return True
        if c is False:
            return e.check() == z3.unsat
        return e.valid(c) or (isinstance(c, z3.ExprRef) and bool(sum_symbols(c)) and prove_sums(c))

    ok = True
    for conds, facts, kind, v in e.explore(run, local=True):
        if kind == "exc":
            raise v
        ok = ok and v
    return ok


def seg_len(s):
    if isinstance(s, One):
        return z3.IntVal(1)
    if isinstance(s, Fam):
        return s.n
    if isinstance(s, Guard):
        return z3.If(s.c, segs_len(s.segs), z3.IntVal(0))
    if isinstance(s, Flat):
        inner = z3.simplify(segs_len(s.segs))
        return sum_term(s.n, s.var, inner)
    raise Unsupported(f"length of {s!r}")


def segs_len(segs):
    ls = [seg_len(s) for s in segs]
    return z3.simplify(z3.Sum(ls)) if ls else z3.IntVal(0)


def index_var(base="i"):
    """a bound / generic index variable (sums that mention it are parametrised by it)"""
    e = core.cur
    v = z3.Int(e.fresh_name("ix_" + base))
    return v


def _consts(t, out, seen):
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        if t.decl().name().startswith("ix_"):
            out.append(t)
    for c in t.children():
        _consts(c, out, seen)


def index_consts(*ts):
    out, seen = [], set()
    for t in ts:
        _consts(t, out, seen)
    return out


def sum_term(n, var, body):
    """sum of body over 0 <= var < n, as a term: linear parts are split off, the rest becomes a canonical constant"""
    n = z3.simplify(toint(n))
    body = z3.simplify(body, som=True)
    is_int_ = body.sort() == z3.IntSort()
    zero = z3.IntVal(0) if is_int_ else z3.RealVal(0)
    if z3.is_int_value(n):
        k = n.as_long()
        return z3.simplify(z3.Sum([z3.substitute(body, (var, z3.IntVal(j))) for j in range(k)])) if k > 0 else zero
    if not _mentions(body, var):
        return z3.simplify(body * (n if is_int_ else z3.ToReal(n)))
    if z3.is_add(body):
        return z3.simplify(z3.Sum([sum_term(n, var, c) for c in body.children()]))
    if z3.is_mul(body):
        inv = [c for c in body.children() if not _mentions(c, var)]
        dep = [c for c in body.children() if _mentions(c, var)]
        if inv and dep:
            d = z3.Product(dep) if len(dep) > 1 else dep[0]
            return z3.simplify(z3.Product(inv) * sum_term(n, var, z3.simplify(d)))
    if z3.is_div(body) and not _mentions(body.arg(1), var):
        return z3.simplify(sum_term(n, var, body.arg(0)) / body.arg(1))
    if z3.is_app_of(body, z3.Z3_OP_TO_REAL):
        return z3.simplify(z3.ToReal(sum_term(n, var, body.arg(0))))
    for f in list(core.cur.__dict__.get("sum_rewrites", {}).values()):
        r = f(n, var, body)
        if r is not None:
            return r
    return sum_const(n, var, body)


def _generic_same(a, b):
    d = z3.simplify(a - b, som=True)
    return z3.is_int_value(d) and d.as_long() == 0 or z3.is_rational_value(d) and d.as_fraction() == 0 or core.cur.check(a != b) == z3.unsat


def _mentions(t, c):
    if t.eq(c):
        return True
    return any(_mentions(x, c) for x in t.children())


def _match(p, t, m):
    """t as an instance of the pattern p, whose parameters are the constants ·p0:, ·p1:, ..."""
    if z3.is_const(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED and p.decl().name().startswith("·p"):
        k = int(p.decl().name()[2:].split(":")[0])
        if p.sort() != t.sort() or not z3.is_const(t) or t.decl().kind() != z3.Z3_OP_UNINTERPRETED or t.eq(z3.Int("·i")):
            return False
        if k in m:
            return m[k].eq(t)
        m[k] = t
        return True
    if not z3.is_app(p) or not z3.is_app(t) or not p.decl().eq(t.decl()) or p.num_args() != t.num_args():
        return False
    return all(_match(a, b, m) for a, b in zip(p.children(), t.children()))


def sum_const(n, var, body):
    """canonical term for an irreducible sum over 0 <= var < n: f(n, parameters), f(0) = 0, f(k + 1) = f(k) + body(k);
    summands that are equal on the whole range share the function.  The parameters are the index variables and loop
    unknowns that the summand mentions."""
    e = core.cur
    v0 = z3.Int("·i")
    b = z3.simplify(z3.substitute(body, (var, v0)))
    ps = index_consts(b)
    canon = [z3.Const(f"·p{k}:{p.sort()}", p.sort()) for k, p in enumerate(ps)]
    sub = list(zip(ps, canon))
    bc = z3.substitute(b, *sub) if sub else b
    reg = e.__dict__.setdefault("sum_reg", [])
    sorts = tuple(str(p.sort()) for p in ps)

    def back(t):
        return z3.substitute(t, *[(c, p) for p, c in sub]) if sub else t

    f = None
    for (k2, b2, f2) in reg:
        if k2 == sorts and b2.sort() == b.sort() and b2.eq(bc):
            f = f2
            break
    else:
        for (k2, b2, f2) in reg:
            # an instance of a known summand: at an index that is no index variable
            if len(k2) > len(sorts) and b2.sort() == b.sort():
                m = {}
                if _match(b2, b, m) and len(m) == len(k2):
                    qs = [m[k] for k in range(len(k2))]
                    e.__dict__.setdefault("keep_terms", []).extend(qs)  # their ids are used as keys
                    c = f2(n, *qs)
                    _sum_facts(n, v0, b, c, f2, qs)
                    return c
        for (k2, b2, f2) in reg:
            if k2 == sorts and b2.sort() == b.sort() and _generic_valid(n, v0, back(b2) == b):
                f = f2
                b = back(b2)
                break
    if f is None:
        f = z3.Function(f"Σ{len(reg)}", z3.IntSort(), *[p.sort() for p in ps], b.sort())
        reg.append((sorts, bc, f))
    c = f(n, *ps)
    _sum_facts(n, v0, b, c, f, ps)
    return c


def _sum_facts(n, v0, b, c, f, ps):
    e = core.cur
    key = (f.name(), tuple(p.get_id() for p in ps))
    for k2, m in e.sum_ns:
        if k2 == key and m.eq(n):
            return
    e.add(z3.Implies(n <= 0, c == 0))
    e.add(z3.Implies(n == 1, c == z3.simplify(z3.substitute(b, (v0, z3.IntVal(0))))))
    nonneg = _generic_valid(n, v0, b >= 0, ms=1500)
    if nonneg:
        e.add(c >= 0)
        if _generic_valid(n, v0, b == 0, ms=1500):
            e.add(c == 0)
        if _generic_valid(n, v0, b > 0, ms=1500):
            e.add(z3.Implies(n > 0, c > 0))
            if b.sort() == z3.IntSort():
                e.add(c >= n)
    for k2, m in e.sum_ns:
        if k2 == key:
            cm = f(m, *ps)
            bm, bn = z3.substitute(b, (v0, m)), z3.substitute(b, (v0, n))
            e.add(z3.Implies(m == n, cm == c))
            e.add(z3.Implies(z3.And(n == m + 1, m >= 0), c == cm + bm))
            e.add(z3.Implies(z3.And(m == n + 1, n >= 0), cm == c + bn))
            if nonneg:
                e.add(z3.Implies(z3.And(m >= 0, m <= n), cm <= c))
                e.add(z3.Implies(z3.And(m >= 0, m < n), cm + bm <= c))
            if nonneg or _generic_valid(m, v0, b >= 0, ms=1500):
                e.add(z3.Implies(z3.And(n >= 0, n <= m, z3.BoolVal(_generic_valid(m, v0, b >= 0, ms=1500))), c <= cm))
                e.add(z3.Implies(z3.And(n >= 0, n < m, z3.BoolVal(_generic_valid(m, v0, b >= 0, ms=1500))), c + bn <= cm))
    e.sum_ns.append((key, n))


def ensure_sums(t):
    """state the facts of the sums in t (substitution of parameters creates sums whose facts were not stated)"""
    e = core.cur
    if not e.__dict__.get("sum_reg"):
        return
    for s, n, v, body in sum_symbols(t).values():
        ps = [s.arg(j) for j in range(1, s.num_args())]
        if ps:
            _sum_facts(n, v, body, s, s.decl(), ps)


def sum_symbols(t, out=None, seen=None):
    """the sum terms in t: {id: (term, n, var, body)}"""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return out
    seen.add(t.get_id())
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith("Σ"):
        for (k, b, f) in core.cur.__dict__.get("sum_reg", []):
            if f.name() == t.decl().name():
                args = [t.arg(j) for j in range(1, t.num_args())]
                canon = [z3.Const(f"·p{j}:{p.sort()}", p.sort()) for j, p in enumerate(args)]
                v = z3.Int("·i")
                k = 0
                while any(_mentions(a, v) for a in args):
                    k += 1
                    v = z3.Int(f"·i{k}")
                if k:
                    b = z3.substitute(b, (z3.Int("·i"), v))
                sub = list(zip(canon, args))
                out[t.get_id()] = (t, t.arg(0), v, z3.substitute(b, *sub) if sub else b)
    for c in t.children():
        sum_symbols(c, out, seen)
    return out


def _fraction(t):
    """real term as (numerator, [denominators])"""
    if z3.is_div(t):
        n, d = _fraction(t.arg(0))
        return n, d + [t.arg(1)]
    if z3.is_mul(t):
        n, d = [], []
        for c in t.children():
            x, y = _fraction(c)
            n.append(x)
            d += y
        return z3.Product(n), d
    if z3.is_add(t) or z3.is_sub(t) and t.num_args() == 2:
        parts = [_fraction(c) for c in t.children()]
        dens = []
        for _, d in parts:
            rest = list(dens)
            for x in d:
                m = [k for k, y in enumerate(rest) if y.eq(x)]
                if m:
                    del rest[m[0]]
                else:
                    dens.append(x)
        out = []
        for n, d in parts:
            f = list(dens)
            for x in d:
                del f[[k for k, y in enumerate(f) if y.eq(x)][0]]
            out.append(z3.Product([n] + f) if f else n)
        return (z3.Sum(out) if z3.is_add(t) else out[0] - out[1]), dens
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
        n, d = _fraction(t.arg(0))
        return -n, d
    return t, []


def resolve_ites(t):
    """conditionals whose condition is decided on the current path are replaced by the branch"""
    e = core.cur
    for _ in range(20):
        pairs, seen = [], set()

        def walk(x):
            if x.get_id() in seen:
                return
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                if e.check(z3.Not(x.arg(0))) == z3.unsat:
                    pairs.append((x, x.arg(1)))
                    return
                if e.check(x.arg(0)) == z3.unsat:
                    pairs.append((x, x.arg(2)))
                    return
            for c in x.children():
                walk(c)

        walk(t)
        if not pairs:
            return t
        t = z3.substitute(t, *pairs)
    return t


def _factors(t):
    return [f for c in t.children() for f in _factors(c)] if z3.is_mul(t) else [t]


def prove_sums(goal):
    """equality / inequality between expressions that are linear in sums over the same range: compare the summands"""
    e = core.cur
    if not (z3.is_eq(goal) or z3.is_le(goal) or z3.is_ge(goal) or z3.is_lt(goal) or z3.is_gt(goal)):
        if z3.is_and(goal):
            return all(e.valid(c) or prove_sums(c) for c in goal.children())
        if z3.is_not(goal):
            g = goal.arg(0)
            if z3.is_le(g):
                return prove_sums(g.arg(0) > g.arg(1))
            if z3.is_ge(g):
                return prove_sums(g.arg(0) < g.arg(1))
            if z3.is_lt(g):
                return prove_sums(g.arg(0) >= g.arg(1))
            if z3.is_gt(g):
                return prove_sums(g.arg(0) <= g.arg(1))
        return False
    goal2 = resolve_ites(goal)
    if not goal2.eq(goal):
        if e.valid(goal2):
            return True
        goal = goal2
        if not (z3.is_app(goal) and goal.num_args() == 2):
            return False
    a, b = goal.arg(0), goal.arg(1)
    if a.sort() not in (z3.IntSort(), z3.RealSort()):
        return False
    if z3.is_le(goal) or z3.is_lt(goal):
        a, b = b, a
    if z3.is_eq(goal) and a.sort() == z3.RealSort():
        (na, da), (nb, db) = _fraction(a), _fraction(b)
        dens = {d.get_id(): d for d in da + db}
        if dens and all(e.valid(d != 0) for d in dens.values()):
            for d in list(da):
                m = [k for k, x in enumerate(db) if x.eq(d)]
                if m:
                    da.remove(d)
                    del db[m[0]]
            a, b = z3.Product([na] + db) if db else na, z3.Product([nb] + da) if da else nb
    diff = z3.simplify(a - b, som=True)
    syms = sum_symbols(diff)
    for t, n, v, body in list(syms.values()):
        if t.sort() != z3.IntSort():
            continue
        r = z3.ToReal(t)
        syms[r.get_id()] = (r, n, v, z3.ToReal(body))
    if not syms:
        return False
    terms = list(diff.children()) if z3.is_add(diff) else [diff]
    groups, rest = [], []
    pv = z3.Int(e.fresh_name("·v"))
    for t in terms:
        coef, s = None, None
        if t.get_id() in syms:
            coef, s = z3.IntVal(1) if t.sort() == z3.IntSort() else z3.RealVal(1), t
        elif z3.is_mul(t):
            ss = [c for c in _factors(t) if c.get_id() in syms]
            if len(ss) == 1 and ss[0].get_id() in syms:
                s = ss[0]
                others = [c for c in _factors(t) if not c.eq(s)]
                coef = z3.Product(others) if len(others) > 1 else others[0]
        if s is None:
            rest.append(t)
            continue
        _, n, v, body = syms[s.get_id()]
        body = z3.substitute(body, (v, pv))
        for g in groups:
            if g[0].eq(n) or e.valid(g[0] == n):
                g[2].append((coef, body))
                break
        else:
            groups.append((n, pv, [(coef, body)]))
    # multiples of the number of terms are sums of constants
    for t in list(rest):
        for g in groups:
            fs = _factors(t)
            k = [j for j, x in enumerate(fs) if x.eq(g[0]) or x.eq(z3.ToReal(g[0]))]
            if k:
                del fs[k[0]]
                one = z3.RealVal(1) if t.sort() == z3.RealSort() else z3.IntVal(1)
                g[2].append((z3.Product(fs) if fs else one, one))
                rest = [x for x in rest if x is not t]
                break
    eq = z3.is_eq(goal)
    strict = z3.is_lt(goal) or z3.is_gt(goal)
    bound = []
    for n, v, parts in groups:
        if eq and len(parts) > 1:
            # the summands of every symbolic coefficient cancel on their own
            by = {}
            for c, b in parts:
                fs = _factors(c)
                num = [f for f in fs if z3.is_int_value(f) or z3.is_rational_value(f)]
                sym = sorted((f for f in fs if not (z3.is_int_value(f) or z3.is_rational_value(f))), key=lambda f: f.get_id())
                by.setdefault(tuple(f.get_id() for f in sym), []).append(z3.Product(num + [b]) if num else b)
            if len(by) > 1 and all(_generic_valid(n, v, z3.Sum(x) == 0) for x in by.values()):
                continue
            if len(by) == 1 and _generic_valid(n, v, z3.Sum(next(iter(by.values()))) == 0):
                continue
        body = z3.Sum([c * b for c, b in parts])
        if eq:
            if not _generic_valid(n, v, body == 0):
                return False
        elif strict and not rest and len(groups) == 1 and e.valid(n > 0):
            return _generic_valid(n, v, body > 0)
        elif not _generic_valid(n, v, body >= 0):
            return False
    r = z3.Sum(rest) if rest else (z3.IntVal(0) if diff.sort() == z3.IntSort() else z3.RealVal(0))
    return e.valid(r == 0 if eq else r > 0 if strict else r >= 0)


def collapse(t):
    """a sum of sums over the same range whose summands add up to a constant is that constant times the range"""
    e = core.cur
    t = z3.simplify(t)
    syms = sum_symbols(t)
    if not syms:
        return t
    n = next(iter(syms.values()))[1]
    for k in (0, 1, 2):
        if e.valid(n >= 0) and (e.valid(t == k * n) or prove_sums(t == k * n)):
            return z3.simplify(k * n)
    return t


def congruent_sums(t):
    """assume that sums in t over the same range with (provably) equal summands are equal; True when something was learnt"""
    e = core.cur
    xs = [x for x in sum_symbols(t).values()]
    learnt = False
    for a in range(len(xs)):
        for b in range(a):
            (ta, na, va, ba), (tb, nb, vb, bb) = xs[a], xs[b]
            if ta.sort() != tb.sort() or not (na.eq(nb) or e.valid(na == nb)) or e.valid(ta == tb):
                continue
            if _generic_valid(na, va, ba == z3.substitute(bb, (vb, va))):
                e.add(ta == tb)
                learnt = True
    return learnt


def _generic_valid(n, v0, cond, ms=None):
    e = core.cur
    e.solver.push()
    e.solver.add(v0 >= 0, v0 < n)
    for (qn, qv, qf) in e.qfacts:
        e._inst(qn, qv, qf, v0)
    ensure_sums(cond)
    r = e.check(z3.Not(cond), ms=ms)
    e.solver.pop()
    return r == z3.unsat


def norm_segs(segs):
    """drop empty families / resolved guards on the current path"""
    e = core.cur
    out = []
    for s in segs:
        if isinstance(s, Fam):
            if z3.is_int_value(s.n):
                for j in range(s.n.as_long()):
                    out.append(One(inst(s, z3.IntVal(j))))
                continue
            if e.valid(s.n <= 0):
                continue
        elif isinstance(s, Guard):
            if e.valid(s.c):
                out.extend(norm_segs(s.segs))
                continue
            if e.valid(z3.Not(s.c)):
                continue
        elif isinstance(s, Flat):
            if z3.is_int_value(s.n):
                for j in range(s.n.as_long()):
                    e.reg_index(z3.IntVal(j))
                    out.extend(norm_segs([subst(x, [(s.var, z3.IntVal(j))]) for x in s.segs]))
                continue
            if e.valid(s.n <= 0):
                continue
            if len(s.segs) == 1 and isinstance(s.segs[0], One):
                out.append(Fam(s.n, s.var, s.segs[0].v))
                continue
            if not s.segs:
                continue
        out.append(s)
    return out


def seq_eqv(A, B):
    """equality of two segment lists (extensional per segment)"""
    e = core.cur
    A, B = norm_segs(A), norm_segs(B)
    if all(isinstance(s, One) for s in A) and all(isinstance(s, One) for s in B):
        if len(A) != len(B):
            return False
        return conj([eqv(x.v, y.v) for x, y in zip(A, B)])
    cs = []
    while A and B:
        x, y = A[0], B[0]
        if isinstance(x, One) and isinstance(y, One):
            cs.append(eqv(x.v, y.v))
            A, B = A[1:], B[1:]
            continue
        if isinstance(x, Fam) and isinstance(y, Fam) and e.valid(x.n == y.n):
            if not holds_generic(x.n, lambda j: eqv(inst(x, j), inst(y, j))):
                return False
            A, B = A[1:], B[1:]
            continue
        if isinstance(x, Flat) and isinstance(y, Flat) and e.valid(x.n == y.n):
            def body(j):
                e.reg_index(j)
                c = seq_eqv([subst(s, [(x.var, j)]) for s in x.segs], [subst(s, [(y.var, j)]) for s in y.segs])
                return c
            if not holds_generic(x.n, body):
                return False
            A, B = A[1:], B[1:]
            continue
        if isinstance(x, Guard) and isinstance(y, Guard) and e.valid(x.c == y.c):
            def gbody():
                if not e.choose(x.c):
                    raise PathAbort()
                c = seq_eqv(x.segs, y.segs)
                return c is True or (c is not False and e.valid(c))
            if all(v for _, _, k, v in e.explore(gbody, local=True)):
                A, B = A[1:], B[1:]
                continue
        # split the longer of two families
        if isinstance(x, Fam) and isinstance(y, Fam):
            if e.valid(x.n <= y.n):
                x, y, A, B = y, x, B, A
            if e.valid(z3.And(y.n <= x.n, y.n >= 0)):
                d = z3.simplify(x.n - y.n)
                A = [Fam(y.n, x.var, x.val)] + norm_segs([Fam(d, x.var, subst(x.val, [(x.var, x.var + y.n)]))]) + A[1:]
                continue
        # peel one element off a family when the other side starts with a single element
        if isinstance(x, Fam) and isinstance(y, One) and e.valid(x.n >= 1):
            cs.append(eqv(inst(x, z3.IntVal(0)), y.v))
            v = x.var
            A = norm_segs([Fam(z3.simplify(x.n - 1), v, subst(x.val, [(v, v + 1)]))]) + A[1:]
            B = B[1:]
            continue
        if isinstance(y, Fam) and isinstance(x, One) and e.valid(y.n >= 1):
            A, B = B, A
            continue
        if isinstance(x, Guard) or isinstance(y, Guard):
            g = x if isinstance(x, Guard) else y
            b = e.choose(g.c)
            A = norm_segs(A)
            B = norm_segs(B)
            continue
        lx, ly = segs_len(A), segs_len(B)
        if e.valid(lx != ly):
            return False
        raise Unsupported(f"cannot compare segments {x!r} and {y!r}")
    rest = A or B
    if rest:
        return conj(cs + [segs_len(rest) == 0])
    return conj(cs)


def set_eqv(a, b):
    ea = list(a) if not isinstance(a, PySet) else a.items_()
    eb = list(b) if not isinstance(b, PySet) else b.items_()

    def sub(x, y):
        out = []
        for p in x:
            alts = [eqv(p, q) for q in y]
            if any(r is True for r in alts):
                continue
            alts = [r for r in alts if r is not False]
            out.append(z3.Or(*alts) if alts else False)
        return conj(out)

    return conj([sub(ea, eb), sub(eb, ea)])


def dict_eqv(a, b):
    ia = list(a.items()) if isinstance(a, dict) else None
    ib = list(b.items()) if isinstance(b, dict) else None
    if ia is None and not a.concrete or ib is None and not b.concrete:
        # same key order, segment by segment
        return seq_eqv(segs_of(a) if ia is None else [One(p) for p in ia], segs_of(b) if ib is None else [One(p) for p in ib])
    ia = ia if ia is not None else a.items_()
    ib = ib if ib is not None else b.items_()
    if len(ia) != len(ib):
        return False
    cs = []
    rest = list(ib)
    for k, v in ia:
        for j, (k2, v2) in enumerate(rest):
            r = eqv(k, k2)
            if r is not True and r is not False:
                r = core.cur.choose(r)
            if r:
                cs.append(eqv(v, v2))
                del rest[j]
                break
        else:
            return False
    return conj(cs)


def point_sums(n, var, body):
    """sum rewrite: a summand that is different at one place, var == t"""
    seen, todo = set(), [body]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_eq(x) and x.arg(0).sort() == z3.IntSort() and _mentions(x, var):
            d = z3.simplify(x.arg(0) - x.arg(1))
            for t in (z3.simplify(var - d), z3.simplify(var + d)):
                if not _mentions(t, var):
                    yes, no = (z3.simplify(z3.substitute(body, (x, z3.BoolVal(b)))) for b in (True, False))
                    zero = z3.IntVal(0) if body.sort() == z3.IntSort() else z3.RealVal(0)
                    at = z3.simplify(z3.If(z3.And(t >= 0, t < n), z3.substitute(yes, (var, t)) - z3.substitute(no, (var, t)), zero))
                    return z3.simplify(sum_term(n, var, no) + at)
        todo += x.children()
    return None

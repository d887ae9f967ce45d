"""Loops over symbolic sequences.

A loop over a family (elements val(0) .. val(n-1)) is analysed once, at a generic index 0 <= i < n, with the state that
the body writes replaced by unknowns.  Each written location must then follow one of a few patterns (unchanged, sum,
overwritten, appended to, maximum / minimum, or / and, ordered product of an abstract matrix); the pattern gives the
state before iteration k for every k, which is inductive by construction: the base case is the state before the loop
and the step is the generic iteration.  A location without a pattern becomes unusable (Poison).  Early exits split into
"no iteration exits" and "iteration k is the first one that exits"."""
import numpy as np

from . import core
from . import values as V
from .core import *  # noqa: F401,F403
from .core import z3
from .values import *  # noqa: F401,F403
from .values import _is_repo_instance


class Loc:
    """a written location: how to read / write it"""

    def __init__(self, entry):
        self.key = entry.loc
        self.entry = entry
        self.kind = self.key[0]
        self.wide = None  # start value as a number of the kind it becomes

    def get(self):
        e = self.entry
        if self.kind == "cont":
            return e.obj.segs
        if self.kind == "attr":
            return e.obj.__dict__.get(e.name, _UNSET)
        if self.kind == "var":
            return e.env.vars.get(e.name, _UNSET)
        if self.kind == "array":
            return e.a.copy()
        raise Unsupported("location")

    def put(self, I, v):
        e = self.entry
        if self.kind == "cont":
            e.obj.set_checked(I, v)
        elif self.kind == "attr":
            I.setattr_raw(e.obj, e.name, v)
        elif self.kind == "var":
            if v is _UNSET:
                if e.env.vars.get(e.name, _UNSET) is _UNSET:
                    return
                raise Unsupported("unset variable")
            I.setvar_env(e.env, e.name, v)
        else:
            raise Unsupported("in-place array operation inside a loop over a symbolic sequence")

    def __repr__(self):
        e = self.entry
        return f"{self.kind}:{getattr(e, 'name', '')}"


class _Unset:
    def __repr__(self):
        return "UNSET"


_UNSET = _Unset()


class Havoc:
    """unknown with the structure of a value; consts: list of (unknown term, how)"""

    def __init__(self, value, terms, holes, objs=()):
        self.value, self.terms, self.holes, self.objs = value, terms, holes, objs


def _elem_hole(loc, fam, hid, w):
    """unknown element at position w (of a dictionary: the unknown value of the known key)"""
    if isinstance(loc.entry.obj, PyDict):
        k, v = subst(force(fam.val), [(fam.var, w)])
        return (k, _hole_like(v, hid, w))
    return _hole_like(fam.val, hid, w)


def _hole_like(v, hid, w):
    if isinstance(v, SReal):
        return SReal(z3.Function("elem·" + hid, z3.IntSort(), z3.RealSort())(w))
    return ElemHole(hid, w)


def havoc_value(I, loc, old):
    e = I.e
    if loc.kind == "cont":
        if isinstance(loc.entry.obj, PyIter) and len(old) == 1 and isinstance(old[0], Fam):
            f = old[0]
            p = z3.Int(e.fresh_name("ix_·hp"))
            e.add(z3.And(p >= 0, p <= f.n))
            h = Havoc((_suffix(f, p),), [p], [])
            h.suffix = f
            return h
        hid = e.fresh_name("hole")
        if loc.entry.item and len(old) == 1 and isinstance(old[0], Fam):
            w = V.index_var("w")
            return Havoc((Fam(old[0].n, w, _elem_hole(loc, old[0], hid, w)),), [], [hid])
        h = Havoc((Hole(hid),), [], [hid])
        h.is_set = isinstance(loc.entry.obj, (PySet, PyList))
        return h
    if old is _UNSET or old is None:
        p = Poison(f"{loc!r} before it is assigned in the loop")
        p.peel = old is None
        return Havoc(p, [], [])
    old = _one_number(old)  # no choice here: it would bind one path of the body only
    if isinstance(old, (bool, SBool)):
        b = z3.Bool(e.fresh_name("ix_·hb"))
        return Havoc(SBool(b), [b], [])
    if isinstance(old, (int, SInt, np.integer)):
        k = z3.Int(e.fresh_name("ix_·h"))
        return Havoc(SInt(k), [k], [])
    if isinstance(old, (float, SReal, np.floating)):
        k = z3.Real(e.fresh_name("ix_·hr"))
        return Havoc(SReal(k), [k], [])
    if isinstance(old, (complex, SComplex)):
        a, b = z3.Real(e.fresh_name("ix_·hr")), z3.Real(e.fresh_name("ix_·hi"))
        return Havoc(SComplex(a, b), [a, b], [])
    if isinstance(old, PyList):
        hid = e.fresh_name("hole")
        return Havoc(PyList((Hole(hid),)), [], [hid])
    if isinstance(old, (tuple, PyTuple)) and (type(old) is tuple or isinstance(old, PyTuple)):
        hid = e.fresh_name("hole")
        return Havoc(PyTuple((Hole(hid),)), [], [hid])
    if hasattr(old, "__pyvc_havoc__"):
        v, terms = old.__pyvc_havoc__(I)
        return Havoc(v, terms, [v.hid] if hasattr(v, "hid") else [], [v])
    if _is_repo_instance(old) and loc.kind != "cont":
        # an immutable record carried through the loop: attribute by attribute
        obj = object.__new__(type(old))
        parts = {}
        for k, x in old.__dict__.items():
            h = havoc_value(I, VLoc(f"{loc!r}.{k}"), x)
            if isinstance(h.value, Poison):
                h = Havoc(x, [], [])
            obj.__dict__[k] = h.value
            parts[k] = h
        h = Havoc(obj, [t for p in parts.values() for t in p.terms], [t for p in parts.values() for t in p.holes], [obj])
        h.parts = parts
        I.stamps[id(obj)] = (0, obj)
        return h
    return Havoc(Poison(f"{loc!r} is carried through a loop"), [], [])


def _one_number(v):
    """alternatives that are numbers of one kind as a single number"""
    if not isinstance(v, Cases):
        return v
    kinds = {(core._num_kind(x), isinstance(x, (bool, SBool))) for _, x in v.alts}
    if len(kinds) != 1:
        return v
    ((kind, is_bool),) = kinds
    ps = term_parts(v) if kind else None
    if ps is None:
        return v
    return SBool(ps[0]) if is_bool else SComplex(*ps) if kind == 3 else SReal(ps[0]) if kind == 2 else mkint(ps[0])


class VLoc:
    """an attribute of a record that is carried through a loop as a whole"""

    kind = "var"

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


def _expand(locs, olds, havocs, stays):
    """records become one location per attribute"""
    locs, olds, havocs = dict(locs), dict(olds), dict(havocs)
    made = {}
    todo = list(havocs)
    while todo:
        key = todo.pop()
        h = havocs[key]
        parts = getattr(h, "parts", None)
        if not parts:
            continue
        cls = type(h.value)
        if not all(type(force(r.vals[key])) is cls and set(force(r.vals[key]).__dict__) == set(parts) for r in stays):
            continue
        for k, p in parts.items():
            vk = ("part", key, k)
            locs[vk], olds[vk], havocs[vk] = VLoc(f"{locs[key]!r}.{k}"), olds[key].__dict__[k], p
            for r in stays:
                r.vals[vk] = force(r.vals[key]).__dict__[k]
            todo.append(vk)
        made[key] = (cls, list(parts))
        del locs[key], olds[key], havocs[key]
    return locs, olds, havocs, made


def _recombine(I, closed, made, havocs):
    for key in reversed(list(made)):
        cls, names = made[key]
        fs = {k: closed.pop(("part", key, k), None) for k in names}

        def at(m, cls=cls, fs=fs):
            o = object.__new__(cls)
            for k, f in fs.items():
                o.__dict__[k] = f(m) if f is not None else Poison(f"{cls.__name__}.{k}: no loop invariant found")
            return o

        def parts(m, fs=fs, key=key):
            out = []
            for k, f in fs.items():
                if not havocs[("part", key, k)].terms:
                    continue
                p = closed_parts(f, m) if f is not None else None
                if p is None:
                    return None
                out += p
            return out

        at.parts = parts
        closed[key] = at
    return closed


def _suffix(f, p):
    """the family f without its first p elements"""
    p = toint(p)
    return Fam(z3.simplify(f.n - p), f.var, subst(f.val, [(f.var, f.var + p)]))


def _consumed(I, f, segs):
    """p with segs == suffix(f, p), or None"""
    if not segs:
        return f.n
    if len(segs) != 1 or not isinstance(segs[0], Fam):
        return None
    p = z3.simplify(f.n - segs[0].n)
    want = _suffix(f, p)
    a = subst(segs[0].val, [(segs[0].var, f.var)])
    if V.same_syntax(a, want.val):
        return p
    try:
        if V.holds_generic(want.n, lambda j: V.eqv(subst(a, [(f.var, j)]), subst(want.val, [(f.var, j)]))):
            return p
    except Unsupported:
        pass
    return None


def mark_template(I, v, seen=None):
    """elements of a symbolic family must not be written"""
    seen = seen if seen is not None else set()
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, Cont):
        v.template = True
        for s in v.segs:
            mark_seg(I, s, seen)
    elif isinstance(v, tuple):
        for x in v:
            mark_template(I, x, seen)
    elif isinstance(v, Cases):
        for _, x in v.alts:
            mark_template(I, x, seen)
    elif _is_repo_instance(v):
        I.templ[id(v)] = v
        for x in v.__dict__.values():
            mark_template(I, x, seen)


def mark_seg(I, s, seen=None):
    if isinstance(s, (One,)):
        mark_template(I, s.v, seen)
    elif isinstance(s, Fam):
        mark_template(I, s.val, seen)
    elif isinstance(s, (Flat, Guard)):
        for x in s.segs:
            mark_seg(I, x, seen)


def for_loop(I, segs, body, env):
    segs = list(segs)
    k = 0
    while k < len(segs):
        s = segs[k]
        k += 1
        if isinstance(s, One):
            sig = body(force(s.v))
        elif isinstance(s, Guard):
            if I.e.choose(s.c):
                segs[k:k] = list(s.segs)
            continue
        elif isinstance(s, Fam):
            if z3.is_int_value(z3.simplify(s.n)):
                segs[k:k] = V.norm_segs([s])
                continue
            if not I.e.choose(s.n > 0):
                continue
            sig = _peeled(I, s, body)
        elif isinstance(s, Flat):
            if z3.is_int_value(z3.simplify(s.n)):
                segs[k:k] = V.norm_segs([s])
                continue
            if not I.e.choose(s.n > 0):
                continue

            def flat_body(j, s=s):
                return for_loop(I, [subst(x, [(s.var, j)]) for x in s.segs], body, env)

            sig = generic_loop(I, s.n, s.var, flat_body)
        else:
            raise Unsupported(f"iteration over {s!r}")
        if sig is None or sig[0] == "continue":
            continue
        return sig
    return None


def _peeled(I, s, body):
    """the loop over a family that is not empty; its first iteration on its own when something is None before it"""
    try:
        return generic_loop(I, s.n, s.var, lambda j: _elem_body(I, s, j, body))
    except Peel:
        pass
    sig = _elem_body(I, s, z3.IntVal(0), body)
    if sig is not None and sig[0] != "continue":
        return sig
    if not I.e.choose(s.n > 1):
        return None
    r = _suffix(s, z3.IntVal(1))
    return generic_loop(I, r.n, r.var, lambda j: _elem_body(I, r, j, body))


def _elem_body(I, s, j, body):
    v = V.inst(s, j)
    mark_template(I, v)
    return body(v)


class PathRec:
    __slots__ = ("conds", "facts", "sig", "vals")

    def __init__(self, conds, facts, sig, vals):
        self.conds, self.facts, self.sig, self.vals = conds, facts, sig, vals


def zand(cs):
    cs = [c for c in cs if not z3.is_true(c)]
    return z3.And(*cs) if len(cs) > 1 else (cs[0] if cs else z3.BoolVal(True))


def zor(cs):
    return z3.Or(*cs) if len(cs) > 1 else (cs[0] if cs else z3.BoolVal(False))


def generic_loop(I, n, var, run_body):
    e = I.e
    e.stats["loops"] += 1
    n = z3.simplify(n)
    locs = {}  # key -> Loc
    olds = {}
    while True:
        recs, new, havocs, i = _explore_body(I, n, run_body, locs)
        for key, entry in new.items():
            locs[key] = Loc(entry)
            olds[key] = locs[key].get()
            if isinstance(olds[key], Cases):
                olds[key] = _one_number(olds[key])
                if isinstance(olds[key], Cases):
                    olds[key] = force(olds[key])
                locs[key].put(I, olds[key])
            if locs[key].kind == "array":
                raise Unsupported("in-place array operation inside a loop over a symbolic sequence")
        wider = {} if new else _wider([r for r in recs if r.sig is None or r.sig[0] == "continue"], havocs, olds)
        if wider and not e.choose(n > 0):
            return None
        for key, kind in wider.items():
            olds[key] = _as_kind(olds[key], kind)
            locs[key].wide = olds[key]
        if not new and not wider:
            break
    closed = summarise(I, n, i, locs, olds, havocs, recs)
    exits = [r for r in recs if r.sig is not None and r.sig[0] != "continue"]
    stays = [r for r in recs if r.sig is None or r.sig[0] == "continue"]

    def at(key, m):
        """value of the location after m iterations"""
        f = closed.get(key)
        if f is None:
            return Poison(f"{locs[key]!r}: no loop invariant found")
        return f(m)

    def resolve(t, j):
        """term over the generic iteration -> term at iteration j (None when it depends on a lost location)"""
        pairs = []
        for key, h in havocs.items():
            if not h.terms:
                continue
            f = closed.get(key)
            if f is None:
                continue
            vals = closed_parts(f, j)
            if vals is None:
                continue
            pairs += list(zip(h.terms, vals))
        t = z3.substitute(t, *pairs) if pairs else t
        lost = [x for h in havocs.values() for x in h.terms]
        if any(V._mentions(t, x) for x in lost):
            return None
        return z3.substitute(t, (i, toint(j))) if not i.eq(toint(j)) else t

    def finish(m):
        vals = {key: at(key, m) for key in locs}
        for key, loc in locs.items():
            v = vals[key]
            if loc.kind == "cont" and isinstance(v, Poison):
                v = (PoisonSeg(v.why),)
            loc.put(I, v)

    def add_fact(cond_list, upto):
        j = V.index_var("f")
        t = zor([zand(c) for c in cond_list])
        t = resolve(t, j)
        if t is not None:
            e.add_qfact(upto, j, t)

    def facts_of(rs, upto):
        """facts assumed on the paths that stay, as quantified facts"""
        for r in rs:
            for f in r.facts:
                c = zand(r.conds)
                j = V.index_var("f")
                t = resolve(z3.Implies(c, f), j)
                if t is not None:
                    e.add_qfact(upto, j, t)

    if not exits:
        if any(r.conds for r in stays) and not covers(I, n, i, stays, havocs):
            add_fact([r.conds for r in stays], n)
        facts_of(stays, n)
        finish(n)
        return None
    choice = e.pick(2, "loop exit") if stays else 1
    if choice == 0:
        add_fact([r.conds for r in stays], n)
        facts_of(stays, n)
        finish(n)
        return None
    k = e.int()
    e.assume(z3.And(k.t >= 0, k.t < n))
    e.reg_index(k.t)
    if stays:
        add_fact([r.conds for r in stays], k.t)
        facts_of(stays, k.t)
    else:
        e.assume(k.t == 0)
    finish(k.t)
    sig = run_body(k.t)
    if sig is None or sig[0] == "continue":
        raise PathAbort("not the exiting iteration")
    return sig


class PoisonSeg:
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"PoisonSeg({self.why})"


def covers(I, n, i, stays, havocs):
    return False


def _as_kind(v, kind):
    return SComplex.of(v) if kind == 3 else SReal(toreal(v))


def _wider(recs, havocs, olds):
    """accumulators that start as a number of a smaller kind (0 or 0.0) than what is added to them"""
    out = {}
    for key, h in havocs.items():
        have = core._num_kind(h.value)
        if not have or isinstance(h.value, (bool, SBool)) or getattr(h, "suffix", None) is not None or not core._num_kind(olds[key]):
            continue
        kinds = [core._num_kind(r.vals[key]) for r in recs if not isinstance(r.vals[key], (bool, SBool))]
        if kinds and len(kinds) == len(recs) and min(kinds) > have:  # in every iteration
            out[key] = max(kinds)
    return out


def _explore_body(I, n, run_body, locs):
    e = I.e
    havocs = {}
    i = V.index_var("i")
    recs = []
    new = {}

    def run():
        e.add(z3.And(i >= 0, i < n))
        e.gidx.append(i)
        e.reg_index(i)
        mark = len(e.trail)
        for key, loc in locs.items():
            if key not in havocs:
                havocs[key] = havoc_value(I, loc, loc.get() if loc.wide is None else loc.wide)
            loc.put(I, havocs[key].value)
        e.stamp += 1
        I.explore_stamp.append(e.stamp)
        mark2 = len(e.trail)
        try:
            try:
                sig = run_body(i)
            except Exception as ex:
                if isinstance(ex, z3.Z3Exception):
                    raise
                sig = ("raise", ex)
        finally:
            I.explore_stamp.pop()
        for entry in e.trail[mark2:]:
            if entry.loc not in locs and entry.loc not in new:
                new[entry.loc] = entry
        vals = {}
        for key, loc in locs.items():
            v = loc.get()
            f = getattr(havocs[key], "suffix", None)
            if f is not None:
                p = _consumed(I, f, v)
                v = Poison("iterator in an unknown state") if p is None else mkint(p)
            vals[key] = v
        return sig, vals

    depth = e.depth
    saved = list(I.explore_stamp)
    gen = e.explore(run, local=True)
    for conds, facts, kind, v in gen:
        if kind == "exc":
            raise v
        sig, vals = v
        recs.append(PathRec(list(conds), list(facts), sig, vals))
    e.depth = depth
    I.explore_stamp[:] = saved
    return recs, new, havocs, i


# -------------------------------------------------------------------- patterns
def term_parts(v):
    if isinstance(v, Cases):
        ps = [term_parts(x) for _, x in v.alts]
        if any(p is None or len(p) != len(ps[0]) or any(a.sort() != b.sort() for a, b in zip(p, ps[0])) for p in ps):
            return None
        out = ps[-1]
        for (c, _), p in reversed(list(zip(v.alts[:-1], ps[:-1]))):
            out = [z3.If(c, a, b) for a, b in zip(p, out)]
        return [z3.simplify(t) for t in out]
    if isinstance(v, (bool, SBool)):
        return [zbool(v)]
    if isinstance(v, (int, SInt, np.integer)):
        return [toint(v)]
    if isinstance(v, (float, SReal, np.floating)):
        return [toreal(v)]
    if isinstance(v, (complex, SComplex)):
        c = SComplex.of(v)
        return [c.re, c.im]
    if hasattr(v, "__pyvc_terms__"):
        return v.__pyvc_terms__()
    return None


def closed_parts(f, j):
    if hasattr(f, "parts"):
        return f.parts(j)
    return term_parts(f(j))


def _has_hole(v, ids):
    if isinstance(v, (tuple, list)):
        return any(_has_hole(x, ids) for x in v)
    if isinstance(v, (Hole, ElemHole)):
        return v.id in ids
    if isinstance(v, One):
        return _has_hole(v.v, ids)
    if isinstance(v, Fam):
        return _has_hole(v.val, ids)
    if isinstance(v, (Flat, Guard)):
        return any(_has_hole(x, ids) for x in v.segs)
    if isinstance(v, Cont):
        return any(_has_hole(x, ids) for x in v.segs)
    if isinstance(v, Cases):
        return any(_has_hole(x, ids) for _, x in v.alts)
    if _is_repo_instance(v):
        return any(_has_hole(x, ids) for x in v.__dict__.values())
    if hasattr(type(v), "__pyvc_syntax__"):
        return _has_hole(v.__pyvc_syntax__(), ids)
    return False


def _has_poison(v):
    if isinstance(v, (tuple, list)):
        return any(_has_poison(x) for x in v)
    if isinstance(v, Poison):
        return True
    if isinstance(v, One):
        return _has_poison(v.v)
    if isinstance(v, Fam):
        return _has_poison(v.val)
    if isinstance(v, (Flat, Guard, Cont)):
        return any(_has_poison(x) for x in v.segs)
    return False


def summarise(I, n, i, locs, olds, havocs, recs):
    """key -> function giving the value after m iterations"""
    stays = [r for r in recs if r.sig is None or r.sig[0] == "continue"]
    closed = {}
    if not stays:
        for key in locs:
            closed[key] = lambda m, key=key: olds[key]
        return closed
    locs, olds, havocs, made = _expand(locs, olds, havocs, stays)
    return _recombine(I, _summarise(I, n, i, locs, olds, havocs, recs, stays, closed), made, havocs)


def _summarise(I, n, i, locs, olds, havocs, recs, stays, closed):
    _solve(I, n, i, locs, olds, havocs, stays, closed)
    if len(closed) < len(locs) and len(stays) > 1:
        # a closed form found on one path may hold on the others, or the state may exclude the others
        for r in stays:
            guess = dict(closed)
            _solve(I, n, i, locs, olds, havocs, [r], guess)
            new = {k: g for k, g in guess.items() if k not in closed and havocs[k].terms}
            if not new:
                continue
            if all(o is r or _agrees(I, n, i, o, new, {**closed, **new}, havocs) for o in stays):
                closed.update(new)
                _solve(I, n, i, locs, olds, havocs, stays, closed)
                break
    if len(closed) < len(locs) and len(stays) > 1:
        # the state may force one of the paths: assume so, then check that the others cannot be taken
        for r in stays:
            guess = {}
            _solve(I, n, i, locs, olds, havocs, [r], guess)
            if len(guess) < len(locs):
                continue
            ok = True
            for o in recs:
                if o is r:
                    continue
                c = _subst_closed(I, zand(o.conds), i, havocs, guess, None)
                if c is None or not impossible(I, n, i, c):
                    ok = False
                    break
            if ok:
                recs[:] = [r]
                return guess
    return closed


def _agrees(I, n, i, o, new, guess, havocs):
    """on path o, started in the guessed state before iteration i, the guessed locations reach the guessed state before
    iteration i + 1"""
    e = I.e
    c = _subst_closed(I, zand(o.conds), i, havocs, guess, None)
    if c is None:
        return False
    goals = []
    for key in new:
        want = closed_parts(guess[key], z3.simplify(i + 1))
        have = o.vals[key]
        if have is _UNSET or isinstance(have, Poison):
            return impossible(I, n, i, c)
        have = term_parts(have) if not isinstance(have, tuple) else None
        if have is None or want is None or len(have) != len(want):
            return impossible(I, n, i, c)
        for a, b in zip(have, want):
            a = _subst_closed(I, a, i, havocs, guess, None)
            if a is None:
                return False
            goals.append(toint(a) == b if z3.is_int(b) else a == b)
    e.solver.push()
    e.add(z3.And(i >= 0, i < n))
    e.gidx.append(i)
    for (qn, qv, qf) in e.qfacts:
        e._inst(qn, qv, qf, i)
    ok = e.valid(z3.Implies(c, zand(goals)))
    e.gidx.pop()
    e.solver.pop()
    return ok


def impossible(I, n, i, c):
    e = I.e
    e.solver.push()
    e.add(z3.And(i >= 0, i < n))
    for (qn, qv, qf) in e.qfacts:
        e._inst(qn, qv, qf, i)
    r = e.check(c)
    e.solver.pop()
    return r == z3.unsat


def _solve(I, n, i, locs, olds, havocs, stays, closed):
    todo = {k: v for k, v in locs.items() if k not in closed}
    progress = True
    while todo and progress:
        progress = False
        for key in list(todo):
            f = pattern(I, n, i, todo[key], olds[key], havocs, stays, closed, key)
            if f is not None:
                closed[key] = f
                del todo[key]
                progress = True
    return closed


def _subst_closed(I, v, i, havocs, closed, own):
    """replace the unknowns of solved locations by their value before iteration i; None when unsolved ones remain"""
    pairs = []
    for key, h in havocs.items():
        if key == own:
            continue
        if key in closed and h.terms:
            vals = closed_parts(closed[key], i)
            if vals is None:
                if any(V.occurs(v, [t]) for t in h.terms):
                    return None
                continue
            pairs += list(zip(h.terms, vals))
    if pairs:
        v = subst(v, pairs)
    for key, h in havocs.items():
        if key != own and key[0] == "cont" and h.holes and getattr(h, "is_set", False):
            from . import seen

            if seen.mentions(v, h.holes[0]):
                if key not in closed:
                    return None
                v = seen.replace(v, h.holes[0], V.norm_segs(closed[key](i)))
                if v is None:
                    return None
    for key, h in havocs.items():
        if key != own and hasattr(h.value, "__pyvc_reads__"):
            c = closed[key](i) if key in closed else None
            v = h.value.__pyvc_reads__(v, c)
            if v is None:
                return None
    rest = [t for key, h in havocs.items() if key != own for t in h.terms]
    if rest and V.occurs(v, rest):
        return None
    holes = [x for key, h in havocs.items() if key != own for x in h.holes]
    if holes and _has_hole(v, set(holes)):
        return None
    if _has_poison(v):
        return None
    return v


def pattern(I, n, i, loc, old, havocs, stays, closed, key):
    e = I.e
    h = havocs[key]
    own0 = h.terms
    vals = []
    for r in stays:
        v = r.vals[key]
        cond = zand(r.conds)
        cond2 = _subst_closed(I, cond, i, havocs, closed, key)
        if getattr(h, "suffix", None) is not None and isinstance(v, (int, SInt)) and toint(v).eq(own0[0]):
            vals.append((cond2, "same", None))
            continue
        if v is h.value or (loc.kind == "cont" and isinstance(v, tuple) and len(v) == 1 and isinstance(v[0], Hole) and v[0].id in h.holes) or V.same_syntax(v, h.value) and not isinstance(v, Poison):
            vals.append((cond2, "same", None))
            continue
        if v is _UNSET:
            return None
        v2 = _subst_closed(I, v, i, havocs, closed, key)
        if v2 is None:
            return None
        vals.append((cond2, "new", v2))
    if all(k == "same" for _, k, _ in vals):
        return lambda m: old
    own = list(h.terms)

    def indep(t):
        return t is not None and not (own and V.occurs(t, own))

    # paths that agree on the new value are merged
    merged = []
    for c, k, v in vals:
        for j, (c2, k2, v2) in enumerate(merged):
            if k == k2 and (k == "same" or V.same_syntax(v, v2)):
                merged[j] = (None if c is None or c2 is None else z3.simplify(z3.Or(c, c2)), k, v2)
                break
        else:
            merged.append((c, k, v))
    vals = merged
    conds_ok = all(c is not None for c, _, _ in vals)
    if getattr(h, "suffix", None) is not None:
        f = h.suffix
        if any(k == "new" and isinstance(v, Poison) for _, k, v in vals):
            return None
        g = _sum_pattern(I, n, i, 0, SInt(own[0]), vals, own, conds_ok)
        if g is None:
            return None
        r = lambda m: _norm_one(_suffix(f, g(m)))
        r.parts = lambda m: [toint(g(m))]
        return r
    if loc.kind == "cont" and isinstance(h.value[0], Fam):
        return _scatter_pattern(I, n, i, old, h, vals, conds_ok)
    # appended list
    if loc.kind == "cont" or isinstance(h.value, (PyList, PyTuple)):
        return _append_pattern(I, n, i, loc, old, h, vals, conds_ok)
    # overwritten on every path, independent of the previous value
    if hasattr(h.value, "__pyvc_reads__"):
        return h.value.__pyvc_summ__(I, n, i, old, vals, conds_ok)
    if all(k == "new" for _, k, _ in vals) and all(indep(v) for _, _, v in vals) and (len(vals) == 1 or conds_ok and all(indep(c) for c, _, _ in vals)) and not any(_has_hole(v, set(h.holes)) for _, _, v in vals if h.holes):
        def last(m, vals=vals):
            m = toint(m)
            at = z3.simplify(m - 1)
            e.reg_index(at)
            w = [(z3.substitute(c, (i, at)) if c is not None else z3.BoolVal(True), subst(v, [(i, at)])) for c, _, v in vals]
            v = w[0][1] if len(w) == 1 else Cases(w)
            for x in w:
                mark_template(I, x[1])
            if e.valid(m > 0):
                return v
            if e.valid(m <= 0):
                return old
            return Cases([(m > 0, v), (z3.Not(m > 0), old if old is not _UNSET else Poison("unset"))])

        return last
    hv = h.value
    if loc.kind in ("var", "attr") and conds_ok and all(indep(c) for c, _, _ in vals) and all(k == "same" or indep(v) for _, k, v in vals) and not (h.holes and any(_has_hole(v, set(h.holes)) for _, k, v in vals if k == "new")):
        return _last_write(I, n, i, old, vals)
    if isinstance(hv, (SInt, SReal, SComplex)):
        f = _sum_pattern(I, n, i, old, hv, vals, own, conds_ok)
        if f is not None:
            return f
        if isinstance(hv, (SInt, SReal)):
            f = _extreme_pattern(I, n, i, old, hv, vals, own)
            if f is not None:
                return f
    if isinstance(hv, SBool):
        f = _bool_pattern(I, n, i, old, hv, vals, own)
        if f is not None:
            return f
    if hasattr(hv, "__pyvc_summ__"):
        return hv.__pyvc_summ__(I, n, i, old, vals, conds_ok)
    for fold in getattr(e, "fold_patterns", ()):  # folds that an obligation defines
        f = fold(n, i, old, hv, vals)
        if f is not None:
            return f
    return None


def _last_write(I, n, i, old, vals):
    """overwritten in some iterations: the value written by the last of them (the old value when there was none)"""
    e = I.e
    news = [(c, v) for c, k, v in vals if k == "new"]
    ctx = list(e.gidx)
    W = z3.Function(e.fresh_name("lastw"), *[z3.IntSort()] * (len(ctx) + 2))

    def last(m):
        m = toint(m)
        w = W(*ctx, m)
        written = z3.Or(*[c for c, _ in news])
        e.assume(z3.And(w >= -1, z3.Or(w < m, w == -1), z3.Implies(w >= 0, z3.substitute(written, (i, w)))))
        j = V.index_var("lw")
        e.add_qfact(m, j, z3.Implies(j > w, z3.Not(z3.substitute(written, (i, j)))))
        e.reg_index(w)
        e.reg_index(z3.simplify(m - 1))
        at = z3.simplify(m - 1) if e.valid(z3.Implies(m > 0, w == m - 1)) else w
        if e.valid(at < 0):
            return old
        cs = [(z3.And(at >= 0, z3.substitute(c, (i, at))), subst(v, [(i, at)])) for c, v in news]
        for x in cs:
            mark_template(I, x[1])
        if len(cs) == 1 and e.valid(at >= 0):
            return cs[0][1]
        return Cases(cs + [(at < 0, old if old is not _UNSET else Poison("unset"))])

    return last


def _norm_one(f):
    return () if z3.is_int_value(f.n) and f.n.as_long() <= 0 else (f,)


def _parts(v, like):
    if isinstance(like, SComplex):
        c = SComplex.of(v)
        return [c.re, c.im]
    if isinstance(like, SInt):
        return [toint(v)]
    return [toreal(v)]


def _sum_pattern(I, n, i, old, hv, vals, own, conds_ok):
    e = I.e
    like = hv
    for _, k, v in vals:
        if k == "new":
            if isinstance(v, Cases) or not core._num_kind(v):
                return None
            if core._num_kind(v) > core._num_kind(hv):
                # int accumulator receiving reals / complex numbers
                return None
    hp = _parts(hv, like)
    incs = []
    for c, k, v in vals:
        if len(vals) > 1 and (c is None or V.occurs(c, own)):
            return None
        ds = []
        for a, b in zip(_parts(hv if k == "same" else v, like), hp):
            d = z3.simplify(a - b, som=True)
            if V.occurs(d, own):
                return None
            ds.append(d)
        incs.append((c, ds))

    def total(m):
        m = toint(m)
        out = []
        for p in range(len(hp)):
            t = incs[-1][1][p]
            for c, ds in reversed(incs[:-1]):
                t = z3.If(c, ds[p], t)
            o = _parts(old, like)[p]
            out.append(z3.simplify(o + V.sum_term(m, i, t)))
        if isinstance(like, SComplex):
            return SComplex(*out)
        return mkint(out[0]) if isinstance(like, SInt) else SReal(out[0])

    return total


def _at_infinity(t, h, sign):
    """t with the comparisons that mention h decided as for h far above (sign > 0) or below (sign < 0) everything else; None when unclear"""
    if not V.occurs(t, [h]) or t.eq(h):
        return t
    if z3.is_and(t) or z3.is_or(t) or z3.is_not(t) or z3.is_implies(t) or z3.is_app_of(t, z3.Z3_OP_ITE) or (z3.is_eq(t) and z3.is_bool(t.arg(0))):
        cs = [_at_infinity(x, h, sign) for x in t.children()]
        return None if any(c is None for c in cs) else t.decl()(*cs)
    if z3.is_eq(t) or z3.is_distinct(t) or z3.is_le(t) or z3.is_lt(t) or z3.is_ge(t) or z3.is_gt(t):
        a, b = t.children()
        d = a - b
        k = z3.simplify(z3.substitute(d, (h, h + 1)) - d, som=True)
        if not (z3.is_int_value(k) or z3.is_rational_value(k)):
            return None
        k = (k.as_long() if z3.is_int_value(k) else k.as_fraction()) * sign
        if k == 0:
            return None
        if z3.is_eq(t):
            return z3.BoolVal(False)
        if z3.is_distinct(t):
            return z3.BoolVal(True)
        return z3.BoolVal((k > 0) == (z3.is_ge(t) or z3.is_gt(t)))
    return None


def _overwritten(t, h):
    """(condition, value): when and by what t replaces h"""
    if t.eq(h):
        return z3.BoolVal(False), None
    if not V.occurs(t, [h]):
        return z3.BoolVal(True), t
    if z3.is_app_of(t, z3.Z3_OP_ITE) and not V.occurs(t.arg(0), [h]):
        c = t.arg(0)
        a, b = _overwritten(t.arg(1), h), _overwritten(t.arg(2), h)
        if a is None or b is None:
            return None
        x = a[1] if b[1] is None else b[1] if a[1] is None else z3.If(c, a[1], b[1])
        return z3.If(c, a[0], b[0]), x
    return None


def _extreme_pattern(I, n, i, old, hv, vals, own):
    """every iteration leaves the old value or replaces it by a value that exceeds (is below) it"""
    e = I.e
    if len(own) != 1 or any(c is None for c, _, _ in vals) and len(vals) > 1:
        return None
    if any(k == "new" and (isinstance(v, Cases) or not core._num_kind(v) or isinstance(v, (complex, SComplex)) or isinstance(hv, SInt) and not isinstance(v, (int, SInt))) for _, k, v in vals):
        return None
    h = own[0]
    F = None
    for c, k, v in reversed(vals):
        t = h if k == "same" else _parts(v, hv)[0]
        F = t if F is None else z3.If(c, t, F)
    for rel, sign in ((lambda a, b: a > b, -1), (lambda a, b: a < b, 1)):
        t = _at_infinity(F, h, sign)
        gx = None if t is None else _overwritten(z3.simplify(t), h)
        if gx is None or gx[1] is None:
            continue
        g, x = z3.simplify(gx[0]), z3.simplify(gx[1])
        e.solver.push()
        e.add(z3.And(i >= 0, i < n))
        ok = e.valid(F == z3.If(z3.And(g, rel(x, h)), x, h))
        if ok and e.valid(g):
            g = z3.BoolVal(True)
        e.solver.pop()
        if ok:
            o = _parts(old, hv)[0]
            ints = [z3.IntSort()] * (len(e.gidx) + 1)
            ctx = list(e.gidx)
            R = z3.Function(e.fresh_name("ext"), *ints, h.sort())
            W = z3.Function(e.fresh_name("w"), *ints, z3.IntSort())

            def best(m, rel=rel, g=g, x=x):
                m = z3.simplify(toint(m))
                r, w = R(*ctx, m), W(*ctx, m)
                at = lambda t, j: z3.substitute(t, (i, j))
                if z3.is_true(g):
                    some = m > 0
                else:
                    some = w >= 0
                e.assume(z3.Implies(some, z3.And(w >= 0, w < m, at(g, w), at(x, w) == r)))
                e.assume(z3.Implies(z3.Not(some), w == -1))
                j = V.index_var("ext")
                e.add_qfact(m, j, z3.Implies(at(g, j), z3.And(some, z3.Not(rel(at(x, j), r)))))
                for t in [w] + [z3.simplify(at(t, w)) for t in _arguments(x, i)]:
                    e.reg_index(t)
                if e.valid(some):
                    some = z3.BoolVal(True)
                out = z3.simplify(z3.If(z3.And(some, rel(r, o)), r, o))
                return mkint(out) if isinstance(hv, SInt) else SReal(out)

            return best
    return None


def _arguments(x, i):
    """arguments of functions in x that depend on i"""
    out, todo = [], [x]
    while todo:
        t = todo.pop()
        if not z3.is_app(t):
            continue
        if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out += [a for a in t.children() if a.sort() == z3.IntSort() and not a.eq(i) and V._mentions(a, i)]
        todo += t.children()
    return out


def _bool_pattern(I, n, i, old, hv, vals, own):
    """a flag that every iteration either keeps or flips, whatever its value: old xor (number of flips is odd)"""
    e = I.e
    x = own[0]
    if any(c is None for c, _, _ in vals) or any(k == "new" and not isinstance(v, (bool, SBool)) for _, k, v in vals):
        return None
    f = None
    for c, k, v in reversed(vals):
        t = x if k == "same" else zbool(v)
        f = t if f is None else z3.If(c, t, f)
    at = lambda b: z3.simplify(z3.substitute(f, (x, z3.BoolVal(b))))
    flip = at(False)
    e.solver.push()
    e.add(z3.And(i >= 0, i < n))
    ok = e.valid(flip == z3.Not(at(True)))
    e.solver.pop()
    if not ok or V.occurs(flip, own):
        return None

    def parity(m):
        s = V.sum_term(toint(m), i, z3.If(flip, z3.IntVal(1), z3.IntVal(0)))
        return mkbool(z3.Xor(zbool(old), s % 2 == 1))

    return parity


def _hole_reads(v, hole, idx, orig):
    """v with the reads of the element at idx replaced by its value before the loop; None when it reads another element"""
    name = "elem·" + hole
    bad = []

    def term(t):
        out, todo, seen = [], [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.num_args() == 1 and x.decl().name() == name:
                out.append(x)
            todo += x.children()
        for x in out:
            if not z3.simplify(x.arg(0) - idx).eq(z3.IntVal(0)):
                bad.append(x)
                return t
        if not out:
            return t
        return z3.substitute(t, *[(x, toreal(orig(idx))) for x in out])

    r = subst(v, term)
    return None if bad or _has_hole(r, {hole}) else r


def _scatter_pattern(I, n, i, old, h, vals, conds_ok):
    """every iteration overwrites at most the element at position i + c (the same c on every path) of a symbolic list, or the value of
    the entry at this position of a symbolic dictionary"""
    e = I.e
    hole = h.holes[0]
    fam = old[0]
    is_dict = isinstance(h.value[0].val, tuple)
    shift, writes = None, []
    if len(vals) > 1 and not conds_ok:
        return None

    def orig(t):
        x = subst(fam.val, [(fam.var, t)])
        return force(x)[1] if is_dict else x

    for c, k, v in vals:
        if k == "same":
            continue
        if not (isinstance(v, tuple) and len(v) == 1 and isinstance(v[0], Fam) and v[0].n.eq(fam.n)):
            return None
        val = v[0].val
        if is_dict:
            if not isinstance(val, tuple):
                return None
            val = val[1]
        if not isinstance(val, Cases):
            return None
        alts = val.alts
        if len(alts) != 2 or not V.same_syntax(alts[1][1], _hole_like(orig(v[0].var), hole, v[0].var)):
            return None
        at, new = alts[0]
        if not z3.is_eq(at):
            return None
        idx = at.arg(1) if at.arg(0).eq(v[0].var) else at.arg(0) if at.arg(1).eq(v[0].var) else None
        if idx is None or V.occurs(idx, [v[0].var]):
            return None
        new = _hole_reads(new, hole, idx, orig)
        if new is None:
            return None
        s = z3.simplify(idx - i)
        if V.occurs(s, [i]) or shift is not None and not e.valid(s == shift):
            return None
        shift = s
        writes.append((c if c is not None else z3.BoolVal(True), new))
    for k, (c, new) in enumerate(writes):
        c = _hole_reads(SBool(c), hole, i + shift, orig)
        if c is None:
            return None
        writes[k] = (zbool(c), new)

    def content(m):
        m = toint(m)
        w = V.index_var("w")
        if len(writes) == 1 and z3.is_true(writes[0][0]) and z3.is_int_value(shift) and shift.as_long() == 0 and z3.simplify(m - fam.n).eq(z3.IntVal(0)):
            v = subst(writes[0][1], [(i, w)])
            mark_template(I, v)
            return (Fam(fam.n, w, (subst(force(fam.val)[0], [(fam.var, w)]), v) if is_dict else v),)
        src = z3.simplify(w - shift)
        inside = z3.And(src >= 0, src < m)
        alts, none = [], []
        for c, v in writes:
            hit = z3.simplify(z3.And(inside, z3.substitute(c, (i, src))))
            none.append(z3.Not(hit))
            v = subst(v, [(i, src)])
            mark_template(I, v)
            alts.append((hit, v))
        rest = z3.simplify(zand(none))
        o = subst(fam.val, [(fam.var, w)])
        key = None
        if is_dict:
            key, o = force(o)
        for c, x in o.alts if isinstance(o, Cases) else [(z3.BoolVal(True), o)]:
            alts.append((z3.simplify(z3.And(rest, c)), x))
        return (Fam(fam.n, w, (key, Cases(alts)) if is_dict else Cases(alts)),)

    return content


def _positional(c, i):
    """the condition compares the loop index itself"""
    if z3.is_app(c) and (z3.is_eq(c) or z3.is_le(c) or z3.is_lt(c) or z3.is_ge(c) or z3.is_gt(c)) and any(a.eq(i) for a in c.children()):
        return True
    return any(_positional(a, i) for a in c.children() if z3.is_bool(a))


def _not_empty(c, a):
    """c without the condition that the only family added is not empty"""
    if len(a) == 1 and isinstance(a[0], (Fam, Flat)) and z3.is_and(c):
        n = a[0].n
        keep = [x for x in c.children() if not (x.eq(z3.Not(n <= 0)) or x.eq(n > 0) or x.eq(z3.simplify(n > 0)) or x.eq(z3.simplify(n >= 1)))]
        return z3.And(*keep) if len(keep) != 1 else keep[0]
    return c


def _same_value(e, n, i, x, y):
    """equal in every iteration"""
    if V.same_syntax(x, y):
        return True
    e.solver.push()
    try:
        e.add(z3.And(i >= 0, i < n))
        c = V.eqv(x, y)
        return c is True or c is not False and e.valid(zbool(c))
    except Unsupported:
        return False
    finally:
        e.solver.pop()


def _join_empty(e, n, i, adds):
    """an iteration that adds nothing because the family it would add is empty is like the others"""
    if len(adds) < 2 or any(c is None for c, _ in adds):
        return adds
    out = []
    for c, a in adds:
        if not a:
            for c2, b in adds:
                if b and all(isinstance(s, (Fam, Flat)) for s in b):
                    e.solver.push()
                    e.add(z3.And(i >= 0, i < n))
                    ok = e.valid(z3.Implies(c, z3.And(*[s.n <= 0 for s in b])))
                    e.solver.pop()
                    if ok:
                        a = b
                        break
        for k, (c2, b) in enumerate(out):
            if V.same_syntax(a, b):
                out[k] = (z3.simplify(z3.Or(c2, c)), b)
                break
        else:
            out.append((c, a))
    if len(out) == 1:
        out = [(None, out[0][1])]
    return out


def seen_mentions(c, hid):
    from . import seen

    return bool(seen.mentions(c, hid))


def _merge_entries(e, n, i, adds):
    """the paths that add one entry of the same key become one, with a value by cases"""
    full = [(c, a) for c, a in adds if a]
    if len(full) < 2 or any(c is None for c, _ in adds) or not all(len(a) == 1 and isinstance(a[0], One) and isinstance(a[0].v, tuple) and len(a[0].v) == 2 for _, a in full):
        return adds
    k = full[0][1][0].v[0]
    if not all(_same_value(e, n, i, k, a[0].v[0]) for _, a in full[1:]):
        return adds
    v = Cases([(c, a[0].v[1]) for c, a in full])
    return [(z3.simplify(z3.Or(*[c for c, _ in full])), (One((k, v)),))] + [(c, a) for c, a in adds if not a]


def _nested_firsts(I, n, i, hole, base, a):
    """an inner loop that appends the elements that are not in the list yet"""
    from . import seen

    e = I.e
    if len(a) != 1 or not isinstance(a[0], Flat) or len(a[0].segs) != 1 or not isinstance(a[0].segs[0], Guard) or [type(x) for x in a[0].segs[0].segs] != [One]:
        return None
    f, g = a[0], a[0].segs[0]
    v = g.segs[0].v
    t = seen.key_term(v)
    if seen_mentions(v, hole):
        return None
    inner = seen.earlier((One(v),), f.var, f.var, t)
    known = z3.Function("in·" + hole, z3.IntSort(), z3.BoolSort())(t)
    e.solver.push()
    e.add(z3.And(i >= 0, i < n, f.var >= 0, f.var < f.n))
    ok = e.valid(g.c == z3.Not(z3.Or(known, inner)))
    e.solver.pop()
    if not ok:
        return None
    new = z3.Not(z3.Or(seen.member(base, t), seen.earlier((Fam(f.n, f.var, v),), i, i, t), inner))
    return lambda m: Flat(z3.simplify(toint(m)), i, (Flat(f.n, f.var, (Guard(new, (One(v),)),)),))


def _append_pattern(I, n, i, loc, old, h, vals, conds_ok):
    """the new content is the old one followed by new elements"""
    e = I.e
    hole = h.holes[0]
    adds = []
    for c, k, v in vals:
        if k == "same":
            adds.append((c, ()))
            continue
        segs = v if loc.kind == "cont" else v.segs if isinstance(v, Cont) else tuple(One(x) for x in v)
        if not segs or not isinstance(segs[0], Hole) or segs[0].id != hole:
            return None
        rest = tuple(segs[1:])
        if _has_hole(rest, {hole}):
            return None
        adds.append((c, rest))
    if len(adds) > 1 and not conds_ok:
        return None
    base = old if loc.kind == "cont" else V.segs_of(old)
    adds = _join_empty(e, n, i, adds)
    if len(adds) == 1 and seen_mentions(adds[0][1], hole):
        r = _nested_firsts(I, n, i, hole, base, adds[0][1]) if not (loc.kind == "cont" and isinstance(loc.entry.obj, (PyDict, PySet))) else None
        if r is None:
            return None
        return (lambda m: tuple(base) + (r(m),)) if loc.kind == "cont" else lambda m: PyList(tuple(base) + (r(m),))
    if loc.kind == "cont" and isinstance(loc.entry.obj, PySet) and (len(adds) == 1 or any(c is None or seen_mentions(c, hole) for c, _ in adds)):
        from . import seen

        a = seen.set_pattern(I, n, i, base, hole, adds)
        if a is None:
            return None
        adds = [(None, a)]
    elif any(c is not None and seen_mentions(c, hole) for c, _ in adds) and not (loc.kind == "cont" and isinstance(loc.entry.obj, PyDict)):
        # elements that are not in the list yet
        from . import seen

        a = seen.set_pattern(I, n, i, base, hole, adds)
        if a is None or len(a) != 1 or not isinstance(a[0], One):
            return None
        new = z3.Not(z3.Or(seen.member(base, seen.key_term(a[0].v)), seen.earlier(a, i, i, seen.key_term(a[0].v))))
        adds = [(new, a)]
        return lambda m: tuple(base) + (Flat(z3.simplify(toint(m)), i, (Guard(new, a),)),) if loc.kind == "cont" else PyList(tuple(base) + (Flat(z3.simplify(toint(m)), i, (Guard(new, a),)),))
    if loc.kind == "cont" and isinstance(loc.entry.obj, PyDict):
        # new entries: the keys of different iterations and of the old content must differ
        from . import groups
        from .shims import keys_distinct

        first = groups.first_pattern(I, n, i, hole, adds) if len(adds) > 1 and not base else None
        if first is not None:
            from . import seen

            c, k, v = first
            keys = (One(k),) if z3.is_true(c) else (Guard(c, (One(k),)),)
            new = z3.And(c, z3.Not(seen.earlier(keys, i, i, seen.key_term(k))))
            return lambda m: (Flat(z3.simplify(toint(m)), i, (Guard(new, (One((k, v)),)),)),)
        found = groups.pattern(I, n, i, base, hole, adds) if len(adds) > 1 else None
        if found is not None:
            return lambda m: groups.content(I, z3.simplify(toint(m)), i, *found)
        if len(adds) > 1 and conds_ok and all(len(a) == 1 and isinstance(a[0], One) and isinstance(a[0].v, tuple) for _, a in adds):
            # one new key on every path, with different values
            ps = [a[0].v for _, a in adds]
            if all(_same_value(e, n, i, ps[0][0], p[0]) for p in ps[1:]):
                adds = [(None, (One((ps[0][0], Cases([(c, p[1]) for (c, _), p in zip(adds, ps)]))),))]
        adds = _merge_entries(e, n, i, adds)
        some = [a for _, a in adds if a]
        if len(some) != 1 or len(some[0]) != 1 or not isinstance(some[0][0], One) or len(adds) > 1 and any(c is None or seen_mentions(SBool(c), hole) for c, _ in adds):
            return None
        key = force(some[0][0].v)[0]
        if not keys_distinct(I, n, i, key):
            return None
        for s in base:
            other = s.v[0] if isinstance(s, One) else None
            if other is None:
                return None
            try:
                if not V.holds_generic(n, lambda j: z3.Not(zbool(V.eqv(subst(key, [(i, j)]), other)))):
                    return None
            except Unsupported:
                return None

    def content(m):
        m = z3.simplify(toint(m))
        if len(adds) == 1:
            segs = adds[0][1]
        elif len({len(a) for _, a in adds}) == 1 and all(isinstance(x, One) for _, a in adds for x in a):
            segs = tuple(One(Cases([(c, a[k].v) for c, a in adds])) for k in range(len(adds[0][1])))
        else:
            segs = tuple(Guard(_not_empty(c, a), a) for c, a in adds if a)
        for s in segs:
            mark_seg(I, s)
        k = m
        if len(segs) == 1 and isinstance(segs[0], Guard) and _positional(segs[0].c, i):
            # all iterations but the last one
            prev = z3.simplify(m - 1)
            if e.valid(z3.Implies(m > 0, z3.Not(z3.substitute(segs[0].c, (i, prev))))) and V.holds_generic(prev, lambda j: z3.substitute(segs[0].c, (i, toint(j)))):
                k = prev if e.valid(m > 0) else z3.simplify(z3.If(m > 0, prev, 0))
                segs = segs[0].segs
        if len(segs) == 1 and isinstance(segs[0], One):
            f = (Fam(k, i, segs[0].v),)
        elif not segs:
            f = ()
        else:
            f = (Flat(k, i, segs),)
        if z3.is_int_value(m) and m.as_long() <= 0:
            f = ()
        if loc.kind == "cont":
            return tuple(base) + f
        new = tuple(base) + f
        if isinstance(old, PyList):
            return PyList(new)
        return conc_tuple(new)

    return content


# -------------------------------------------------------------------- while
class WhileSpec:
    """Annotation of a while loop, made by I.while_specs[name of the function, or "*"](I, env) from the state before the loop (None: no
    annotation).  names: the variables and conts(): the ids of the containers that the loop writes; state(k): [(name, getter, setter,
    value)] after k iterations that did not leave the loop; holds(k): a condition (optional); bound(): k stays below it (optional,
    checked: termination)."""


def while_loop(I, s, env):
    fn = env_fn(env)
    specs = getattr(I, "while_specs", {})
    spec = specs.get(getattr(fn, "__qualname__", None)) or specs.get("*")
    I.while_node = s
    st = spec(I, env) if spec is not None else None
    if st is not None:
        return spec_while(I, s, env, st)
    count = 0
    while True:
        if not I.truth(I.eval(s.test, env)):
            if s.orelse:
                return I.exec_block(s.orelse, env)
            return None
        count += 1
        if count > I.max_while:
            raise Unsupported(f"while loop (line {s.lineno}) needs an invariant")
        sig = I.exec_block(s.body, env)
        if sig is not None:
            if sig[0] == "break":
                return None
            if sig[0] == "continue":
                continue
            return sig


def spec_while(I, s, env, st):
    e = I.e

    def check(k, label):
        for name, get, put, want in st.state(k):
            have = get()
            c = seq_or_val(have, want)
            e.prove(c, f"loop invariant ({label}): {name}")
        if hasattr(st, "holds"):
            e.prove(st.holds(k), f"loop invariant ({label})")

    def install(k):
        for name, get, put, want in st.state(k):
            put(want)
        if hasattr(st, "holds"):
            e.assume(st.holds(k))
        # everything else the body may change is unknown
        for nm in assigned_names(s):
            if nm not in st.names:
                I.setvar_env(env, nm, Poison(f"{nm} is carried through a while loop"))

    check(z3.IntVal(0), "holds initially")

    def run():
        k = V.fresh_index_unbounded("w")
        install(k)
        if not I.truth(I.eval(s.test, env)):
            raise PathAbort()
        mark = len(e.trail)
        sig = I.exec_block(s.body, env)
        leaves = sig is not None and sig[0] != "continue"
        ok = {env_name for env_name in assigned_names(s)} | set(st.names)
        for entry in e.trail[mark:]:
            loc = entry.loc
            if loc[0] == "var" and loc[1] == id(env) and loc[2] in ok:
                continue
            if loc[0] == "cont" and loc[1] in st.conts():
                continue
            raise Unsupported(f"an annotated while loop writes {loc}")
        if not leaves:
            if hasattr(st, "bound"):
                e.prove(k < st.bound(), "loop terminates")
            check(z3.simplify(k + 1), "is preserved")
        return True

    for conds, facts, kind, v in e.explore(run, local=True):
        if kind == "exc":
            raise v
    K = e.int()
    e.assume(K >= 0)
    install(K.t)
    if I.truth(I.eval(s.test, env)):
        sig = I.exec_block(s.body, env)
        if sig is None or sig[0] == "continue":
            raise PathAbort()
        return None if sig[0] == "break" else sig
    if s.orelse:
        return I.exec_block(s.orelse, env)
    return None


def seq_or_val(a, b):
    if isinstance(a, tuple) and a and isinstance(a[0], (One, Fam, Flat, Guard)) or isinstance(b, tuple) and b and isinstance(b[0], (One, Fam, Flat, Guard)):
        return V.seq_eqv(a, b)
    return V.eqv(a, b)


def assigned_names(s):
    import ast

    out = []
    for x in ast.walk(s):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.append(x.id)
        elif isinstance(x, ast.NamedExpr):
            out.append(x.target.id)
    return out


def extended_names(s):
    """names of the variables with a method called in s"""
    import ast

    return [x.func.value.id for x in ast.walk(s) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name)]


def env_fn(env):
    while env is not None and env.fn is None:
        env = env.parent
    return env.fn if env is not None else None

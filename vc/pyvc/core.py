"""pyvc core: path exploration, symbolic scalars, generic (index-parametric) values.

A symbolic value is an ordinary Python object carrying a z3 term.  The truth value of a symbolic boolean forks the
path (`Engine.choose`); every feasible path is enumerated by re-execution from a decision prefix."""
import copy as _copy
import sys
import time
from fractions import Fraction

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402


class _Solver(z3.Solver):
    """facts about sums that leave with a scope are forgotten, to be stated again when needed"""

    owner = None

    def push(self):
        self.__dict__.setdefault("marks", []).append(len(self.owner.sum_ns) if self.owner else 0)
        super().push()

    def pop(self, num=1):
        super().pop(num)
        for _ in range(num):
            m = self.marks.pop()
            if self.owner:
                del self.owner.sum_ns[m:]


class EngineError(BaseException):
    """never caught by interpreted code"""


class Unsupported(EngineError):
    pass


class Peel(Unsupported):
    """a value that is None before the first iteration of a loop is read in the loop: its first iteration is taken on its own"""


class PathAbort(EngineError):
    """the current path is infeasible (or was deliberately cut after its obligations were checked)"""


class ProofFailed(EngineError):
    def __init__(self, label, why, model=None):
        super().__init__(f"{label}: {why}")
        self.label, self.why, self.model = label, why, model


cur = None  # the engine in use


class _Ctx:
    __slots__ = ("prefix", "pos", "decisions", "conds", "facts", "marks")

    def __init__(self, prefix):
        self.prefix, self.pos, self.decisions, self.conds, self.facts = prefix, 0, [], [], []


SLOW = float(__import__("os").environ.get("VC_SLOW", 0))


class Engine:
    def __init__(self, timeout_ms=8000):
        self.solver = _Solver()
        self.solver.owner = self
        self.timeout_ms = timeout_ms
        self.solver.set("timeout", timeout_ms)
        self.ctxs = []
        self.counter = 0
        self.gidx = []  # generic loop indices in scope
        self.qfacts = []  # (n, var, formula): holds for every 0 <= var < n
        self.idxterms = []
        self.sum_ns = []  # (sum function, upper bound) pairs whose facts are on the solver
        self.chains = []
        self.trail = []
        self.stamp = 0
        self.stats = dict(paths=0, queries=0, solver_s=0.0, proves=0, local_paths=0, loops=0)
        self.labels = {}
        self.depth = 0
        self.drops = set()
        self.trusted = set()
        self.functions = set()
        self.deadline = None
        self.smt_log = None

    # ---------------------------------------------------------------- solver
    def check(self, *fs, ms=None):
        """ms: a smaller time limit for questions whose answer only helps"""
        if ms is not None and ms < self.timeout_ms:
            self.solver.set("timeout", ms)
            try:
                return self.check(*fs)
            finally:
                self.solver.set("timeout", self.timeout_ms)
        t = time.time()
        if self.deadline and t > self.deadline:
            raise Unsupported("time budget of the obligation exhausted")
        self.stats["queries"] += 1
        r = self.solver.check(*fs)
        if r == z3.unknown and time.time() - t < 2:
            # the incremental solver gave up early: ask a fresh one
            s = z3.Solver()
            s.set("timeout", self.timeout_ms)
            s.add(self.solver.assertions())
            s.add(*fs)
            if s.check() == z3.unsat:
                r = z3.unsat
        self.stats["solver_s"] += time.time() - t
        if SLOW and time.time() - t > SLOW:
            import sys
            import traceback

            print(f"slow query {time.time() - t:.2f} s: {r} {str(fs)[:300]}", [f"{x.name}:{x.lineno}" for x in traceback.extract_stack(limit=9)[:-1]], file=sys.stderr)
        return r

    def feasible(self, f):
        return self.check(f) != z3.unsat

    def add(self, f):
        self.solver.add(f)

    def fresh_name(self, base):
        self.counter += 1
        return f"{base}!{self.counter}"

    def fresh(self, base, sort):
        """a fresh unknown; inside generic loop bodies it is a function of the loop indices"""
        name = self.fresh_name(base)
        if not self.gidx:
            return z3.Const(name, sort)
        f = z3.Function(name, *[z3.IntSort()] * len(self.gidx), sort)
        return f(*self.gidx)

    def int(self, name=None):
        return SInt(z3.Int(name) if name else self.fresh("k", z3.IntSort()))

    def real(self, name=None):
        return SReal(z3.Real(name) if name else self.fresh("r", z3.RealSort()))

    def bool(self, name=None):
        return SBool(z3.Bool(name) if name else self.fresh("b", z3.BoolSort()))

    def complex(self, name):
        return SComplex(z3.Real(name + ".re"), z3.Real(name + ".im"))

    # ---------------------------------------------------------------- paths
    def check_bound(self, cond):
        """a decision about the bound variable of a family cannot be taken for the whole family"""
        from .values import index_consts

        loose = [v for v in index_consts(cond) if not v.decl().name().startswith("ix_·") and not any(v.eq(g) for g in self.gidx)]
        if loose:
            import os, traceback
            if os.environ.get("VC_BOUND"):
                print("BOUND", loose, "".join(traceback.format_stack()[-8:-2]))
                return
            raise Unsupported(f"decision {cond} on the element of a family")

    def choose(self, cond):
        """truth value of a z3 condition on the current path (forks)"""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if not self.ctxs:
            raise Unsupported("symbolic decision outside an exploration")
        ctx = self.ctxs[-1]
        if ctx.pos < len(ctx.prefix):
            d, _, rec = ctx.prefix[ctx.pos]
            alt = False
        else:
            t_ok = self.feasible(cond)
            f_ok = self.feasible(z3.Not(cond))
            if not t_ok and not f_ok:
                raise PathAbort("infeasible")
            d = t_ok
            rec = alt = t_ok and f_ok
            if rec:
                self.check_bound(cond)
        ctx.pos += 1
        ctx.decisions.append((d, alt, rec))
        if rec:
            # forced decisions follow from what is already on the solver
            c = cond if d else z3.Not(cond)
            ctx.conds.append(c)
            self.solver.add(c)
        return d

    def pick(self, k, what="choice"):
        """nondeterministic choice among k alternatives (all are explored)"""
        if k == 1:
            return 0
        v = z3.Int(self.fresh_name("pick"))
        self.solver.add(v >= 0, v < k)
        for j in range(k - 1):
            if self.choose(v == j):
                return j
        return k - 1

    def assume(self, cond):
        t = tobool(cond)
        if t is True:
            return
        if t is False:
            raise PathAbort("assumption is false")
        self.solver.add(t)
        if self.ctxs:
            self.ctxs[-1].facts.append(t)

    def explore(self, fn, local=False):
        """run fn on every feasible path; yields (conditions, facts, outcome, value) with the path still on the solver"""
        stack = [[]]
        out = []
        while stack:
            prefix = stack.pop()
            ctx = _Ctx(prefix)
            self.ctxs.append(ctx)
            self.solver.push()
            marks = (len(self.qfacts), len(self.idxterms), len(self.gidx), len(self.sum_ns), len(self.chains))
            tmark = len(self.trail)
            I = getattr(self, "interp", None)
            saved_stamps = None
            if local and I is not None:
                saved_stamps = list(I.explore_stamp)
                self.stamp += 1
                I.explore_stamp.append(self.stamp)
            depth = self.depth
            self.stats["local_paths" if local else "paths"] += 1
            if self.stats["paths"] + self.stats["local_paths"] > 60000:
                raise Unsupported("too many paths")
            try:
                try:
                    v = fn()
                    res = ("ok", v)
                except PathAbort:
                    res = None
                except EngineError:
                    raise
                except RecursionError as e:
                    raise Unsupported("recursion too deep")
                except Exception as e:
                    res = ("exc", e)
                for k in range(len(prefix), len(ctx.decisions)):
                    d, alt, rec = ctx.decisions[k]
                    if alt:
                        stack.append(ctx.decisions[:k] + [(not d, False, True)])
                if res is not None:
                    yield ctx.conds, ctx.facts, res[0], res[1]
            finally:
                self.undo(tmark)
                self.depth = depth
                if saved_stamps is not None:
                    I.explore_stamp[:] = saved_stamps
                self.ctxs.pop()
                self.solver.pop()
                del self.qfacts[marks[0]:]
                del self.idxterms[marks[1]:]
                del self.gidx[marks[2]:]
                del self.sum_ns[marks[3]:]
                del self.chains[marks[4]:]

    # ---------------------------------------------------------------- writes
    def log(self, entry):
        self.trail.append(entry)

    def undo(self, mark):
        while len(self.trail) > mark:
            e = self.trail.pop()
            e.undo()

    # ---------------------------------------------------------------- generic indices and quantified facts
    def reg_index(self, t, chained=False):
        if isinstance(t, int):
            t = z3.IntVal(t)
        for u in self.idxterms:
            if u.eq(t):
                return
        self.idxterms.append(t)
        for n, var, f in list(self.qfacts):
            self._inst(n, var, f, t)
        if not chained:
            for var, u in list(self.chains):
                self.reg_index(z3.substitute(u, (var, t)), True)

    def add_chain(self, var, u):
        """facts about an index t are also wanted at u(t)"""
        self.chains.append((var, u))
        for t in list(self.idxterms):
            self.reg_index(z3.substitute(u, (var, t)), True)

    def _inst(self, n, var, f, t):
        g = z3.substitute(f, (var, t))
        prem = [] if n is None else [t >= 0, t < n]
        while z3.is_implies(g):
            prem.append(g.arg(0))
            g = g.arg(1)
        if z3.is_quantifier(g) and g.is_forall() and g.num_vars() == 1:
            # a nested fact becomes a fact of its own
            v = z3.Int(self.fresh_name("ix_nf"))
            inner = z3.Implies(z3.And(*prem), z3.substitute_vars(g.body(), v)) if prem else z3.substitute_vars(g.body(), v)
            self.qfacts.append((None, v, inner))
            for u in list(self.idxterms):
                self._inst(None, v, inner, u)
            return
        self.solver.add(z3.Implies(z3.And(*prem), g) if prem else g)

    def add_qfact(self, n, var, f):
        """for every 0 <= var < n: f"""
        n = toint(n)
        self.qfacts.append((n, var, f))
        if self.gidx and self.ctxs:
            # inside a generic iteration: keep the fact when the iteration is left
            self.ctxs[-1].facts.append(z3.ForAll([var], z3.Implies(z3.And(var >= 0, var < n), f)))
        for t in list(self.idxterms):
            self._inst(n, var, f, t)

    # ---------------------------------------------------------------- proving
    def prove(self, cond, label="post"):
        self.stats["proves"] += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        t = tobool(cond)
        if t is True:
            return
        if t is False:
            r = self.check()
            if r == z3.unsat:
                return
            raise ProofFailed(label, "refuted" if r == z3.sat else "unknown", self.solver.model() if r == z3.sat else None)
        if self.smt_log is not None:
            self.solver.push()
            self.solver.add(z3.Not(t))
            self.smt_log.append((label, self.solver.to_smt2()))
            self.solver.pop()
        from .values import prove_sums, ensure_sums, congruent_sums

        ensure_sums(t)
        r = self.check(z3.Not(t))
        if r == z3.unsat:
            return
        m = self.solver.model() if r == z3.sat else None
        if prove_sums(t):
            return
        if congruent_sums(t) and self.check(z3.Not(t)) == z3.unsat:
            return
        if r == z3.sat:
            raise ProofFailed(label, "refuted", m)
        raise ProofFailed(label, "unknown (solver gave up)", None)

    def valid(self, cond):
        t = tobool(cond)
        if isinstance(t, bool):
            return t
        from .values import ensure_sums

        ensure_sums(t)
        return self.check(z3.Not(t)) == z3.unsat


# -------------------------------------------------------------------- scalars
class Sym:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")

    def __repr__(self):
        return f"<{self.t}>"

    def __str__(self):
        return f"<{self.t}>"


def _frac(x):
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float")
        return z3.RealVal(Fraction(x))
    return z3.RealVal(int(x))


def is_int(x):
    import numpy as np

    return isinstance(x, (int, SInt, np.integer)) or isinstance(x, SBool)


def toint(x):
    import numpy as np

    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, int, np.integer)):
        return z3.IntVal(int(x))
    raise Unsupported(f"not an integer: {type(x).__name__}")


def toreal(x):
    import numpy as np

    if isinstance(x, z3.ExprRef):
        return z3.ToReal(x) if x.sort() == z3.IntSort() else x
    if isinstance(x, SReal):
        return x.t
    if isinstance(x, (SInt, SBool)):
        return z3.ToReal(toint(x))
    if isinstance(x, (bool, int, float, Fraction, np.integer, np.floating)):
        if isinstance(x, np.floating):
            x = float(x)
        if isinstance(x, np.integer):
            x = int(x)
        return _frac(x)
    raise Unsupported(f"not a real: {type(x).__name__}")


def tobool(x):
    import numpy as np

    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, z3.BoolRef):
        return x
    raise Unsupported(f"not a boolean: {type(x).__name__}")


def zbool(x):
    t = tobool(x)
    return z3.BoolVal(t) if isinstance(t, bool) else t


def mkint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def mkbool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def mkreal(t):
    return SReal(z3.simplify(t))


def _num_kind(x):
    import numpy as np

    if isinstance(x, (SComplex, complex, np.complexfloating)):
        return 3
    if isinstance(x, (SReal, float, Fraction, np.floating)):
        return 2
    if isinstance(x, (SInt, bool, int, np.integer, SBool)):
        return 1
    return 0


def _floordiv(a, b):
    # Python's floor division from z3's Euclidean one (they agree for positive divisors)
    return z3.If(b > 0, a / b, (-a) / (-b))


pow2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())


def mk_pow2(k):
    """2**k for an integer k >= 0; ground axioms are added for the terms that occur"""
    if isinstance(k, int):
        return 2**k
    k = z3.simplify(k)
    if z3.is_int_value(k):
        return 2 ** k.as_long()
    # split off a constant: 2**(j+c) = 2**c * 2**j
    c = 0
    base = k
    if z3.is_add(k):
        consts = [a for a in k.children() if z3.is_int_value(a)]
        rest = [a for a in k.children() if not z3.is_int_value(a)]
        if consts and rest:
            c = sum(a.as_long() for a in consts)
            base = z3.simplify(z3.Sum(rest) if len(rest) > 1 else rest[0])
    if c > 0 and not cur.valid(base >= 0):
        c, base = 0, k
    p = pow2(base)
    cur.add(z3.And(z3.Implies(base >= 0, p >= 1), z3.Implies(base >= 1, z3.And(p >= 2, p == 2 * pow2(base - 1))), z3.Implies(base == 0, p == 1)))
    if c >= 0:
        return SInt(z3.simplify(p * 2**c))
    q = pow2(k)
    cur.add(z3.Implies(k >= 0, z3.And(q >= 1, q * 2 ** (-c) == p)))
    return SInt(q)


def _is_pow2(t):
    return z3.is_app(t) and t.decl().name() == "pow2"


def _has_pow2(t, depth=4):
    return _is_pow2(t) or (depth > 0 and (z3.is_add(t) or z3.is_mul(t) or z3.is_sub(t)) and any(_has_pow2(c, depth - 1) for c in t.children()))


def _pow2_product(x, y):
    """the product with 2**a * 2**b written as 2**(a + b), for exponents that are not negative; None if there is nothing to write"""
    if not (_has_pow2(x) and _has_pow2(y)):
        return None
    t = z3.simplify(x * y, som=True)
    out = []
    for m in t.children() if z3.is_add(t) else [t]:
        fs = m.children() if z3.is_mul(m) else [m]
        flat = []
        for f in fs:
            flat += [f.arg(0)] * f.arg(1).as_long() if f.decl().kind() == z3.Z3_OP_POWER and z3.is_int_value(f.arg(1)) else [f]
        ps = [f for f in flat if _is_pow2(f)]
        if len(ps) > 1 and all(cur.valid(f.arg(0) >= 0) for f in ps):
            p = toint(mk_pow2(z3.Sum([f.arg(0) for f in ps])))
            rest = [f for f in flat if not _is_pow2(f)]
            m = z3.Product([p] + rest) if rest else p
        out.append(m)
    return z3.Sum(out) if len(out) > 1 else out[0]


def _arith(op, a, b):
    ka, kb = _num_kind(a), _num_kind(b)
    if not ka or not kb:
        return NotImplemented
    k = max(ka, kb)
    if op == "**" and isinstance(b, int) and not isinstance(b, bool) and 0 <= b <= 8 and k == 3:
        r = SComplex(z3.RealVal(1), z3.RealVal(0))
        for _ in range(b):
            r = r * a
        return r
    if k == 3:
        a, b = SComplex.of(a), SComplex.of(b)
        if op == "+":
            return SComplex(a.re + b.re, a.im + b.im)
        if op == "-":
            return SComplex(a.re - b.re, a.im - b.im)
        if op == "*":
            return SComplex(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)
        if op == "/":
            d = b.re * b.re + b.im * b.im
            if cur.choose(d == 0):
                raise ZeroDivisionError("complex division by zero")
            return SComplex((a.re * b.re + a.im * b.im) / d, (a.im * b.re - a.re * b.im) / d)
        if op == "**" and isinstance(b, SComplex):
            raise Unsupported("complex power")
        return NotImplemented
    if op == "/":
        x, y = toreal(a), toreal(b)
        if cur.choose(y == 0):
            raise ZeroDivisionError("division by zero")
        return mkreal(x / y)
    if op == "**":
        return _power(a, b)
    if k == 1:
        x, y = toint(a), toint(b)
        if op == "+":
            return mkint(x + y)
        if op == "-":
            return mkint(x - y)
        if op == "*":
            r = _pow2_product(x, y)
            return mkint(x * y if r is None else r)
        if op in ("//", "%"):
            if cur.choose(y == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            if _is_pow2(x) and _is_pow2(y) and cur.valid(z3.And(y.arg(0) >= 0, x.arg(0) >= y.arg(0))):
                return mk_pow2(x.arg(0) - y.arg(0)) if op == "//" else 0
            ys = z3.simplify(y)
            if z3.is_int_value(ys) and ys.as_long() > 0:
                # the modulo node is enough: z3 links x div y and x mod y
                return mkint(x / y if op == "//" else x % y)
            if cur.valid(y > 0):
                return _symdiv(op, x, ys)
            q = _floordiv(x, y)
            return mkint(q if op == "//" else x - y * q)
    else:
        x, y = toreal(a), toreal(b)
        if op == "+":
            return mkreal(x + y)
        if op == "-":
            return mkreal(x - y)
        if op == "*":
            sq = _square(x, y)
            return mkreal(x * y if sq is None else sq)
        if op in ("//", "%"):
            if cur.choose(y == 0):
                raise ZeroDivisionError("float floor division by zero")
            q = z3.ToReal(z3.ToInt(x / y))
            return mkreal(q if op == "//" else x - y * q)
    return NotImplemented


_fdiv = z3.Function("fdiv", z3.IntSort(), z3.IntSort(), z3.IntSort())
_fmod = z3.Function("fmod", z3.IntSort(), z3.IntSort(), z3.IntSort())


def _symdiv(op, x, y):
    """floor division by a positive symbolic divisor: x == y * q + r with 0 <= r < y; a negated dividend is reduced to
    the positive one (floor(-t / y) = -(t // y) - (t % y != 0))"""
    x = z3.simplify(x)
    neg = False
    if z3.is_mul(x) and z3.is_int_value(x.arg(0)) and x.arg(0).as_long() < 0:
        neg, x = True, z3.simplify(-x)
    ceil = False
    if not neg and z3.is_add(x) and any(c.eq(y) for c in x.children()):
        t = z3.simplify(x - y + 1)  # (t + y - 1) // y: t / y rounded up
        if not z3.is_int_value(t) and not any(z3.is_int_value(c) for c in (t.children() if z3.is_add(t) else ())):
            ceil, x = True, t
    q, r = _fdiv(x, y), _fmod(x, y)
    cur.assume(z3.And(x == y * q + r, r >= 0, r < y, z3.Implies(x >= 0, q >= 0), z3.Implies(x > 0, z3.Or(q > 0, r > 0))))
    if ceil:
        if cur.choose(r == 0):
            return mkint(q) if op == "//" else mkint(y - 1)
        return mkint(q + 1 if op == "//" else r - 1)
    if not neg:
        return mkint(q if op == "//" else r)
    if cur.choose(r == 0):
        return mkint(-q) if op == "//" else 0
    return mkint(-q - 1 if op == "//" else y - r)


MODULUS = z3.Function("modulus", z3.RealSort(), z3.RealSort(), z3.RealSort())


def _square(x, y):
    """square of a modulus"""
    if z3.is_app(x) and x.eq(y) and x.decl().eq(MODULUS):
        return x.arg(0) * x.arg(0) + x.arg(1) * x.arg(1)
    return None


def _power(a, b):
    if isinstance(b, int) and 0 <= b <= 8:
        r = 1
        for _ in range(b):
            r = a * r
        return r
    if a == 2 and not isinstance(a, Sym) and isinstance(b, SInt):
        if cur.choose(b.t < 0):
            raise Unsupported("negative power of two")
        return mk_pow2(b.t)
    raise Unsupported(f"power {a!r} ** {b!r}")


def _cmp(op, a, b):
    ka, kb = _num_kind(a), _num_kind(b)
    if not ka or not kb:
        if op == "==":
            return False
        if op == "!=":
            return True
        return NotImplemented
    k = max(ka, kb)
    if k == 3:
        a, b = SComplex.of(a), SComplex.of(b)
        e = z3.And(a.re == b.re, a.im == b.im)
        if op == "==":
            return mkbool(e)
        if op == "!=":
            return mkbool(z3.Not(e))
        raise TypeError("complex numbers are not ordered")
    inf = next((v for v in (a, b) if isinstance(v, float) and v in (float("inf"), float("-inf"))), None)
    if inf is not None:
        # symbolic numbers are finite
        x, y = (a if a is inf else 0.0), (b if b is inf else 0.0)
        return eval(f"x {op} y")
    x, y = (toint(a), toint(b)) if k == 1 else (toreal(a), toreal(b))
    return mkbool({"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op])


def _mk_ops(cls, ops):
    for name, op in ops:
        setattr(cls, f"__{name}__", (lambda op: lambda self, o: _arith(op, self, o))(op))
        setattr(cls, f"__r{name}__", (lambda op: lambda self, o: _arith(op, o, self))(op))
    for name, op in (("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
        setattr(cls, f"__{name}__", (lambda op: lambda self, o: _cmp(op, self, o))(op))


_OPS = [("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("floordiv", "//"), ("mod", "%"), ("pow", "**")]


class SInt(Sym):
    __slots__ = ()

    def __neg__(self):
        return mkint(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.t >= 0, self.t, -self.t))

    def __bool__(self):
        return cur.choose(self.t != 0)

    def __index__(self):
        raise Unsupported("symbolic integer used as a native index")

    real = property(lambda self: self)
    imag = property(lambda self: 0)

    def conjugate(self):
        return self

    def __rshift__(self, k):
        if not is_int(k) or isinstance(k, (bool, SBool)):
            return NotImplemented
        from . import bits

        return bits.Shifted(self.t, toint(k))

    def __lshift__(self, k):
        return _shift_left(self, k)

    def __rlshift__(self, k):
        return _shift_left(k, self)

    def __and__(self, o):
        """only x & (x - 1): x without its last one"""
        if not is_int(o) or isinstance(o, (bool, SBool)):
            return NotImplemented
        a, b = z3.simplify(self.t), z3.simplify(toint(o))
        d = z3.simplify(a - b)
        if not (z3.is_int_value(d) and abs(d.as_long()) == 1):
            raise Unsupported("bitwise and of symbolic numbers")
        x = a if d.as_long() == 1 else b
        if not cur.choose(x >= 1):
            if cur.valid(x == 0):
                return 0
            raise Unsupported("bitwise and of symbolic numbers that may be negative")
        if _is_pow2(x) and cur.valid(x.arg(0) >= 0):
            return 0
        r = _cut(x)
        cur.add(z3.And(r >= 0, r < x, ONES(x) >= 1, (r == 0) == (ONES(x) == 1)))
        return SInt(r)

    __rand__ = __and__

    def bit_length(self):
        t = z3.simplify(self.t)
        if z3.is_app(t) and t.decl().name() == "pow2" and cur.valid(t.arg(0) >= 0):
            return mkint(t.arg(0) + 1)
        facts = getattr(cur, "digit_facts", None)
        if facts is not None and cur.valid(t >= 1):
            facts(t)
            return mkint(DIGITS(t))
        raise Unsupported("bit_length of a symbolic number")


ONES = z3.Function("ones in binary", z3.IntSort(), z3.IntSort())
DIGITS = z3.Function("binary digits", z3.IntSort(), z3.IntSort())
_cut = z3.Function("without its last one", z3.IntSort(), z3.IntSort())


def _shift_left(a, k):
    if not is_int(a) or not is_int(k) or isinstance(a, (bool, SBool)) or isinstance(k, (bool, SBool)):
        return NotImplemented
    if not cur.choose(toint(k) >= 0):
        raise ValueError("negative shift count")
    return a * mk_pow2(k if isinstance(k, int) else k.t)


class SReal(Sym):
    __slots__ = ()

    def __neg__(self):
        return mkreal(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkreal(z3.If(self.t >= 0, self.t, -self.t))

    def __bool__(self):
        return cur.choose(self.t != 0)

    def __float__(self):
        raise Unsupported("symbolic real used as a native float")

    real = property(lambda self: self)
    imag = property(lambda self: 0.0)

    def conjugate(self):
        return self


class SBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return cur.choose(self.t)

    def __and__(self, o):
        return mkbool(z3.And(self.t, zbool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.t, zbool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SInt) or not isinstance(o, (bool, SBool)):
            return NotImplemented
        return mkbool(z3.Xor(self.t, zbool(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.t))


class SComplex:
    """pair of real terms"""

    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = z3.simplify(re), z3.simplify(im)

    @staticmethod
    def of(x):
        if isinstance(x, SComplex):
            return x
        import numpy as np

        if isinstance(x, (complex, np.complexfloating)):
            return SComplex(_frac(float(x.real)), _frac(float(x.imag)))
        return SComplex(toreal(x), z3.RealVal(0))

    real = property(lambda self: SReal(self.re))
    imag = property(lambda self: SReal(self.im))

    def conjugate(self):
        return SComplex(self.re, -self.im)

    def __neg__(self):
        return SComplex(-self.re, -self.im)

    def __bool__(self):
        return cur.choose(z3.Or(self.re != 0, self.im != 0))

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")

    def __repr__(self):
        return f"<{self.re} + {self.im} i>"

    def __abs__(self):
        """the modulus: non-negative, with the right square"""
        r = MODULUS(z3.simplify(self.re), z3.simplify(self.im))
        cur.add(z3.And(r >= 0, r * r == self.re * self.re + self.im * self.im))
        return SReal(r)


_mk_ops(SInt, _OPS)
_mk_ops(SReal, _OPS)
_mk_ops(SComplex, [("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("pow", "**")])
SInt.__hash__ = SReal.__hash__ = SComplex.__hash__ = SBool.__hash__ = Sym.__hash__
SBool.__eq__ = lambda self, o: mkbool(self.t == zbool(o)) if isinstance(o, (bool, SBool)) else _cmp("==", SInt(toint(self)), o)
SBool.__ne__ = lambda self, o: mkbool(z3.Not(zbool(self == o)))
for _n, _o in _OPS:
    setattr(SBool, f"__{_n}__", (lambda op: lambda self, o: _arith(op, SInt(toint(self)), o))(_o))
    setattr(SBool, f"__r{_n}__", (lambda op: lambda self, o: _arith(op, o, SInt(toint(self))))(_o))


# -------------------------------------------------------------------- text
class SStr:
    """text with symbolic parts: a tuple of literal strings and opaque pieces ("str", value)"""

    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SStr):
                out.extend(p.parts)
            elif isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif not (isinstance(p, str) and p == ""):
                out.append(p)
        merged = []
        for p in out:
            if isinstance(p, str) and merged and isinstance(merged[-1], str):
                merged[-1] += p
            else:
                merged.append(p)
        self.parts = tuple(merged)

    def __add__(self, o):
        return SStr([self, o]) if isinstance(o, (str, SStr)) else NotImplemented

    def __radd__(self, o):
        return SStr([o, self]) if isinstance(o, (str, SStr)) else NotImplemented

    def __hash__(self):
        raise Unsupported("hash of symbolic text")

    def __eq__(self, o):
        from .values import eqv

        if isinstance(o, (str, SStr)):
            return mkbool(eqv(self, o))
        return False

    def __ne__(self, o):
        return mkbool(z3.Not(zbool(self == o)))

    def __repr__(self):
        return "SStr" + repr(self.parts)

    __str__ = __repr__


def mkstr(parts):
    s = SStr(parts)
    if all(isinstance(p, str) for p in s.parts):
        return "".join(s.parts)
    return s

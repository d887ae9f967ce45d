"""Runs the obligations of vc/proof/cNN.py:  python -m vc.pyvc.driver C01 quick out.json

An obligation is a function of a context `cx`; it is executed on every feasible path.  It builds symbolic inputs,
calls functions of the repository (interpreted from their current source) and states conditions with cx.prove, which
the solver must accept.  It is discharged when every path ends normally with every condition accepted and at least one
path is satisfiable (vacuity check)."""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import core, values as V
from .core import *  # noqa: F401,F403
from .core import z3
from .values import *  # noqa: F401,F403
from .interp import Interp

REG = {}


class Ob:
    def __init__(self, prop, name, fn, text, timeout, tiers, replay, bounded, **opts):
        self.prop, self.name, self.fn, self.text, self.timeout, self.tiers, self.replay = prop, name, fn, text, timeout, tiers, replay
        self.bounded = bounded
        self.opts = opts


def obligation(prop, name=None, text=None, timeout=240, tiers=("quick", "thorough"), replay=None, bounded=None, **opts):
    """bounded: text of the bound when the obligation covers only part of the domain (never counted as proved)"""

    def deco(fn):
        ob = Ob(prop, name or fn.__name__, fn, text or (fn.__doc__ or "").strip(), timeout, tiers, replay, bounded, **opts)
        REG.setdefault(prop, {})[ob.name] = ob
        return fn

    return deco


def borrow(prop, mod, names=None, **opts):
    """obligations of another property's module that this property depends on as well; gives the list of trusted contracts they rest on"""
    import importlib

    m = importlib.import_module(f"vc.proof.{mod}")
    for n in names or [n for n, o in REG[mod.upper()].items() if o.fn.__module__.endswith(mod)]:
        o = REG[mod.upper()][n]
        text = o.text + " - the arguments and the receiver are not written" * bool(opts.get("frame"))
        REG.setdefault(prop, {})[f"{mod}_{n}"] = Ob(prop, f"{mod}_{n}", o.fn, text, o.timeout, o.tiers, o.replay, o.bounded, **{**o.opts, **opts})
    return list(getattr(m, "TRUSTED", []))


class Expected(Exception):
    pass


class Cx:
    def __init__(self, e, I):
        self.e, self.I = e, I
        self.trace = {}

    # inputs
    def int(self, name, lo=None, hi=None):
        v = SInt(z3.Int(name))
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def real(self, name):
        return SReal(z3.Real(name))

    def bool(self, name):
        return SBool(z3.Bool(name))

    def complex(self, name):
        return SComplex(z3.Real(name + ".re"), z3.Real(name + ".im"))

    def ints(self, name, n, cls=None):
        """list of n unknown integers (n symbolic)"""
        f = z3.Function(name, z3.IntSort(), z3.IntSort())
        v = V.index_var(name)
        return PyList((Fam(toint(n), v, SInt(f(v))),))

    def reals(self, name, n):
        f = z3.Function(name, z3.IntSort(), z3.RealSort())
        v = V.index_var(name)
        return PyList((Fam(toint(n), v, SReal(f(v))),))

    def objs(self, cls, n, *tag):
        """list of n unknown objects of an abstract class"""
        v = V.index_var("o")
        return PyList((Fam(toint(n), v, cls(*tag, v)),))

    def list(self, *xs):
        return PyList.of(xs)

    def forall(self, n, f):
        """assume f(j) for every 0 <= j < n"""
        v = V.index_var("a")
        t = f(SInt(v))
        self.e.add_qfact(toint(n), v, zbool(t))

    # actions
    frame = False

    def fixed(self, f, args, kw=()):
        """frame condition of the property on values: the call must not write its arguments and its receiver"""
        if self.frame:
            for x in [getattr(f, "__self__", None), *args, *(dict(kw).values())]:
                if x is not None and not type(x).__name__.endswith(("Simulator", "Runner")) and not isinstance(x, type):
                    freeze(self.I, x, "argument", True)

    def call(self, f, *args, **kw):
        self.fixed(f, args, kw)
        return self.I.call(f, list(args), kw)

    def body(self, f, *args, **kw):
        """run the body of a function under contract: recursive calls use the contract"""
        self.fixed(f, args, kw)
        self.I.open_once = f
        return self.I.call(f, list(args), kw)

    def star(self, f, seq, **kw):
        self.fixed(f, [seq], kw)
        return self.I.call_segs(f, list(self.I.iter_segs(seq)), kw)

    def get(self, o, name):
        self.fixed(None, [o])
        return self.I.getattr(o, name)

    def op(self, name, a, b):
        import ast

        self.fixed(None, [a, b])

        node = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "@": ast.MatMult, "**": ast.Pow, "%": ast.Mod, "//": ast.FloorDiv}[name]()
        return self.I.binop(node, a, b)

    def eq(self, a, b):
        self.fixed(None, [a, b])
        return self.I.py_eq(a, b)

    def raises(self, exc, f, *args, **kw):
        """the call must raise exc"""
        self.fixed(f, args, kw)
        try:
            r = self.I.call(f, list(args), kw)
        except exc:
            self.e.stats["proves"] += 1
            return
        self.prove(False, f"raises {getattr(exc, '__name__', exc)}")

    def attempt(self, f, *args, **kw):
        """('ok', value) or ('exc', exception)"""
        self.fixed(f, args, kw)
        try:
            return "ok", self.I.call(f, list(args), kw)
        except (EngineError, z3.Z3Exception):
            raise
        except Exception as ex:
            return "exc", ex

    def assume(self, c):
        self.e.assume(c)

    def prove(self, c, label="post"):
        if isinstance(c, (SBool,)):
            c = c.t
        self.e.prove(c, label)

    def same(self, a, b, label="equal"):
        """ghost equality"""
        c = V.eqv(a, b)
        self.e.prove(c, label)

    def len(self, v):
        return self.I.call(len, [v])

    def freeze(self, v, name="argument", deep=True):
        """frame condition: the object (and what it contains) must not be written"""
        freeze(self.I, v, name, deep)

    def choose(self, c):
        return self.I.truth(mkbool(c) if isinstance(c, z3.BoolRef) else c)

    def pick(self, k):
        return self.e.pick(k)

    def contract(self, f, model):
        self.I.contracts[f] = model

    def each(self, n, f, label="forall"):
        """prove f(j) for an arbitrary 0 <= j < n"""
        if not V.holds_generic(toint(n), lambda j: _tb(f(SInt(j)))):
            raise ProofFailed(label, "not valid at a generic index")
        self.e.stats["proves"] += 1


def _tb(c):
    return c.t if isinstance(c, SBool) else c


def freeze(I, v, name, deep, seen=None):
    seen = {} if seen is None else seen
    if id(v) in seen:
        return
    seen[id(v)] = v
    import numpy as np

    if isinstance(v, Cont):
        I.frozen[id(v)] = (v, name)
        if deep:
            for s in v.segs:
                _freeze_seg(I, s, name, seen)
    elif isinstance(v, np.ndarray) or isinstance(v, (list, dict, set)) or getattr(type(v), "__pyvc_value__", False):
        I.frozen[id(v)] = (v, name)
    elif V._is_repo_instance(v):
        I.frozen[id(v)] = (v, name)
        if deep:
            for k, x in v.__dict__.items():
                freeze(I, x, f"{name}.{k}", deep, seen)
    elif isinstance(v, tuple) and deep:
        for k, x in enumerate(v):
            freeze(I, x, f"{name}[{k}]", deep, seen)


def _freeze_seg(I, s, name, seen):
    if isinstance(s, One):
        freeze(I, s.v, name + "[.]", True, seen)
    elif isinstance(s, Fam):
        freeze(I, s.val, name + "[.]", True, seen)
    elif isinstance(s, (Flat, Guard)):
        for x in s.segs:
            _freeze_seg(I, x, name, seen)


def run_obligation(ob, tier):
    """-> result dict (never raises)"""
    t0 = time.time()
    sys.setrecursionlimit(30000)
    e = core.cur = Engine(timeout_ms=ob.opts.get("solver_ms", 20000))
    e.deadline = time.time() + ob.timeout
    e.tier = tier
    detail, status, model_txt, replayed = "", "discharged", None, None
    sat_paths = ok_paths = 0
    holder = {}
    try:
        I = Interp(e)
        if "max_while" in ob.opts:
            I.max_while = ob.opts["max_while"]
        if "set_order" in ob.opts:
            I.set_order_mode = ob.opts["set_order"]

        def body():
            I.frozen.clear()
            I.templ.clear()
            I.stamps.clear()
            cx = Cx(e, I)
            cx.frame = I.freeze_memo = bool(ob.opts.get("frame"))
            holder["cx"] = cx
            return ob.fn(cx)

        def handler():
            try:
                return body()
            except ProofFailed as p:
                # the path conditions at the point of failure
                p.path = [str(c) for c in (e.ctxs[-1].conds if e.ctxs else [])]
                raise

        for conds, facts, kind, v in e.explore(handler):
            if kind == "exc":
                tb = "".join(traceback.format_exception(type(v), v, v.__traceback__)[-int(os.environ.get("VC_TB", "6")):])
                last = traceback.extract_tb(v.__traceback__)[-1].filename
                if isinstance(v, z3.Z3Exception) or "/vc/proof/" in last and not isinstance(v, (ValueError, IndexError)):
                    raise RuntimeError(f"error in the proof script: {type(v).__name__}: {v}\n{tb}")
                r = e.check()
                if r == z3.unsat:
                    continue
                m = e.solver.model() if r == z3.sat else None
                raise_ = ProofFailed("no unexpected exception", f"{type(v).__name__}: {v}\n{tb}", m)
                raise_.path = [str(c) for c in conds]
                raise raise_
            ok_paths += 1
            if sat_paths < 3:
                if e.check() == z3.sat:
                    sat_paths += 1
        if not ok_paths:
            status, detail = "vacuous", "no feasible path"
        elif not sat_paths:
            status, detail = "vacuous", "no path was shown satisfiable"
        elif not e.stats["proves"]:
            status, detail = "vacuous", "nothing was proved"
    except ProofFailed as p:
        status = "refuted" if str(p.why) != "unknown (solver gave up)" else "unknown"
        detail = f"{p.label}: {p.why}"
        if p.model is not None:
            model_txt = {str(d): str(p.model[d]) for d in p.model.decls()[:60]}
        detail += "\n path: " + "; ".join(getattr(p, "path", []) or [])[:1500]
        if model_txt:
            detail += "\n counterexample: " + str(model_txt)[:1500]
        if ob.replay is not None and p.model is not None:
            try:
                replayed = ob.replay(p.model)
            except Exception as x:
                detail += f"\n replay failed: {type(x).__name__}: {x}"
    except Unsupported as u:
        status, detail = "unsupported", f"{u}\n" + "".join(traceback.format_tb(u.__traceback__)[-int(os.environ.get("VC_TB", "4")):])
    except RecursionError:
        status, detail = "unsupported", "recursion"
    except z3.Z3Exception as x:
        status, detail = "engine", f"{x}\n" + traceback.format_exc()[-3000:]
    except BaseException as x:
        status, detail = "engine", f"{type(x).__name__}: {x}\n" + traceback.format_exc()[-3000:]
    if status == "discharged" and ob.bounded:
        pass
    return dict(name=ob.name, status=status, backend="z3 " + z3.get_version_string(), paths=e.stats["paths"], local_paths=e.stats["local_paths"],
                queries=e.stats["queries"], loops=e.stats["loops"], proves=e.stats["proves"], solver_s=round(e.stats["solver_s"], 2),
                time_s=round(time.time() - t0, 2), detail=detail, replayed=replayed, text=ob.text, bounded=ob.bounded,
                labels=dict(e.labels), sat_paths=sat_paths, functions=sorted(e.functions), trusted=sorted(e.trusted), drops=sorted(e.drops))


def _worker(args):
    prop, name, tier = args
    return run_obligation(REG[prop][name], tier)


def load(prop):
    return importlib.import_module(f"vc.proof.{prop.lower()}")


def main():
    prop, tier, out = sys.argv[1:4]
    only = sys.argv[4:]
    mod = load(prop)
    names = [n for n, o in REG.get(prop, {}).items() if tier in o.tiers and (not only or n in only)]
    results = []
    limit = 560 if tier == "quick" else 2400
    t0 = time.time()
    procs = int(os.environ.get("VC_PROCS", "8"))
    if len(names) == 1 or procs == 1:
        results = [_worker((prop, n, tier)) for n in names]
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(min(procs, max(len(names), 1)), maxtasksperchild=1) as pool:
            jobs = {n: pool.apply_async(_worker, ((prop, n, tier),)) for n in sorted(names, key=lambda n: -REG[prop][n].opts.get("cost", 1))}
            for n in names:
                left = max(1, limit - (time.time() - t0))
                try:
                    results.append(jobs[n].get(left))
                except mp.TimeoutError:
                    results.append(dict(name=n, status="timeout", backend="z3", detail="time limit of the layer", paths=0, queries=0, time_s=limit,
                                        functions=[], trusted=[], drops=[], labels={}, sat_paths=0, bounded=None, text=REG[prop][n].text))
            pool.terminate()
    trusted = sorted({t for r in results for t in r["trusted"]} | set(getattr(mod, "TRUSTED", [])))
    d = dict(
        obligations=[{k: r.get(k) for k in ("name", "status", "backend", "paths", "local_paths", "queries", "proves", "time_s", "solver_s", "detail", "replayed", "text", "bounded")} for r in results],
        trusted=trusted,
        functions=sorted({f for r in results for f in r["functions"]}),
        drops=sorted({x for r in results for x in r["drops"]}),
        vacuity=[f"{r['name']}: {r['sat_paths']} satisfiable paths witnessed, {sum(r['labels'].values())} conditions proved" for r in results],
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + ["Python numbers are mathematical integers / reals (no overflow, no rounding) inside the proofs"],
    )
    json.dump(d, open(out, "w"), default=str)
    for r in results:
        print(f"{r['name']:40s} {r['status']:12s} paths={r['paths']} local={r.get('local_paths')} queries={r['queries']} proves={r.get('proves')} {r['time_s']}s" + ("" if r["status"] == "discharged" else "\n    " + r["detail"][:3000]))


if __name__ == "__main__":
    # run as the module the proofs import
    from vc.pyvc import driver

    driver.main()

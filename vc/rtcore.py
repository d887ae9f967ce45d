"""Layer B: run-time checking of contracts on the real, uninstrumented code.

A contract is a function taking a Ctx.  It draws one input from ctx.rng (seeded only by the property's
VERIF_SEED, the contract name and the case index), calls the real code and states what must hold with
ctx.require / ctx.eq.  A case is identified by (contract, seed, index) and can be replayed."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import re
import signal
import sys
import threading
import time
import traceback
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

REG = {}


class Contract:
    def __init__(self, prop, name, fn, n, thorough_n, enum, desc):
        self.prop, self.name, self.fn = prop, name, fn
        self.n, self.thorough_n, self.enum, self.desc = n, thorough_n, enum, desc

    def count(self, tier):
        if self.enum is not None:
            return len(self.cases(tier))
        return self.n if tier == "quick" else self.thorough_n

    def cases(self, tier):
        key = "_cases_" + tier
        if not hasattr(self, key):
            setattr(self, key, list(self.enum(tier)))
        return getattr(self, key)


def contract(prop, n=200, thorough=None, enum=None, name=None):
    """n / thorough: number of seeded cases per tier.  enum: function(tier) -> list of enumerated cases."""

    def deco(fn):
        nm = name or fn.__name__
        REG.setdefault(prop, {})[nm] = Contract(
            prop, nm, fn, n, thorough if thorough is not None else n * 25, enum, fn.__doc__
        )
        return fn

    return deco


class Failed(Exception):
    pass


class Skip(Exception):
    pass


class _Timeout(BaseException):
    pass


class _Endless(BaseException):
    pass


CASE_SECONDS = 60


class Ctx:
    def __init__(self, c, seed, index, tier):
        h = hashlib.sha256(f"{c.prop}/{c.name}/{seed}/{index}".encode()).digest()
        self.rng = random.Random(int.from_bytes(h[:8], "big"))
        self._npseed = int.from_bytes(h[8:12], "big")
        self._nprng = None
        self.index, self.tier, self.seed = index, tier, seed
        self.case = c.cases(tier)[index] if c.enum is not None else None
        self.notes = {}
        self.nontrivial = True
        self.klass = None  # class of input, used to match known findings

    @property
    def np(self):
        if self._nprng is None:
            import numpy

            self._nprng = numpy.random.default_rng(self._npseed)
        return self._nprng

    def note(self, **kw):
        for k, v in kw.items():
            self.notes[k] = short(v)

    def trivial(self):
        self.nontrivial = False

    def require(self, cond, msg="contract violated", **kw):
        if not cond:
            self.note(**kw)
            raise Failed(msg)

    def eq(self, a, b, msg="values differ"):
        if not (a == b):
            raise Failed(f"{msg}: got {short(a)}, expected {short(b)}")

    def close(self, a, b, msg="values differ", tol=1e-8):
        import numpy as np

        a = np.asarray(a, dtype=complex)
        b = np.asarray(b, dtype=complex)
        if a.shape != b.shape:
            raise Failed(f"{msg}: shapes {a.shape} vs {b.shape}")
        scale = max(1.0, float(np.max(np.abs(b))) if b.size else 1.0)
        if not (np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= tol * scale)):
            raise Failed(f"{msg}: got {short(a)}, expected {short(b)}")

    def raises(self, exc, fn, msg="call must be rejected"):
        try:
            r = fn()
        except exc:
            return
        except Exception as e:
            raise Failed(f"{msg}: raised {type(e).__name__}: {short(e)}")
        raise Failed(f"{msg}: returned {short(r)}")

    def skip(self):
        raise Skip()

    def limited(self, seconds, fn):
        """run fn with a CPU-time limit; a case that exceeds it (or memory) is skipped, never a verdict"""
        import signal

        def h(*_):
            raise _Timeout()

        old = signal.signal(signal.SIGVTALRM, h)
        signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
        try:
            return fn()
        except (_Timeout, MemoryError):
            raise Skip()
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)


def short(x, n=600):
    try:
        s = x if isinstance(x, str) else repr(x)
    except Exception as e:
        s = f"<unprintable {type(x).__name__}: {e}>"
    return s if len(s) <= n else s[: n - 3] + "..."


def run_case(c, seed, index, tier):
    """-> (status, ctx, message); status in ok/skip/fail"""
    ctx = Ctx(c, seed, index, tier)
    import numpy as np

    np.random.seed(ctx._npseed % (2**32))
    random.seed(ctx._npseed)
    # a call that never returns is a failed contract, not a hanging check (processor time; the slowest
    # case on the unchanged tree needs a few seconds)
    armed = threading.current_thread() is threading.main_thread()
    if armed:
        def late(*_):
            raise _Endless()

        old = signal.signal(signal.SIGPROF, late)
        signal.setitimer(signal.ITIMER_PROF, CASE_SECONDS)
    try:
        c.fn(ctx)
        return "ok", ctx, None
    except _Endless:
        return "fail", ctx, f"no result after {CASE_SECONDS} s of processor time"
    except Skip:
        return "skip", ctx, None
    except Failed as e:
        return "fail", ctx, str(e)
    except RecursionError as e:
        return "fail", ctx, "unexpected RecursionError"
    except MemoryError:
        return "fail", ctx, "out of memory"
    except Exception as e:
        tb = traceback.format_exc()
        return "fail", ctx, f"unexpected {type(e).__name__}: {short(e)}\n{tb[-3000:]}"
    finally:
        if armed:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, old)


def _shard(args):
    modname, prop, name, seed, lo, hi, tier, deadline = args
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    importlib.import_module(modname)
    c = REG[prop][name]
    out = dict(name=name, run=0, skipped=0, nontrivial=0, keys=set(), fails=[], samples=[], cut=False)
    for i in range(lo, hi):
        if time.time() > deadline:
            out["cut"] = True
            break
        st, ctx, msg = run_case(c, seed, i, tier)
        if st == "skip":
            out["skipped"] += 1
            continue
        out["run"] += 1
        if ctx.nontrivial:
            out["nontrivial"] += 1
            out["keys"].add(hashlib.sha1(json.dumps(ctx.notes, sort_keys=True).encode()).hexdigest()[:16]
                            if ctx.notes else f"#{i}")
        if len(out["samples"]) < 1 and ctx.notes:
            out["samples"].append({"contract": name, "index": i, **ctx.notes})
        if st == "fail":
            out["fails"].append(dict(contract=name, index=i, seed=seed, message=msg, notes=ctx.notes, klass=ctx.klass))
            if len(out["fails"]) >= 60 or msg == "out of memory" or msg.startswith("no result after"):
                break
    return out


def load(prop):
    return importlib.import_module(f"vc.rt.{prop.lower()}")


def run_property(prop, seed, tier, only=None, budget=None, procs=None):
    mod = load(prop)
    contracts = [c for n, c in REG.get(prop, {}).items() if only is None or n in only]
    procs = procs or int(os.environ.get("VERIF_PROCS", "8"))
    budget = budget or (150 if tier == "quick" else 1500)
    deadline = time.time() + budget
    jobs = []
    for c in contracts:
        n = c.count(tier)
        step = max(1, (n + procs * 2 - 1) // (procs * 2))
        for lo in range(0, n, step):
            jobs.append((mod.__name__, prop, c.name, seed, lo, min(n, lo + step), tier, deadline))
    results = []
    if procs == 1:
        results = [_shard(j) for j in jobs]
    else:
        import concurrent.futures as cf

        with cf.ProcessPoolExecutor(procs, mp_context=mp.get_context("fork")) as ex:
            futures = [ex.submit(_shard, j) for j in jobs]
            for j, f in zip(jobs, futures):
                try:
                    results.append(f.result())
                except cf.process.BrokenProcessPool:
                    results.append(dict(name=j[2], run=0, skipped=0, nontrivial=0, keys=set(), samples=[], cut=True,
                                        fails=[dict(contract=j[2], index=j[4], seed=seed, notes={}, klass=None,
                                                    message="the process running this contract died")]))
    summary = dict(evaluations=0, skipped=0, nontrivial=0, distinct=0, contracts={}, samples=[], fails=[], cut=[])
    keys = {}
    for r in results:
        d = summary["contracts"].setdefault(r["name"], 0)
        summary["contracts"][r["name"]] = d + r["run"]
        summary["evaluations"] += r["run"]
        summary["skipped"] += r["skipped"]
        summary["nontrivial"] += r["nontrivial"]
        keys.setdefault(r["name"], set()).update(r["keys"])
        if r["samples"] and sum(s["contract"] == r["name"] for s in summary["samples"]) < 1:
            summary["samples"] += r["samples"][:1]
        summary["fails"] += r["fails"]
        if r["cut"] and r["name"] not in summary["cut"]:
            summary["cut"].append(r["name"])
    summary["distinct"] = sum(map(len, keys.values()))
    return summary

"""pyvc interpreter: executes the functions of the repository, read from their source on every run, on values that may
be symbolic.  Code outside the repository is called natively on concrete arguments and through contract shims
(shims.py) on symbolic ones."""
import ast
import contextlib
import builtins
import dataclasses
import functools
import inspect
import operator
import os
import types

from . import core
from .core import *  # noqa: F401,F403
from .core import z3
from .values import *  # noqa: F401,F403
from .values import _is_repo_instance
from . import values as V

import orquestra.quantum as _oq

ROOTS = [os.path.realpath(p) for p in _oq.__path__]


def is_repo_file(fn):
    fn = os.path.realpath(fn) if fn else ""
    return any(fn.startswith(r + os.sep) for r in ROOTS)


_trees = {}


def tree_of(filename):
    filename = os.path.realpath(filename)
    if filename not in _trees:
        src = open(filename).read()
        t = ast.parse(src, filename)
        index = {}
        for node in ast.walk(t):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = min([node.lineno] + [d.lineno for d in node.decorator_list])
                index[(line, node.name)] = node
            elif isinstance(node, ast.Lambda):
                index[(node.lineno, "<lambda>", node.col_offset)] = node
        _trees[filename] = (t, index)
    return _trees[filename]


def node_of(fn):
    code = fn.__code__
    _, index = tree_of(code.co_filename)
    n = index.get((code.co_firstlineno, code.co_name))
    if n is not None:
        return n
    if code.co_name == "<lambda>":
        cands = [v for k, v in index.items() if k[0] == code.co_firstlineno and k[1] == "<lambda>"]
        if len(cands) > 1:
            # several lambdas on the line: match the argument names, then the code positions
            cols = [p[2] for p in code.co_positions() if p[2] is not None and p[0] is not None]
            cands = [c for c in cands if any(c.body.col_offset <= x < (c.body.end_col_offset or 10**9) for x in cols)]
        if len(cands) == 1:
            return cands[0]
    raise Unsupported(f"no source for {fn.__qualname__}")


_PYLIB = os.path.realpath(os.path.join(os.path.dirname(__file__), "pylib.py"))


def is_repo_function(f):
    return isinstance(f, types.FunctionType) and (is_repo_file(f.__code__.co_filename) or os.path.realpath(f.__code__.co_filename) == _PYLIB)


def is_repo_class(c):
    return isinstance(c, type) and getattr(c, "__module__", "").startswith("orquestra")


_PROTO = {}


class Env:
    __slots__ = ("vars", "parent", "glob", "cells", "nonlocals", "stamp", "fn", "self_arg", "yields", "cls")

    def __init__(self, parent=None, glob=None, cells=None, fn=None):
        self.vars, self.parent, self.fn = {}, parent, fn
        self.glob = glob if glob is not None else (parent.glob if parent else {})
        self.cells = cells or {}
        self.nonlocals = set()
        core.cur.stamp += 1
        self.stamp = core.cur.stamp
        self.yields = None
        self.self_arg = parent.self_arg if parent else None
        self.cls = parent.cls if parent else None


class IFunc:
    """function or lambda defined inside interpreted code"""

    def __init__(self, node, env, interp, defaults, kw_defaults):
        self.node, self.env, self.interp = node, env, interp
        self.defaults, self.kw_defaults = defaults, kw_defaults
        self.__name__ = getattr(node, "name", "<lambda>")

    def __call__(self, *a, **k):
        return self.interp.call(self, list(a), k)


class BoundShim:
    __slots__ = ("fn", "obj")

    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj

    def __call__(self, *a, **k):
        return self.fn(INTERP[0], self.obj, *a, **k)


INTERP = [None]
_MANAGER_CODE = contextlib.contextmanager(lambda: None).__code__


class ManagerCall:
    """call of a generator function decorated with contextlib.contextmanager"""

    __pyvc_value__ = True

    def __init__(self, f, segs, kwargs):
        self.f, self.segs, self.kwargs = f, segs, kwargs


class WithHook:
    """the block of a with statement, run at the yield of the context manager"""

    def __init__(self, run, depth):
        self.run, self.depth, self.count, self.sig = run, depth, 0, None

    def fire(self, I, v):
        if len(I.explore_stamp) != self.depth:
            raise Unsupported("context manager that yields in a loop")
        self.count += 1
        if self.count > 1:
            raise RuntimeError("generator didn't stop")
        self.sig = self.run(v)


_is_gen_cache = {}


def is_generator_node(node):
    if node not in _is_gen_cache:
        found = False
        stack = list(node.body) if isinstance(node.body, list) else [node.body]
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                found = True
                break
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)):
                continue
            stack.extend(ast.iter_child_nodes(x))
        _is_gen_cache[node] = found
    return _is_gen_cache[node]


class Ret(Exception):
    pass


BREAK, CONT = ("break",), ("continue",)

_BIN = {
    ast.Add: ("add", operator.add), ast.Sub: ("sub", operator.sub), ast.Mult: ("mul", operator.mul),
    ast.Div: ("truediv", operator.truediv), ast.FloorDiv: ("floordiv", operator.floordiv), ast.Mod: ("mod", operator.mod),
    ast.Pow: ("pow", operator.pow), ast.MatMult: ("matmul", operator.matmul), ast.BitAnd: ("and", operator.and_),
    ast.BitOr: ("or", operator.or_), ast.BitXor: ("xor", operator.xor), ast.LShift: ("lshift", operator.lshift),
    ast.RShift: ("rshift", operator.rshift),
}
_CMP = {ast.Lt: ("lt", "gt", operator.lt), ast.LtE: ("le", "ge", operator.le), ast.Gt: ("gt", "lt", operator.gt), ast.GtE: ("ge", "le", operator.ge)}


class Interp:
    def __init__(self, eng):
        self.e = eng
        eng.interp = self
        INTERP[0] = self
        self.open_once = None  # a function under contract whose body is the subject (the calls inside it use the contract)
        self.contracts = {}  # function object -> python callable(interp, args, kwargs) used instead of the body
        self.shims = {}
        self.stamps = {}  # id(repo instance) -> (stamp, obj)
        self.templ = {}
        self.frozen = {}  # id -> (obj, name): objects that must not be written
        self.calls = 0
        self.with_hook = None
        self.freeze_memo = False
        self.explore_stamp = [0]
        self.max_while = 64
        from . import shims

        shims.install(self)

    # ------------------------------------------------------------------ frames / writes
    def setvar(self, env, name, v):
        if name in env.nonlocals:
            p = env.parent
            while p is not None and name not in p.vars:
                p = p.parent
            if p is None:
                raise Unsupported("nonlocal not found")
            env = p
        if name in env.vars and env.vars[name] is v:
            return
        if env.stamp <= self.explore_stamp[-1]:
            self.e.log(VarLog(env, name))
        env.vars[name] = v

    def setvar_env(self, env, name, v):
        if env.stamp <= self.explore_stamp[-1]:
            self.e.log(VarLog(env, name))
        env.vars[name] = v

    def to_native_index(self, k):
        if isinstance(k, slice):
            return slice(*(None if x is None else operator.index(x) for x in (k.start, k.stop, k.step)))
        if isinstance(k, tuple):
            return tuple(self.to_native_index(x) for x in k)
        if isinstance(k, SInt) or isinstance(k, SBool):
            return k
        return self.to_native(k)

    def setattr_raw(self, obj, name, v):
        if id(obj) in self.frozen and not self.unobservable(obj, name, v):
            self.frame_violation(obj, name)
        if id(obj) in self.templ:
            raise Unsupported("write to an element of a symbolic family")
        st = self.stamps.get(id(obj), (0,))[0]
        if not hasattr(obj, "__dict__"):
            raise Unsupported(f"attribute write on {type(obj).__name__}")
        if name in obj.__dict__ and obj.__dict__[name] is v:
            return
        if st <= self.explore_stamp[-1]:
            self.e.log(AttrWrite(obj, name))
        obj.__dict__[name] = v

    def unobservable(self, obj, name, v):
        """writes that leave the object observably as it was: an attribute replaced by an equal value, or a new private attribute (a cache; what
        is read from it later is evaluated like any other read)"""
        old = obj.__dict__.get(name, obj)
        if old is obj:
            if name.startswith("_") and not hasattr(type(obj), name):
                self.e.drops.add("new private attributes of arguments are caches")
                return True
            return False
        try:
            return type(force(old)) is type(force(v)) and self.e.valid(zbool(V.eqv(old, v)))
        except Unsupported:
            return False

    def frame_violation(self, obj, name=None):
        what = self.frozen.get(id(obj), (None, "argument"))[1]
        raise ProofFailed("frame", f"write to {what}" + (f".{name}" if name else ""))

    def new_instance(self, cls):
        o = object.__new__(cls)
        self.e.stamp += 1
        self.stamps[id(o)] = (self.e.stamp, o)
        return o

    # ------------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        if all(not isinstance(a, V.Cont) or not isinstance(a, _Star) for a in args):
            return self.call_segs(f, [One(a) for a in args], kwargs)
        return self.call_segs(f, args, kwargs)

    def call_segs(self, f, segs, kwargs):
        """segs: argument segments (families only through *-arguments)"""
        self.calls += 1
        f = force(f)
        if isinstance(f, Poison):
            raise f.error()
        conc = all(isinstance(s, One) for s in segs)
        try:
            c = self.contracts.get(f)
        except (TypeError, EngineError):
            c = None
        if c is not None and self.open_once is f:
            self.open_once, c = None, None
        if c is not None:
            return c(self, *[force(s.v) for s in segs], **kwargs)
        try:
            s = self.shims.get(f)
        except (TypeError, EngineError):
            s = None
        if s is not None:
            if not conc:
                if f is zip:
                    from .shims import zip_columns

                    return PyIter(zip_columns(self, segs))
                if getattr(s, "stars", False):
                    return s(self, segs, **kwargs)
                if f in (max, min) and (sum(isinstance(x, One) for x in segs) > 1 or self.e.choose(V.segs_len(segs) > 1)):
                    return s(self, PyTuple(tuple(segs)), **kwargs)
                return s(self, *_star_args(segs), **kwargs)
            return s(self, *[force(x.v) for x in segs], **kwargs)
        if isinstance(f, IFunc):
            return self.run_function(f.node, segs, kwargs, f.defaults, f.kw_defaults, Env(f.env))
        if isinstance(f, types.MethodType) and (hasattr(f.__self__, "__pyvc_value__") or isinstance(f.__self__, (Abs, Sym, SComplex))) and not is_repo_function(f.__func__) and conc:
            return f(*[force(x.v) for x in segs], **kwargs)
        if isinstance(f, types.MethodType):
            return self.call_segs(f.__func__, [One(f.__self__)] + list(segs), kwargs)
        if isinstance(f, BoundShim):
            if not conc:
                raise Unsupported("symbolic star arguments for a container method")
            return f.fn(self, f.obj, *[force(s.v) for s in segs], **kwargs)
        if isinstance(f, functools.partial):
            return self.call_segs(f.func, [One(a) for a in f.args] + list(segs), {**f.keywords, **kwargs})
        if is_repo_function(f):
            if f.__module__.startswith("orquestra"):
                self.e.functions.add(f"{f.__module__}.{f.__qualname__}")
            node = node_of(f)
            cells = {}
            if f.__closure__:
                for name, cell in zip(f.__code__.co_freevars, f.__closure__):
                    try:
                        cells[name] = cell.cell_contents
                    except ValueError:
                        pass
            env = Env(None, f.__globals__, cells, f)
            return self.run_function(node, segs, kwargs, f.__defaults__ or (), f.__kwdefaults__ or {}, env, f)
        if hasattr(f, "__pyvc_call__"):
            return f.__pyvc_call__(self, segs, kwargs)
        if hasattr(f, "registry") and hasattr(f, "dispatch") and isinstance(f, types.FunctionType):
            return self.call_singledispatch(f, segs, kwargs)
        if hasattr(f, "cache_info") and hasattr(f, "__wrapped__"):
            self.e.drops.add("lru_cache memoisation is transparent")
            r = self.call_segs(f.__wrapped__, segs, kwargs)
            if self.freeze_memo:
                from .driver import freeze

                freeze(self, r, "memoised value", True)
            return r
        if hasattr(f, "__wrapped__") and isinstance(f, types.FunctionType):
            if f.__code__ is _MANAGER_CODE:
                return ManagerCall(f.__wrapped__, segs, kwargs)
            raise Unsupported(f"decorated function {f.__qualname__}")
        if isinstance(f, type):
            return self.instantiate(f, segs, kwargs)
        if isinstance(f, types.FunctionType) or isinstance(f, types.BuiltinFunctionType) or callable(f):
            if not isinstance(f, (types.FunctionType, types.BuiltinFunctionType)):
                m = self.find_method(type(f), "__call__")
                if m is not None and is_repo_function(m):
                    return self.call_segs(m, [One(f)] + list(segs), kwargs)
            if not conc:
                raise Unsupported(f"native call of {f!r} with symbolic arguments")
            return self.native(f, [force(s.v) for s in segs], kwargs)
        raise TypeError(f"{type(f).__name__!r} object is not callable")

    def native(self, f, args, kwargs):
        owner = getattr(f, "__self__", None)
        if isinstance(owner, (Abs, Sym, SComplex)) or hasattr(owner, "__pyvc_value__") or getattr(f, "__pyvc_native__", False):
            return f(*args, **kwargs)
        if isinstance(owner, (list, dict, set)) and f.__name__ in _MUTATORS:
            if id(owner) in self.frozen:
                self.frame_violation(owner)
            raise Unsupported(f"mutation of a native container by {f.__name__}")
        if isinstance(owner, str) and f.__name__ == "join":
            return self.str_join(owner, *args)
        a = [self.to_native(x) for x in args]
        k = {n: self.to_native(x) for n, x in kwargs.items()}
        self.e.trusted.add(f"native: {getattr(f, '__module__', None) or ''}.{getattr(f, '__qualname__', getattr(f, '__name__', repr(f)))}")
        r = f(*a, **k)
        return self.from_native(r)

    def str_join(self, sep, it):
        segs = self.iter_segs(it)
        if not all(isinstance(s, One) for s in segs):
            return SStr([("join", sep, PyTuple(segs))])
        parts = []
        for j, s in enumerate(segs):
            if j:
                parts.append(sep)
            parts.append(force(s.v))
        for p in parts:
            if not isinstance(p, (str, SStr)):
                raise TypeError("sequence item: expected str instance")
        return mkstr(parts)

    def to_native(self, v, depth=0):
        v = force(v)
        if v is None or isinstance(v, (bool, int, float, complex, str, bytes, type)):
            return v
        if isinstance(v, (Sym, SComplex, SStr, Abs, Poison)):
            raise Unsupported(f"symbolic value {v!r} passed to native code")
        if getattr(v, "__pyvc_value__", False):
            raise Unsupported(f"engine value {type(v).__name__} passed to native code")
        if isinstance(v, PyDict):
            import collections

            d = {self.to_native(k): self.to_native(x) for k, x in v.items_()}
            if v.counter:
                return collections.Counter(d)
            return d
        if isinstance(v, PyFrozenSet):
            return frozenset(self.to_native(x) for x in v.items_())
        if isinstance(v, PySet):
            return {self.to_native(x) for x in v.items_()}
        if isinstance(v, PyTuple):
            return tuple(self.to_native(x) for x in v.items_())
        if isinstance(v, PyIter):
            return iter([self.to_native(x) for x in v.items_()])
        if isinstance(v, PyList):
            return [self.to_native(x) for x in v.items_()]
        if isinstance(v, tuple) and type(v) is tuple:
            return tuple(self.to_native(x) for x in v)
        if isinstance(v, list):
            return [self.to_native(x) for x in v]
        if isinstance(v, dict) and type(v) is dict:
            return {self.to_native(k): self.to_native(x) for k, x in v.items()}
        return v

    def from_native(self, v):
        if type(v) is list:
            return PyList.of([self.from_native(x) for x in v])
        if type(v) is tuple:
            return tuple(self.from_native(x) for x in v)
        if type(v) is dict:
            return PyDict.of([(k, self.from_native(x)) for k, x in v.items()])
        if type(v) is set:
            return PySet.of(list(v))
        return v

    def call_singledispatch(self, f, segs, kwargs):
        if not segs or not isinstance(segs[0], One):
            raise Unsupported("dispatch on a symbolic argument list")
        x = force(segs[0].v)
        segs = [One(x)] + list(segs[1:])
        cls = self.class_of(x)
        return self.call_segs(f.dispatch(cls), segs, kwargs)

    def class_of(self, x):
        if isinstance(x, SBool):
            return bool
        if isinstance(x, SInt):
            return int
        if isinstance(x, SReal):
            return float
        if isinstance(x, SComplex):
            return complex
        if isinstance(x, SStr):
            return str
        if isinstance(x, PyDict):
            import collections

            return collections.Counter if x.counter else dict
        if isinstance(x, PyFrozenSet):
            return frozenset
        if isinstance(x, PySet):
            return set
        if isinstance(x, PyTuple):
            return tuple
        if isinstance(x, PyList):
            return list
        if isinstance(x, (PyIter,)):
            return types.GeneratorType
        if isinstance(x, IFunc):
            return types.FunctionType
        c = getattr(x, "__pyvc_class__", None)
        if c is not None:
            return c(self)
        if isinstance(x, Abs):
            if len(x._pyclasses) == 1:
                return x._pyclasses[0]
            raise Unsupported(f"type of abstract {type(x).__name__}")
        return type(x)

    def find_method(self, cls, name):
        for k in cls.__mro__:
            if name in k.__dict__:
                return k.__dict__[name]
        return None

    def instantiate(self, cls, segs, kwargs):
        if not is_repo_class(cls) or issubclass(cls, (BaseException,)):
            if not all(isinstance(s, One) for s in segs):
                raise Unsupported(f"construction of {cls.__name__} from symbolic arguments")
            if issubclass(cls, BaseException):
                args = [str(force(s.v)) for s in segs]
                return cls(*args)
            return self.native(cls, [force(s.v) for s in segs], kwargs)
        import enum

        if issubclass(cls, enum.Enum):
            return self.native(cls, [force(s.v) for s in segs], kwargs)
        if issubclass(cls, tuple):  # NamedTuple
            return self.make_namedtuple(cls, [force(s.v) for s in segs], kwargs)
        if inspect.isabstract(cls):
            raise TypeError(f"Can't instantiate abstract class {cls.__name__}")
        o = self.new_instance(cls)
        init = self.find_method(cls, "__init__")
        if init is not None and is_repo_function(init):
            self.call_segs(init, [One(o)] + list(segs), kwargs)
        elif dataclasses.is_dataclass(cls) and (init is None or not is_repo_function(init)) and any("__init__" in k.__dict__ and dataclasses.is_dataclass(k) for k in cls.__mro__):
            self.dataclass_init(cls, o, segs, kwargs)
        elif init in (None, object.__init__) or not isinstance(init, types.FunctionType):
            if segs or kwargs:
                raise TypeError(f"{cls.__name__}() takes no arguments")
        elif init.__module__ == "typing" or "Protocol" in getattr(init, "__qualname__", "") or init.__name__ in ("_no_init_or_replace_init",):
            if segs or kwargs:
                raise TypeError(f"{cls.__name__}() takes no arguments")
        else:
            raise Unsupported(f"constructor of {cls.__name__}")
        return o

    def dataclass_init(self, cls, o, segs, kwargs):
        fields = [f for f in dataclasses.fields(cls) if f.init]
        if not all(isinstance(s, One) for s in segs):
            raise Unsupported("symbolic star arguments to a dataclass")
        vals = [force(s.v) for s in segs]
        if len(vals) > len(fields):
            raise TypeError(f"{cls.__name__}() takes {len(fields)} arguments")
        given = dict(zip([f.name for f in fields], vals))
        for k, v in kwargs.items():
            if k in given or k not in [f.name for f in fields]:
                raise TypeError(f"{cls.__name__}() got unexpected argument {k}")
            given[k] = v
        for f in dataclasses.fields(cls):
            if f.name in given:
                v = given[f.name]
            elif f.default is not dataclasses.MISSING:
                v = f.default
            elif f.default_factory is not dataclasses.MISSING:
                v = self.call(f.default_factory)
            elif not f.init:
                continue
            else:
                raise TypeError(f"{cls.__name__}() missing argument {f.name}")
            self.setattr_raw(o, f.name, v)
        post = self.find_method(cls, "__post_init__")
        if post is not None:
            self.call_segs(post, [One(o)], {})

    def make_namedtuple(self, cls, vals, kwargs):
        names = cls._fields
        defaults = cls._field_defaults
        given = dict(zip(names, vals))
        given.update(kwargs)
        for n in names:
            if n not in given:
                if n in defaults:
                    given[n] = defaults[n]
                else:
                    raise TypeError(f"missing {n}")
        return tuple.__new__(cls, [given[n] for n in names])

    def bind(self, node, segs, kwargs, defaults, kw_defaults, env):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        rest = list(segs)
        got = {}
        for name in pos:
            if not rest:
                break
            if not isinstance(rest[0], One):
                rest = V.norm_segs(rest)
                if rest and isinstance(rest[0], Fam) and self.e.valid(rest[0].n >= 1):
                    s = rest[0]
                    rest = [One(V.inst(s, z3.IntVal(0))), Fam(z3.simplify(s.n - 1), s.var, subst(s.val, [(s.var, s.var + 1)]))] + rest[1:]
                elif not rest:
                    break
                else:
                    raise Unsupported("cannot match symbolic star arguments with parameters")
            got[name] = force(rest.pop(0).v)
        if a.vararg:
            got[a.vararg.arg] = conc_tuple(rest)
        elif rest:
            if V.norm_segs(rest):
                raise TypeError(f"{getattr(node, 'name', 'lambda')}() takes {len(pos)} positional arguments but more were given")
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in pos or k in kwonly:
                if k in got:
                    raise TypeError(f"{getattr(node, 'name', 'lambda')}() got multiple values for argument {k!r}")
                got[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise TypeError(f"{getattr(node, 'name', 'lambda')}() got an unexpected keyword argument {k!r}")
        if a.kwarg:
            got[a.kwarg.arg] = PyDict.of(list(extra.items()))
        nd = len(defaults)
        for k, name in enumerate(pos):
            if name not in got:
                j = k - (len(pos) - nd)
                if j < 0:
                    raise TypeError(f"{getattr(node, 'name', 'lambda')}() missing required argument {name!r}")
                got[name] = defaults[j]
        for name in kwonly:
            if name not in got:
                if name not in kw_defaults:
                    raise TypeError(f"{getattr(node, 'name', 'lambda')}() missing keyword argument {name!r}")
                got[name] = kw_defaults[name]
        env.vars.update(got)
        if pos:
            env.self_arg = got.get(pos[0])

    def run_function(self, node, segs, kwargs, defaults, kw_defaults, env, fn=None):
        self.e.depth += 1
        if self.e.depth > 120:
            self.e.depth -= 1
            raise Unsupported("recursion too deep (unbounded recursion needs a contract)")
        try:
            self.bind(node, segs, kwargs, defaults, kw_defaults, env)
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, env)
            hook, self.with_hook = self.with_hook, None
            if hook is not None:
                env.yields = hook
                self.exec_block(node.body, env)
                return None
            if is_generator_node(node):
                env.yields = PyList()
                self.e.drops.add("generators are evaluated eagerly (yield appends to a list)")
                self.exec_block(node.body, env)
                return PyIter(env.yields.segs)
            sig = self.exec_block(node.body, env)
            return sig[1] if sig is not None and sig[0] == "return" else None
        finally:
            self.e.depth -= 1

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, env):
        for s in stmts:
            sig = self.exec(s, env)
            if sig is not None:
                return sig
        return None

    def exec(self, s, env):
        return getattr(self, "x_" + type(s).__name__, self._nostmt)(s, env)

    def _nostmt(self, s, env):
        raise Unsupported(f"statement {type(s).__name__} (line {s.lineno})")

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return None
        self.eval(s.value, env)

    def x_Pass(self, s, env):
        return None

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
            self.setvar(env, t.id, self.augop(s.op, old, self.eval(s.value, env)))
        elif isinstance(t, ast.Attribute):
            o = force(self.eval(t.value, env))
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augop(s.op, old, self.eval(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = force(self.eval(t.value, env))
            k = self.eval_slice(t.slice, env)
            old = self.getitem(o, k, aug=True)
            self.setitem(o, k, self.augop(s.op, old, self.eval(s.value, env)))
        else:
            raise Unsupported("augmented assignment target")

    def augop(self, op, a, b):
        a = force(a)
        if isinstance(op, ast.Add) and isinstance(a, PyList):
            a.set_checked(self, a.segs + tuple(self.iter_segs(b)))
            return a
        if isinstance(op, ast.Add) and isinstance(a, list):
            raise Unsupported("in-place extension of a native list")
        if isinstance(op, ast.BitOr) and type(a) is PySet:
            from .shims import set_update

            set_update(self, a, b)
            return a
        name = _BIN[type(op)][0]
        if _is_repo_instance(a):
            m = self.find_method(type(a), f"__i{name}__")
            if m is not None and is_repo_function(m):
                r = self.call(m, [a, b])
                if r is not NotImplemented:
                    return r
        import numpy as np

        if hasattr(a, "__pyvc_inplace__"):
            return a.__pyvc_inplace__(self, self.binop(op, a, b))
        if isinstance(a, np.ndarray):
            # in-place on arrays: the aliased buffer changes
            if id(a) in self.frozen:
                self.frame_violation(a)
            r = self.binop(op, a, b)
            from .shims import setitem

            if isinstance(r, np.ndarray) and r.shape == a.shape and (a.dtype == object or r.dtype == a.dtype):
                setitem(self, a, Ellipsis, r)
                return a
            raise Unsupported("in-place array operation that changes the type of the array")
        return self.binop(op, a, b)

    def x_Return(self, s, env):
        return ("return", self.eval(s.value, env) if s.value is not None else None)

    def x_Break(self, s, env):
        return BREAK

    def x_Continue(self, s, env):
        return CONT

    def x_If(self, s, env):
        return self.exec_block(s.body if self.truth(self.eval(s.test, env)) else s.orelse, env)

    def x_While(self, s, env):
        from .loops import while_loop

        return while_loop(self, s, env)

    def x_For(self, s, env):
        from .loops import for_loop

        segs = self.iter_segs(self.eval(s.iter, env))

        def body(elem):
            self.assign(s.target, elem, env)
            return self.exec_block(s.body, env)

        sig = for_loop(self, segs, body, env)
        if sig is None and s.orelse:
            return self.exec_block(s.orelse, env)
        if sig is BREAK:
            return None
        return sig

    def x_Raise(self, s, env):
        if s.exc is None:
            raise env.vars["__exc__"] if "__exc__" in env.vars else Unsupported("bare raise")
        x = force(self.eval(s.exc, env))
        if isinstance(x, type):
            x = x()
        if s.cause is not None:
            c = self.eval(s.cause, env)
        raise x

    def x_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            raise AssertionError()

    def x_Try(self, s, env):
        try:
            try:
                sig = self.exec_block(s.body, env)
            except Exception as ex:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.eval(h.type, env)
                        if isinstance(t, tuple):
                            ok = isinstance(ex, t)
                        else:
                            ok = isinstance(ex, t)
                    if ok:
                        if h.name:
                            self.setvar(env, h.name, ex)
                        self.setvar(env, "__exc__", ex)
                        return self.exec_block(h.body, env)
                raise
            else:
                if sig is None and s.orelse:
                    sig = self.exec_block(s.orelse, env)
                return sig
        finally:
            if s.finalbody:
                fs = self.exec_block(s.finalbody, env)
                if fs is not None:
                    return fs

    def x_With(self, s, env):
        return self.with_items(s, env, 0)

    def with_items(self, s, env, k):
        import contextlib

        if k == len(s.items):
            return self.exec_block(s.body, env)
        item = s.items[k]

        def inside(v):
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env)
            return self.with_items(s, env, k + 1)

        cm = force(self.eval(item.context_expr, env))
        if isinstance(cm, ManagerCall):
            # the block runs where the generator yields
            hook = WithHook(inside, len(self.explore_stamp))
            self.with_hook = hook
            try:
                self.call_segs(cm.f, cm.segs, cm.kwargs)
            finally:
                self.with_hook = None
            if hook.count != 1:
                raise RuntimeError("generator didn't yield")
            return hook.sig
        if hasattr(cm, "__pyvc_enter__"):
            return inside(cm.__pyvc_enter__(self))
        if type(cm).__module__.startswith("orquestra"):
            raise Unsupported("context manager of the repository")
        with contextlib.ExitStack() as stack:
            return inside(stack.enter_context(cm))

    def x_FunctionDef(self, s, env):
        d = [self.eval(x, env) for x in s.args.defaults]
        kd = {a.arg: self.eval(x, env) for a, x in zip(s.args.kwonlyargs, s.args.kw_defaults) if x is not None}
        f = IFunc(s, env, self, d, kd)
        for dec in reversed(s.decorator_list):
            f = self.call(self.eval(dec, env), [f])
        self.setvar(env, s.name, f)

    def x_Import(self, s, env):
        for a in s.names:
            m = __import__(a.name)
            if a.asname:
                import importlib

                m = importlib.import_module(a.name)
            self.setvar(env, a.asname or a.name.split(".")[0], m)

    def x_ImportFrom(self, s, env):
        import importlib

        pkg = env_glob(env).get("__package__")
        m = importlib.import_module("." * s.level + (s.module or ""), pkg) if s.level else importlib.import_module(s.module)
        for a in s.names:
            if hasattr(m, a.name):
                v = getattr(m, a.name)
            else:
                v = importlib.import_module(m.__name__ + "." + a.name)
            self.setvar(env, a.asname or a.name, v)

    def x_Nonlocal(self, s, env):
        env.nonlocals.update(s.names)

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = force(self.eval(t.value, env))
                from .shims import delitem

                delitem(self, o, self.eval_slice(t.slice, env))
            elif isinstance(t, ast.Name):
                if env.stamp <= self.explore_stamp[-1]:
                    self.e.log(VarLog(env, t.id))
                env.vars.pop(t.id)
            else:
                raise Unsupported("del target")

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.setvar(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = force(v)
            segs = self.iter_segs(v)
            n = len(t.elts)
            stars = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if not all(isinstance(s, One) for s in segs):
                segs = V.norm_segs(segs)
            if not all(isinstance(s, One) for s in segs):
                if stars == [n - 1]:
                    # head, *tail
                    for x in t.elts[:-1]:
                        if not segs:
                            raise ValueError("not enough values to unpack")
                        if isinstance(segs[0], Fam):
                            f = segs[0]
                            if not self.e.choose(f.n >= 1):
                                segs = V.norm_segs(segs)
                                if not segs:
                                    raise ValueError("not enough values to unpack")
                                raise Unsupported("unpacking")
                            segs = [One(V.inst(f, z3.IntVal(0))), Fam(z3.simplify(f.n - 1), f.var, subst(f.val, [(f.var, f.var + 1)]))] + list(segs[1:])
                        if not isinstance(segs[0], One):
                            raise Unsupported("unpacking of a symbolic sequence")
                        self.assign(x, force(segs[0].v), env)
                        segs = segs[1:]
                    self.assign(t.elts[-1].value, PyList(segs), env)
                    return
                # fork on the length
                L = V.segs_len(segs)
                if not self.e.choose(L == n):
                    raise ValueError("wrong number of values to unpack")
                for k, x in enumerate(t.elts):
                    self.assign(x, self.getitem(PyTuple(segs), k), env)
                return
            vals = [s.v for s in segs]
            if stars:
                k = stars[0]
                after = n - k - 1
                if len(vals) < n - 1:
                    raise ValueError("not enough values to unpack")
                for x, y in zip(t.elts[:k], vals[:k]):
                    self.assign(x, force(y), env)
                self.assign(t.elts[k].value, PyList.of(vals[k:len(vals) - after]), env)
                for x, y in zip(t.elts[k + 1:], vals[len(vals) - after:]):
                    self.assign(x, force(y), env)
            else:
                if len(vals) != n:
                    raise ValueError(f"{'too many' if len(vals) > n else 'not enough'} values to unpack (expected {n})")
                for x, y in zip(t.elts, vals):
                    self.assign(x, force(y), env)
        elif isinstance(t, ast.Attribute):
            self.setattr(force(self.eval(t.value, env)), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(force(self.eval(t.value, env)), self.eval_slice(t.slice, env), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported("assignment target")

    def setattr(self, o, name, v):
        if isinstance(o, Abs):
            if hasattr(o, "__pyvc_setattr__"):
                return o.__pyvc_setattr__(self, name, v)
            raise Unsupported(f"attribute write on abstract {type(o).__name__}")
        d = self.find_method(type(o), name)
        if isinstance(d, property):
            if d.fset is None:
                raise AttributeError(f"can't set attribute {name}")
            return self.call(d.fset, [o, v])
        m = self.find_method(type(o), "__setattr__")
        if dataclasses.is_dataclass(o) and type(o).__dataclass_params__.frozen:
            raise dataclasses.FrozenInstanceError(f"cannot assign to field {name!r}")
        if m is not None and is_repo_function(m):
            return self.call(m, [o, name, v])
        self.setattr_raw(o, name, v)

    # ------------------------------------------------------------------ expressions
    def eval(self, n, env):
        return getattr(self, "e_" + type(n).__name__, self._noexpr)(n, env)

    def _noexpr(self, n, env):
        raise Unsupported(f"expression {type(n).__name__} (line {n.lineno})")

    def e_Constant(self, n, env):
        return n.value

    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, Poison):
                    raise v.error(name)
                return v
            if name in e.cells:
                return e.cells[name]
            last = e
            e = e.parent
        g = last.glob
        if name in g:
            return g[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise NameError(name)

    def e_Name(self, n, env):
        return self.lookup(n.id, env)

    def e_Attribute(self, n, env):
        return self.getattr(force(self.eval(n.value, env)), n.attr)

    def getattr(self, o, name, default=None, has_default=False):
        o = force(o)
        from .shims import DUNDERS, Meth as DunderMeth, container_method

        if isinstance(o, Poison):
            raise o.error()
        if isinstance(o, (Cont, SStr)):
            m = container_method(self, o, name)
            if m is None:
                raise AttributeError(f"{self.class_of(o).__name__!r} object has no attribute {name!r}")
            return m
        if isinstance(o, _Super):
            return o.get(self, name)
        if isinstance(o, (Sym, SComplex)):
            if name == "item":  # numpy scalars
                return _Const(o)
            return getattr(o, name)
        if name == "__getitem__" and hasattr(o, "__pyvc_getitem__"):
            return DunderMeth(DUNDERS[name], o)
        if hasattr(o, "__pyvc_getattr__"):
            return o.__pyvc_getattr__(self, name)
        if isinstance(o, type) or isinstance(o, types.ModuleType):
            if isinstance(o, type) and is_repo_class(o):
                d = self.find_method(o, name)
                if isinstance(d, classmethod):
                    return types.MethodType(d.__func__, o)
            return getattr(o, name)
        t = type(o)
        d = self.find_method(t, name)
        if isinstance(d, property):
            if is_repo_function(d.fget):
                return self.call(d.fget, [o])
            return getattr(o, name)
        if isinstance(d, functools.cached_property):
            if name in o.__dict__:
                return o.__dict__[name]
            v = self.call(d.func, [o])
            self.setattr_raw(o, name, v)
            return v
        if _is_repo_instance(o):
            if name in o.__dict__:
                v = o.__dict__[name]
                if isinstance(v, Poison):
                    raise v.error()
                return v
            if isinstance(d, types.FunctionType):
                return types.MethodType(d, o)
            if isinstance(d, classmethod):
                return types.MethodType(d.__func__, t)
            if isinstance(d, staticmethod):
                return d.__func__
            ga = self.find_method(t, "__getattr__")
            if d is None and ga is not None and is_repo_function(ga):
                return self.call(ga, [o, name])
        return getattr(o, name)

    def e_Subscript(self, n, env):
        o = force(self.eval(n.value, env))
        return self.getitem(o, self.eval_slice(n.slice, env))

    def eval_slice(self, s, env):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else force(self.eval(x, env))
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple) and any(isinstance(x, ast.Slice) for x in s.elts):
            return tuple(self.eval_slice(x, env) for x in s.elts)
        return force(self.eval(s, env))

    def getitem(self, o, k, aug=False):
        from .shims import getitem

        return getitem(self, force(o), force(k))

    def setitem(self, o, k, v):
        from .shims import setitem

        return setitem(self, force(o), force(k), v)

    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return self.make_super(env)
        f = self.eval(n.func, env)
        if f is globals and not n.args:
            return env.glob
        if (f is any or f is all) and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp) and not n.keywords:
            g = n.args[0]
            stop = f is any

            def emit(ce):
                return ("return", stop) if self.truth(self.eval(g.elt, ce)) is stop else None

            sig = self.comp(g, env, emit)
            return stop if sig is not None else not stop
        segs = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                segs.extend(self.iter_segs(self.eval(a.value, env)))
            else:
                segs.append(One(self.eval(a, env)))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = force(self.eval(k.value, env))
                items = d.items_() if isinstance(d, PyDict) else d.items()
                for a, b in items:
                    kw[a] = force(b)
            else:
                kw[k.arg] = force(self.eval(k.value, env))
        return self.call_segs(f, segs, kw)

    def make_super(self, env):
        e = env
        while e.fn is None and e.parent is not None:
            e = e.parent
        cls = e.cells.get("__class__")
        if cls is None:
            raise Unsupported("super() outside a method")
        return _Super(cls, e.self_arg)

    def e_BinOp(self, n, env):
        return self.binop(n.op, self.eval(n.left, env), self.eval(n.right, env))

    def binop(self, op, a, b):
        a, b = force(a), force(b)
        name, nat = _BIN[type(op)]
        from .shims import container_binop

        for v in (a, b):
            if isinstance(v, Poison):
                raise v.error()
        r = container_binop(self, name, a, b)
        if r is not NotImplemented:
            return r
        ra, rb = _is_repo_instance(a), _is_repo_instance(b)
        if rb and not ra and hasattr(a, "__pyvc_class__") and hasattr(type(a), f"__{name}__"):
            r = getattr(type(a), f"__{name}__")(a, b)
            if r is not NotImplemented:
                return r
        if ra or rb:
            ma = self.find_method(type(a), f"__{name}__") if ra else None
            mb = self.find_method(type(b), f"__r{name}__") if rb else None
            if ma is not None and is_repo_function(ma):
                r = self.call(ma, [a, b])
                if r is not NotImplemented:
                    return r
            elif not ra and not isinstance(a, (Sym, SComplex, Abs)) and rb:
                # native left operand: its own protocol answers NotImplemented for foreign classes
                import numpy as np

                if isinstance(a, (np.ndarray, np.generic)) and name not in ("",):
                    if isinstance(a, np.ndarray):
                        raise Unsupported("array op repository object")
            if mb is not None and is_repo_function(mb) and (type(a) is not type(b)):
                r = self.call(mb, [b, a])
                if r is not NotImplemented:
                    return r
            raise TypeError(f"unsupported operand type(s) for {name}: {type(a).__name__!r} and {type(b).__name__!r}")
        if isinstance(a, tuple) and isinstance(b, tuple) and name == "add":
            return tuple(a) + tuple(b)
        return nat(a, b)

    def e_UnaryOp(self, n, env):
        v = force(self.eval(n.operand, env))
        if isinstance(n.op, ast.Not):
            if isinstance(v, SBool):
                return mkbool(z3.Not(v.t))
            return not self.truth(v)
        name = {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(n.op)]
        if _is_repo_instance(v):
            m = self.find_method(type(v), name)
            if m is not None:
                return self.call(m, [v])
        return {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(n.op)](v)

    def e_BoolOp(self, n, env):
        is_and = isinstance(n.op, ast.And)
        v = None
        for k, x in enumerate(n.values):
            v = force(self.eval(x, env))
            if k == len(n.values) - 1:
                return v
            t = self.truth(v)
            if is_and and not t or not is_and and t:
                return bool(t) if isinstance(v, SBool) else v
        return v

    def e_Compare(self, n, env):
        left = force(self.eval(n.left, env))
        res = True
        for k, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = force(self.eval(c, env))
            r = self.compare(op, left, right)
            if k == len(n.ops) - 1:
                return r if k == 0 or r is False else (r if res is True else r)
            if not self.truth(r):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.py_eq(a, b)
        if isinstance(op, ast.NotEq):
            if _is_repo_instance(a):
                m = self.find_method(type(a), "__ne__")
                if m is not None and is_repo_function(m):
                    return self.call(m, [a, b])
            r = self.py_eq(a, b)
            if isinstance(r, SBool):
                return mkbool(z3.Not(r.t))
            import numpy as np

            if isinstance(r, np.ndarray):
                return ~r
            return not r
        if isinstance(op, ast.Is):
            return self.py_is(a, b)
        if isinstance(op, ast.IsNot):
            r = self.py_is(a, b)
            return not r
        if isinstance(op, (ast.In, ast.NotIn)):
            from .shims import contains

            r = contains(self, b, a)
            if isinstance(op, ast.In):
                return r
            return mkbool(z3.Not(r.t)) if isinstance(r, SBool) else not r
        name, rname, nat = _CMP[type(op)]
        if _is_repo_instance(a):
            m = self.find_method(type(a), f"__{name}__")
            if m is not None and is_repo_function(m):
                return self.call(m, [a, b])
            raise TypeError(f"{name} not supported")
        if isinstance(a, (PySet, frozenset, set)) or isinstance(b, (PySet,)):
            from .shims import set_compare

            return set_compare(self, name, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, PyList) or isinstance(b, PyList):
            return nat(tuple(x.v for x in self.iter_segs(a)), tuple(x.v for x in self.iter_segs(b)))
        return nat(a, b)

    def py_is(self, a, b):
        if a is b:
            return True
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, SBool) or isinstance(b, SBool):
                if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                    return a == b
            return False
        if isinstance(a, (Sym, SComplex)) or isinstance(b, (Sym, SComplex)):
            raise Unsupported("identity of symbolic numbers")
        if isinstance(a, Abs) and isinstance(b, Abs):
            return self.abs_eq(a, b, "is")
        return False

    def abs_eq(self, a, b, rel):
        """different abstract objects may still be equal (or the same object), unless their class says keys decide"""
        c = eqv(a, b)
        if a._keyed or b._keyed or type(a) is not type(b):
            return mkbool(c)
        if c is True or c is not False and self.e.valid(c):
            return True
        ks = [k for o in (a, b) for k in o.key if isinstance(k, z3.ExprRef)]
        u = z3.Function(f"{type(a).__name__}.{rel}.{len(ks)}", *[k.sort() for k in ks], z3.BoolSort())(*ks) if ks else z3.Bool(f"{type(a).__name__}.{rel}.{a.key}{b.key}")
        return mkbool(z3.Or(c, u) if c is not False else u)

    def py_eq(self, a, b):
        """Python's == (True / False / SBool / array)"""
        a, b = force(a), force(b)
        if hasattr(a, "__pyvc_eq__"):
            return a.__pyvc_eq__(self, b)
        if hasattr(b, "__pyvc_eq__") and not _is_repo_instance(a):
            return b.__pyvc_eq__(self, a)
        if _is_repo_instance(a):
            m = self.find_method(type(a), "__eq__")
            if is_repo_function(m):
                r = self.call(m, [a, b])
                if r is not NotImplemented:
                    return r
            elif dataclasses.is_dataclass(a) and m is not object.__eq__:
                if type(a) is type(b):
                    fs = [f.name for f in dataclasses.fields(a) if f.compare]
                    for f in fs:
                        r = self.py_eq(self.getattr(a, f), self.getattr(b, f))
                        if not self.truth(r):
                            return False
                    return True
            if _is_repo_instance(b):
                m2 = self.find_method(type(b), "__eq__")
                if is_repo_function(m2) and m2 is not m:
                    r = self.call(m2, [b, a])
                    if r is not NotImplemented:
                        return r
            return a is b
        if _is_repo_instance(b):
            m = self.find_method(type(b), "__eq__")
            if is_repo_function(m):
                r = self.call(m, [b, a])
                if r is not NotImplemented:
                    return r
            return False
        if isinstance(a, Abs) and isinstance(b, Abs):
            return self.abs_eq(a, b, "eq")
        la = isinstance(a, (list, PyList))
        lb = isinstance(b, (list, PyList))
        if la and lb or isinstance(a, (tuple, PyTuple)) and isinstance(b, (tuple, PyTuple)):
            A, B = V.segs_of(a), V.segs_of(b)
            if all(isinstance(s, One) for s in A) and all(isinstance(s, One) for s in B):
                if len(A) != len(B):
                    return False
                out = []
                for x, y in zip(A, B):
                    r = self.py_eq(x.v, y.v)
                    if isinstance(r, SBool):
                        out.append(r.t)
                    elif not self.truth(r):
                        return False
                return mkbool(V.conj(out)) if out else True
            c = V.seq_eqv(A, B)
            return mkbool(c)
        if isinstance(a, (Cont,)) or isinstance(b, (Cont,)):
            if isinstance(a, (PyDict, dict)) and isinstance(b, (PyDict, dict)):
                return mkbool(V.dict_eqv(a, b))
            if isinstance(a, (PySet, set, frozenset)) and isinstance(b, (PySet, set, frozenset)):
                return mkbool(V.set_eqv(a, b))
            for x, y in ((a, b), (b, a)):
                if hasattr(x, "__pyvc_eqv__"):
                    return mkbool(x.__pyvc_eqv__(y))
            return False
        if isinstance(a, (Sym, SComplex)) or isinstance(b, (Sym, SComplex)):
            if core._num_kind(a) and core._num_kind(b):
                return core._cmp("==", a, b)
            if hasattr(a, "__pyvc_eqv__") or hasattr(b, "__pyvc_eqv__"):
                return a == b
            for x, y in ((a, b), (b, a)):
                if hasattr(x, "__pyvc_value__") and not isinstance(x, (Sym, SComplex)) and type(x).__eq__ is object.__eq__:
                    raise Unsupported(f"comparison of {type(x).__name__} with a number")
            return False
        if a is not b and a is not None and b is not None:
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Abs) and not x._keyed and core._num_kind(y) and not isinstance(y, bool):
                    ks = [k for k in x.key if isinstance(k, z3.ExprRef)]
                    nm = f"{type(x).__name__} == {y!r}"
                    return mkbool(z3.Function(nm, *[k.sort() for k in ks], z3.BoolSort())(*ks) if ks else z3.Bool(f"{x.key} == {y!r}"))
                if hasattr(x, "__pyvc_value__") and not isinstance(x, (Abs, Cont)) and type(x).__eq__ is object.__eq__ and not hasattr(x, "__pyvc_eqv__"):
                    raise Unsupported(f"comparison of {type(x).__name__} with {type(y).__name__}")
        return a == b

    def e_IfExp(self, n, env):
        return self.eval(n.body if self.truth(self.eval(n.test, env)) else n.orelse, env)

    def e_Lambda(self, n, env):
        d = [self.eval(x, env) for x in n.args.defaults]
        kd = {a.arg: self.eval(x, env) for a, x in zip(n.args.kwonlyargs, n.args.kw_defaults) if x is not None}
        return IFunc(n, env, self, d, kd)

    def e_Tuple(self, n, env):
        return conc_tuple(self.elts(n.elts, env))

    def elts(self, es, env):
        segs = []
        for x in es:
            if isinstance(x, ast.Starred):
                segs.extend(self.iter_segs(self.eval(x.value, env)))
            else:
                segs.append(One(self.eval(x, env)))
        return segs

    def e_List(self, n, env):
        return PyList(self.elts(n.elts, env))

    def e_Set(self, n, env):
        from .shims import make_set

        return make_set(self, PyTuple(self.elts(n.elts, env)))

    def e_Dict(self, n, env):
        from .shims import dict_set

        d = PyDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                from .shims import dict_update

                dict_update(self, d, self.eval(v, env))
            else:
                kk = self.eval(k, env)
                dict_set(self, d, kk, self.eval(v, env))
        return d

    def e_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.eval(v, env))
        return mkstr(parts)

    def e_FormattedValue(self, n, env):
        v = force(self.eval(n.value, env))
        spec = self.eval(n.format_spec, env) if n.format_spec is not None else ""
        if n.conversion == 114:
            return self.call(repr, [v])
        from .shims import text_of

        return text_of(self, v, spec)

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        # assignment expressions bind in the function scope
        e = env
        while e.parent is not None and getattr(e, "yields", None) is None and e.fn is None and e.vars.get("__comp__"):
            e = e.parent
        self.setvar(e, n.target.id, v)
        return v

    def comp(self, n, env, emit):
        from .loops import for_loop

        def level(k, ce):
            if k == len(n.generators):
                return emit(ce)
            g = n.generators[k]
            segs = self.iter_segs(self.eval(g.iter, ce if k else env))

            def body(elem):
                self.assign(g.target, elem, ce)
                for c in g.ifs:
                    if not self.truth(self.eval(c, ce)):
                        return CONT
                return level(k + 1, ce)

            return for_loop(self, segs, body, ce)

        ce = Env(env)
        ce.vars["__comp__"] = True
        return level(0, ce)

    def e_ListComp(self, n, env):
        out = PyList()
        self.comp(n, env, lambda ce: out.append_(self, self.eval(n.elt, ce)))
        return out

    def e_GeneratorExp(self, n, env):
        out = PyList()
        self.e.drops.add("generator expressions are evaluated eagerly")
        self.comp(n, env, lambda ce: out.append_(self, self.eval(n.elt, ce)))
        return PyIter(out.segs)

    def e_SetComp(self, n, env):
        from .shims import make_set

        out = PyList()
        self.comp(n, env, lambda ce: out.append_(self, self.eval(n.elt, ce)))
        return make_set(self, out)

    def e_DictComp(self, n, env):
        from .shims import dict_of_pairs

        out = PyList()
        self.comp(n, env, lambda ce: out.append_(self, (self.eval(n.key, ce), self.eval(n.value, ce))))
        return dict_of_pairs(self, out.segs)

    def e_Yield(self, n, env):
        v = self.eval(n.value, env) if n.value is not None else None
        y = self.yield_target(env)
        if isinstance(y, WithHook):
            return y.fire(self, v)
        y.append_(self, v)
        return None

    def e_YieldFrom(self, n, env):
        y = self.yield_target(env)
        if isinstance(y, WithHook):
            raise Unsupported("yield from in a context manager")
        y.set_checked(self, y.segs + tuple(self.iter_segs(self.eval(n.value, env))))
        return None

    def yield_target(self, env):
        e = env
        while e.yields is None:
            e = e.parent
        return e.yields

    def e_Starred(self, n, env):
        raise Unsupported("starred expression")

    # ------------------------------------------------------------------ truth / iteration
    def truth(self, v):
        v = force(v)
        if isinstance(v, bool) or v is None:
            return bool(v)
        if isinstance(v, Poison):
            raise v.error()
        if isinstance(v, Cont):
            if any(isinstance(s, One) for s in v.segs):
                return True
            if not v.segs:
                return False
            r = self.e.choose(V.segs_len(v.segs) > 0)
            if not r:
                for s in v.segs:
                    if isinstance(s, Flat):
                        self.e.add_qfact(s.n, s.var, V.segs_len(s.segs) == 0)
            return r
        if _is_repo_instance(v):
            m = self.find_method(type(v), "__bool__")
            if m is not None:
                return self.truth(self.call(m, [v]))
            m = self.find_method(type(v), "__len__")
            if m is not None:
                return self.truth(self.call(m, [v]))
            return True
        if isinstance(v, Abs):
            if hasattr(v, "__pyvc_truth__"):
                return self.truth(v.__pyvc_truth__(self))
            return True
        if isinstance(v, SStr):
            if any(isinstance(p, str) for p in v.parts):
                return True
            raise Unsupported("truth of symbolic text")
        if getattr(type(v), "__pyvc_value__", False) and not isinstance(v, core.Sym) and not hasattr(type(v), "__bool__"):
            if hasattr(v, "__pyvc_truth__"):
                return self.truth(v.__pyvc_truth__(self))
            if hasattr(v, "__pyvc_len__"):
                return self.truth(v.__pyvc_len__(self))
            if hasattr(type(v), "__call__") or hasattr(v, "__pyvc_call__"):
                return True
            raise Unsupported(f"truth of {type(v).__name__}")
        return bool(v)

    def iter_segs(self, v):
        """segments of an iterable"""
        v = force(v)
        if isinstance(v, PySet):
            return self.set_order(v)
        if isinstance(v, PyDict):
            return tuple(_map_segs(v.segs, lambda p: p[0]))
        if isinstance(v, PyIter):
            s = v.segs
            v.set_checked(self, ())
            return s
        if isinstance(v, Cont):
            return v.segs
        if isinstance(v, (tuple, list)):
            return tuple(One(x) for x in v)
        if isinstance(v, (set, frozenset)):
            if all(isinstance(x, (int, str, tuple)) for x in v):
                return self.set_order(PySet.of(sorted(v, key=repr)))
            return tuple(One(x) for x in v)
        if hasattr(v, "__pyvc_iter__"):
            return v.__pyvc_iter__(self)
        if isinstance(v, (Sym, SComplex)):
            raise TypeError("symbolic number is not iterable")
        if _is_repo_instance(v):
            m = self.find_method(type(v), "__iter__")
            if m is not None:
                return self.iter_segs(self.call(m, [v]))
            m = self.find_method(type(v), "__getitem__")
            if m is not None:
                raise Unsupported("iteration through __getitem__")
            raise TypeError(f"{type(v).__name__!r} object is not iterable")
        if isinstance(v, Abs):
            raise Unsupported(f"iteration over abstract {type(v).__name__}")
        if isinstance(v, SStr):
            from .text import chars

            c = chars(v)
            if c is None:
                from .text import single

                x = single(self, v)
                c = chars(x) if x is not None else None
            if c is None:
                raise Unsupported("iteration over symbolic text")
            return c
        return tuple(One(self.from_native(x)) for x in v)

    set_order_mode = "all"  # "all": every order of small sets; "insertion"

    def set_order(self, s):
        """iteration order of a set is unspecified: every order is explored for small concrete sets"""
        if s.concrete:
            items = [x.v for x in s.segs]
            out = []
            if self.set_order_mode == "insertion" or len(items) > 4:
                if len(items) > 4:
                    self.e.drops.add("iteration order of sets of more than four elements is insertion order")
                return s.segs
            while items:
                k = self.e.pick(len(items), "set order")
                out.append(One(items.pop(k)))
            return tuple(out)
        if len(s.segs) == 1 and isinstance(s.segs[0], Fam):
            f = s.segs[0]
            if getattr(s, "ordered", False):
                return s.segs
            if not getattr(s, "distinct", False):
                raise Unsupported("iteration over a symbolic set")
            perm = z3.Function(self.e.fresh_name("setorder"), z3.IntSort(), z3.IntSort())
            # an unknown permutation of 0..n-1 (in range and injective)
            v = V.index_var("so")
            w = V.index_var("so")
            self.e.add_qfact(f.n, v, z3.And(perm(v) >= 0, perm(v) < f.n))
            return (Fam(f.n, v, subst(f.val, [(f.var, perm(v))])),)
        raise Unsupported("iteration over a symbolic set")


class VarLog:
    __slots__ = ("env", "name", "had", "old")

    def __init__(self, env, name):
        self.env, self.name = env, name
        self.had = name in env.vars
        self.old = env.vars.get(name)

    def undo(self):
        if self.had:
            self.env.vars[self.name] = self.old
        else:
            self.env.vars.pop(self.name, None)

    loc = property(lambda self: ("var", id(self.env), self.name))


class _Const:
    """nullary method returning a fixed value"""

    __pyvc_value__ = True

    def __init__(self, v):
        self.v = v

    def __pyvc_call__(self, I, segs, kw):
        return self.v


class _Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj

    def get(self, interp, name):
        t = self.obj if isinstance(self.obj, type) else type(self.obj)
        mro = t.__mro__
        for k in mro[mro.index(self.cls) + 1:]:
            if name in k.__dict__:
                d = k.__dict__[name]
                if isinstance(d, property):
                    return interp.call(d.fget, [self.obj])
                if isinstance(d, types.FunctionType):
                    return types.MethodType(d, self.obj)
                if isinstance(d, classmethod):
                    return types.MethodType(d.__func__, t)
                if isinstance(d, staticmethod):
                    return d.__func__
                if k is object and name == "__init__":
                    return lambda *a, **k: None
                raise Unsupported(f"super().{name}")
        raise AttributeError(name)


class _Star:
    pass


def _star_args(segs):
    out = []
    for s in segs:
        if isinstance(s, One):
            out.append(force(s.v))
        else:
            raise Unsupported("symbolic star arguments to a library function")
    return out


def env_glob(env):
    return env.glob


_MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "add", "discard", "popitem", "__setitem__", "__delitem__"}


def _map_segs(segs, f):
    out = []
    for s in segs:
        if isinstance(s, One):
            out.append(One(f(force(s.v))))
        elif isinstance(s, Fam):
            out.append(Fam(s.n, s.var, f(force(s.val))))
        elif isinstance(s, Flat):
            out.append(Flat(s.n, s.var, tuple(_map_segs(s.segs, f))))
        elif isinstance(s, Guard):
            out.append(Guard(s.c, tuple(_map_segs(s.segs, f))))
        else:
            raise Unsupported(f"mapping over {s!r}")
    return out


def _cont_set(self, interp, segs):
    if id(self) in interp.frozen:
        interp.frame_violation(self)
    if getattr(self, "template", False):
        raise Unsupported("write to an element of a symbolic family")
    if self.stamp <= interp.explore_stamp[-1]:
        interp.e.log(ContWrite(self))
    self.segs = tuple(segs)


def _cont_item(self, interp, segs):
    """one element of a symbolic list is overwritten"""
    if id(self) in interp.frozen:
        interp.frame_violation(self)
    if getattr(self, "template", False):
        raise Unsupported("write to an element of a symbolic family")
    if self.stamp <= interp.explore_stamp[-1]:
        interp.e.log(ContWrite(self, item=True))
    self.segs = tuple(segs)


def _append(self, interp, v):
    self.set_checked(interp, self.segs + (One(v),))


Cont.set_checked = _cont_set
Cont.append_ = _append
Cont.set_item = _cont_item

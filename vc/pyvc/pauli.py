"""Pauli operators for the proofs.

Letters   a dictionary from qubits to operator letters, known by its letter function: 0 absent, 1 X, 2 Y, 3 Z, 4 I
PT        a Pauli term as the matrix it denotes: scalar times a product of one-qubit operators and opaque strings.  Its
          coefficient is scalar * kappa(word): kappa is the unit scalar that reducing the word to a string leaves (1 for a
          string); copy(new_coefficient=x) therefore denotes x / kappa(word) * word."""
import re

from . import core, values as V
from .core import *  # noqa: F401,F403
from .core import z3
from .values import *  # noqa: F401,F403
from .count import IdxSet, _Call
from .lin import At, Word
from orquestra.quantum.operators import PauliTerm

NAMES = {1: "X", 2: "Y", 3: "Z", 4: "I"}
CODES = {v: k for k, v in NAMES.items()}
NQ = z3.Int("nq")


def letter_value(p):
    """the letter with code p (present)"""
    return Cases([(p == k, v) for k, v in NAMES.items()])


def code_of(v):
    if isinstance(v, Cases):
        r = z3.IntVal(0)
        for c, x in v.alts:
            r = z3.If(c, code_of(x), r)
        return r
    if isinstance(v, str) and v in CODES:
        return z3.IntVal(CODES[v])
    raise Unsupported(f"operator letter {v!r}")


class Letters:
    """mutable dictionary qubit -> letter"""

    __pyvc_value__ = True

    def __init__(self, var, fn):
        self.var, self.fn = var, fn

    @classmethod
    def of(cls, f):
        v = V.index_var("q")
        return cls(v, f(v))

    def at(self, q):
        return z3.simplify(z3.substitute(self.fn, (self.var, toint(q))))

    def set(self):
        v = V.index_var("q")
        return IdxSet(SInt(NQ), v, z3.simplify(self.at(v) != 0))

    def __pyvc_contains__(self, I, q):
        t = toint(q)
        return mkbool(z3.And(t >= 0, t < NQ, self.at(t) != 0))

    def __pyvc_getitem__(self, I, q):
        if not I.truth(self.__pyvc_contains__(I, q)):
            raise KeyError(q)
        return letter_value(self.at(q))

    def _write(self, I, q, code):
        if id(self) in I.frozen:
            I.frame_violation(self)
        if I.e.gidx:
            raise Unsupported("write to a letter dictionary inside a loop")
        t = toint(q)
        if not I.e.choose(z3.And(t >= 0, t < NQ)):
            raise Unsupported("qubit outside the range of the model")
        self.fn = z3.simplify(z3.If(self.var == t, code, self.fn))

    def __pyvc_setitem__(self, I, q, v):
        self._write(I, q, code_of(v))

    def __pyvc_delitem__(self, I, q):
        if not I.truth(self.__pyvc_contains__(I, q)):
            raise KeyError(q)
        self._write(I, q, z3.IntVal(0))

    def __pyvc_iter__(self, I):
        return self.set().__pyvc_iter__(I)

    def __pyvc_len__(self, I=None):
        return self.set().__pyvc_len__()

    def items(self):
        f = self.set().enumerate_()[0]
        return (Fam(f.n, f.var, (f.val, letter_value(self.at(f.val)))),)

    def __pyvc_getattr__(self, I, name):
        if name == "copy":
            return _Call(lambda I: Letters(self.var, self.fn))
        if name == "keys":
            return _Call(lambda I: self.set())
        if name == "values":
            return _Call(lambda I: PyTuple((Fam(x.n, x.var, x.val[1]) for x in self.items())))
        if name == "items":
            return _Call(lambda I: Items(self))
        if name == "get":
            def get(I, q, default=None):
                return letter_value(self.at(q)) if I.truth(self.__pyvc_contains__(I, q)) else default

            return _Call(get)
        if name == "pop":
            def pop(I, q, *default):
                if not I.truth(self.__pyvc_contains__(I, q)):
                    if default:
                        return default[0]
                    raise KeyError(q)
                v = letter_value(self.at(q))
                self._write(I, q, z3.IntVal(0))
                return v

            return _Call(pop)
        raise Unsupported(f"letter dictionary: {name}")

    def __pyvc_eqv__(self, o):
        if isinstance(o, (dict, PyDict)):
            if o if isinstance(o, dict) else o.segs:
                raise Unsupported("comparison of letter dictionaries")
            return self.set().size == 0
        if isinstance(o, Letters):
            return V.holds_generic(NQ, lambda q: self.at(q) == o.at(q))
        return False

    def __pyvc_subst__(self, f):
        nv = V.index_var("q")
        return Letters(nv, toint(f(SInt(z3.substitute(self.fn, (self.var, nv))))))

    def __pyvc_syntax__(self):
        return (SInt(z3.substitute(self.fn, (self.var, z3.Int("·q")))),)

    def __pyvc_isinstance__(self, I, cls):
        return isinstance(cls, type) and issubclass(dict, cls)

    def __pyvc_class__(self, I):
        return dict

    __hash__ = object.__hash__

    def __eq__(self, o):
        return mkbool(self.__pyvc_eqv__(o))


class Items:
    """the (qubit, letter) pairs: equal as sets exactly when the dictionaries are equal"""

    __pyvc_value__ = True

    def __init__(self, d):
        self.d = d

    def __pyvc_iter__(self, I):
        return self.d.items()

    def __pyvc_set__(self, I, cls):
        return self

    def __pyvc_sorted__(self, I):
        I.e.trusted.add("sorted(set of pairs with different first components): by increasing first component")
        f = self.d.set().enumerate_(increasing=True)[0]
        return PyList((Fam(f.n, f.var, (f.val, letter_value(self.d.at(f.val)))),))

    def __pyvc_len__(self, I=None):
        return self.d.__pyvc_len__()

    def __pyvc_eqv__(self, o):
        return isinstance(o, Items) and V.eqv(self.d, o.d)

    def __pyvc_subst__(self, f):
        return Items(self.d.__pyvc_subst__(f))

    def __pyvc_syntax__(self):
        return self.d.__pyvc_syntax__()

    __hash__ = object.__hash__

    def __eq__(self, o):
        return mkbool(self.__pyvc_eqv__(o))


# -------------------------------------------------------------------- terms by denotation
def sc(x):
    x = force(x)
    if isinstance(x, SComplex):
        return x
    if isinstance(x, complex):
        return SComplex(toreal(x.real), toreal(x.imag))
    return SComplex(toreal(x), z3.RealVal(0))


def is_string(w):
    return not w or len(w) == 1 and isinstance(w[0], One) and w[0].v.tag == "string"


def kappa(w):
    """the unit scalar of a word"""
    e = core.cur
    if is_string(w):
        return SComplex(z3.RealVal(1), z3.RealVal(0))
    reg = e.__dict__.setdefault("kappa_reg", [])
    for w2, k in reg:
        if V.same_syntax(tuple(w), tuple(w2)):
            return k
    ctx = V.index_consts(*[t for t in _terms(w)])
    n = e.fresh_name("kappa")
    fn = lambda s: z3.Function(n + s, *[c.sort() for c in ctx], z3.RealSort())(*ctx) if ctx else z3.Real(n + s)
    k = SComplex(fn(".re"), fn(".im"))
    e.add(k.re * k.re + k.im * k.im == 1)
    reg.append((tuple(w), k))
    return k


def _terms(w):
    out = []
    V.subst(tuple(w), lambda t: (out.append(t), t)[1]) if False else None
    def walk(v):
        if isinstance(v, z3.ExprRef):
            out.append(v)
        elif isinstance(v, Sym):
            out.append(v.t)
        elif isinstance(v, (tuple, list)):
            for x in v:
                walk(x)
        elif isinstance(v, One):
            walk(v.v)
        elif isinstance(v, At):
            walk(v.args)
        elif isinstance(v, Fam):
            walk(v.n), walk(v.val)
        elif isinstance(v, Flat):
            walk(v.n), walk(v.segs)
        elif isinstance(v, Guard):
            walk(v.c), walk(v.segs)
    walk(tuple(w))
    return out


class PT:
    """PauliTerm by the matrix it denotes: c times the product of the factors of w"""

    __pyvc_value__ = True
    iterated = None  # contract of iteration

    def __init__(self, c, w=()):
        self.c, self.w = sc(c), tuple(w)

    @classmethod
    def string(cls, c, *key):
        return cls(c, (One(At("string", key)),))

    @property
    def coefficient(self):
        return self.c * kappa(self.w)

    def with_coefficient(self, x):
        k = kappa(self.w)
        return PT(sc(x) * SComplex(k.re, -k.im), self.w)

    def mul(self, o):
        return PT(self.c * o.c, self.w + o.w)

    def scaled(self, x):
        return PT(self.c * sc(x), self.w)

    def __pyvc_getattr__(self, I, name):
        if name == "coefficient":
            return self.coefficient
        d = I.find_method(PauliTerm, name)
        if isinstance(d, property):
            return I.call(d.fget, [self])
        if isinstance(d, staticmethod):
            return d.__func__
        if d is None:
            raise AttributeError(name)
        import types

        return types.MethodType(d, self)

    def __pyvc_isinstance__(self, I, cls):
        return isinstance(cls, type) and issubclass(PauliTerm, cls)

    def __pyvc_class__(self, I):
        return PauliTerm

    def __pyvc_iter__(self, I):
        return tuple(I.iter_segs(I.call(PauliTerm.__iter__, [self])))

    def _op(name):
        def f(self, o):
            I = core.cur.interp
            return I.call(getattr(PauliTerm, name), [self, o])

        return f

    for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__pow__"):
        locals()[_n] = _op(_n)
    del _n, _op

    def __pyvc_eq__(self, I, o):
        return I.call(PauliTerm.__eq__, [self, o])

    def __pyvc_eqv__(self, o):
        if not isinstance(o, PT):
            return False
        return V.conj([V.eqv(self.c, o.c), V.seq_eqv(self.w, o.w)])

    def __pyvc_subst__(self, f):
        return PT(f(self.c), f(self.w))

    def __pyvc_syntax__(self):
        return (self.c, self.w)

    def __pyvc_havoc__(self, I):
        hid = I.e.fresh_name("term")
        a, b = z3.Real(I.e.fresh_name("ix_·tr")), z3.Real(I.e.fresh_name("ix_·ti"))
        r = PT(SComplex(a, b), (Hole(hid),))
        r.hid = hid
        return r, [a, b]

    def __pyvc_summ__(self, I, n, i, old, vals, conds_ok):
        """loops that multiply from the right and leave the scalar alone"""
        if not isinstance(old, PT) or any(k == "new" and not isinstance(v, PT) for _, k, v in vals):
            return None
        if len(vals) > 1 and not conds_ok:
            return None
        parts = []
        for c, k, v in vals:
            if k == "same":
                parts.append(())
                continue
            if not V.same_syntax(v.c, self.c) or not v.w or not isinstance(v.w[0], Hole) or v.w[0].id != self.hid:
                return None
            parts.append(v.w[1:])

        def at(m):
            m = z3.simplify(toint(m))
            body = parts[0] if len(parts) == 1 else tuple(Guard(c, p) for (c, _, _), p in zip(vals, parts) if p)
            return PT(old.c, old.w + ((Flat(m, i, body),) if body else ()))

        def parts_(m):
            return [old.c.re, old.c.im]

        at.parts = parts_
        return at

    __hash__ = object.__hash__

    def __repr__(self):
        return f"PT({self.c!r}, {self.w!r})"


class Term:
    """a PauliTerm with known letters and coefficient, as a value that families can range over"""

    __pyvc_value__ = True

    def __init__(self, d, c):
        self.d, self.c = d, c

    def __pyvc_getattr__(self, I, name):
        if name == "coefficient":
            return self.c
        if name == "_ops":
            return self.d
        return PT.__pyvc_getattr__(self, I, name)

    __pyvc_isinstance__, __pyvc_class__ = PT.__pyvc_isinstance__, PT.__pyvc_class__

    def __pyvc_iter__(self, I):
        return tuple(I.iter_segs(I.call(PauliTerm.__iter__, [self])))

    def __pyvc_len__(self, I=None):
        return (I or core.cur.interp).call(PauliTerm.__len__, [self])

    def __pyvc_eq__(self, I, o):
        return I.call(PauliTerm.__eq__, [self, o])

    def __pyvc_eqv__(self, o):
        return isinstance(o, Term) and V.conj([V.eqv(self.c, o.c), V.eqv(self.d, o.d)])

    def __pyvc_subst__(self, f):
        return Term(f(self.d), f(self.c))

    def __pyvc_syntax__(self):
        return (self.d, self.c)

    for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__pow__"):
        locals()[_n] = PT.__dict__[_n]
    del _n

    __hash__ = object.__hash__

    def __repr__(self):
        return f"Term({self.c!r}, {self.d.fn})"


def sigma(code, q):
    return At("sigma", (z3.IntVal(code), toint(q)))


def spelled(letters):
    """the string with these letters as a product over an enumeration of its qubits (the factors commute: any order)"""
    f = letters.set().enumerate_()[0]
    p = letters.at(f.val)
    return (Flat(f.n, f.var, tuple(Guard(p == k, (One(sigma(k, f.val)),)) for k in (1, 2, 3))),)

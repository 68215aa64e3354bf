"""Models of builtins and standard library functions on symbolic arguments.

Each model is exact on its stated domain; outside of it the run ends as undecided (Unsupported).
Models that assume something about a library (inverse pairs, XML transport) name the assumption in ASSUMED.
"""
import base64
import binascii
import builtins
import datetime
import decimal
import enum
import operator
import queue
import ntpath
import posixpath
import re
import struct
import uuid
import xml.etree.ElementTree as ET
import z3

from .core import Unsupported
from .values import *  # noqa
from .values import _CT
from . import values as V
from .rt import RT, HOOKS, BoundModel, deep_sym, any_sym

NATIVE = object()
FUNCS = {}
CLASSES = {}
CLSMETHODS = {}
VALUE_BASES = (int, str, bytes, float, datetime.datetime, datetime.timedelta, decimal.Decimal)
ASSUMED = {}


def assumed(name, text):
    if RT.eng is not None:
        RT.eng.assumed = getattr(RT.eng, "assumed", {})
        RT.eng.assumed[name] = text


def func(f):
    def d(m):
        FUNCS[f] = m
        return m
    return d


def klass(c):
    def d(m):
        CLASSES[c] = m
        return m
    return d


def clsmethod(c, n):
    def d(m):
        CLSMETHODS[c, n] = m
        return m
    return d


def holds_sym(x):
    if isinstance_proxy(x):
        return True
    if isinstance(x, uuid.UUID):
        try:
            return isinstance_proxy(object.__getattribute__(x, "int"))
        except AttributeError:
            return False
    return False


def is_int(x):
    return as_int(x) is not None


# ------------------------------------------------------------------ builtin functions
@func(len)
def _len(f, a, k):
    x = a[0]
    if type(x) in (SBytes, SStr):
        n = x.zlen()
        return mkint(n) if not isinstance(n, int) else n
    if type(x) is SymObj:
        f = RT.type_lookup(x._vc_cls, "__len__")
        if RT.is_py(f):
            return f(x)
        p = x._vc_payload
        if type(p) in (SBytes, SStr):
            return _len(f, (p,), {})
        raise TypeError("object of type %r has no len()" % x._vc_cls.__name__)
    if isinstance_proxy(x):
        if hasattr(type(x), "sym_len"):
            return x.sym_len()
        raise Unsupported("len of %s" % x._kind)
    from . import seqs
    r = seqs.sym_len(x)
    if r is not None:
        return r
    m = RT.type_lookup(type(x), "__len__")
    if RT.is_py(m):
        return m(x)
    return NATIVE


@func(isinstance)
def _isinstance(f, a, k):
    x, c = a
    if not isinstance_proxy(x):
        return NATIVE
    if type(x) is Opaque and x.cls is None:
        raise Unsupported("isinstance of an opaque value (%s)" % x.name)
    kc = x.__class__
    return issubclass(kc, c) if not isinstance(c, tuple) else any(issubclass(kc, y) for y in _flat(c))


def _flat(c):
    for y in c:
        if isinstance(y, tuple):
            yield from _flat(y)
        else:
            yield y


@klass(type)
def _type(cls, a, k):
    if len(a) == 1 and isinstance_proxy(a[0]):
        if type(a[0]) is Opaque and a[0].cls is None:
            raise Unsupported("type of an opaque value (%s)" % a[0].name)
        return a[0].__class__
    return NATIVE


@func(getattr)
def _getattr(f, a, k):
    if isinstance_proxy(a[1]) if len(a) > 1 else False:
        raise Unsupported("getattr with a symbolic name")
    if type(a[0]) is Opaque and a[0].cls is not None and len(a) == 3 and a[1] not in a[0].attrs:
        if not hasattr(a[0].cls, a[1]):
            if a[1] in ("PSObject", "nanosecond", "nanoseconds"):
                return a[2]
    return NATIVE


@func(setattr)
def _setattr(f, a, k):
    if isinstance_proxy(a[1]):
        raise Unsupported("setattr with a symbolic name")
    return NATIVE


@func(hasattr)
def _hasattr(f, a, k):
    if isinstance_proxy(a[0]) and type(a[0]) is Opaque:
        if a[0].cls is None:
            raise Unsupported("hasattr of an opaque value")
        return a[1] in a[0].attrs or hasattr(a[0].cls, a[1])
    return NATIVE


for _f in (id, callable, issubclass, iter, next, print):
    FUNCS[_f] = lambda f, a, k: NATIVE


@func(iter)
def _iter(f, a, k):
    if isinstance_proxy(a[0]) and not hasattr(type(a[0]), "sym_iter"):
        raise Unsupported("iter of %s" % a[0]._kind)
    return NATIVE


@func(hash)
def _hash(f, a, k):
    x = a[0]
    if isinstance_proxy(x) and type(x) is not SymObj:
        return SHash(("hash", _key(x)))
    m = RT.type_lookup(x._vc_cls if type(x) is SymObj else type(x), "__hash__")
    if RT.is_py(m):
        return m(x)
    if type(x) is SymObj:
        return SHash(("hash", _key(x)))
    if deep_sym(x) or RT.hash_sym:
        return SHash(("hash", _key(x)))
    return NATIVE


class SHash(Proxy):
    """hash(x): equal for equal x; nothing else is known."""
    __slots__ = ("k",)
    _kind = "symbolic hash"
    __class__ = property(lambda s: int)

    def __init__(self, k):
        self.k = k

    def same(self, o):
        if type(o) is not SHash:
            return False
        return _key_eq(self.k, o.k)

    def __eq__(self, o):
        if ctx().valid(to_bool(mkbool(self.same(o)))):
            return True
        raise Unsupported("comparison of hashes")

    __hash__ = Proxy.__hash__


def _key(x):
    if isinstance(x, tuple):
        return tuple(_key(y) for y in x)
    return payload(x)


def _key_eq(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b)):
            return False
        r = z3.BoolVal(True)
        for x, y in zip(a, b):
            e = _key_eq(x, y)
            r = z3.And(r, e if not isinstance(e, bool) else z3.BoolVal(e))
        return r
    e = (a == b)
    return to_bool(e) if e is not NotImplemented else False


@func(divmod)
def _divmod(f, a, k):
    if not any_sym(a, k):
        return NATIVE
    x, y = a
    if type(x) in (SInt, STimedelta):
        r = x.__divmod__(y)
        if r is NotImplemented:
            raise TypeError("unsupported operand type(s) for divmod()")
        return r
    if type(x) is SymObj:
        return x.__divmod__(y)
    if type(y) is SInt:
        return y.__rdivmod__(x)
    return NATIVE


@func(abs)
def _abs(f, a, k):
    return NATIVE


@func(repr)
def _repr(f, a, k):
    return py_repr(a[0]) if deep_sym(a[0]) else NATIVE


def py_repr(x):
    x = payload(x)
    if type(x) is SInt:
        return int_text(x)
    return text("repr", src=("repr", x))


@func(chr)
def _chr(f, a, k):
    x = as_int(a[0])
    if isinstance(x, int) and not isinstance_proxy(a[0]):
        return NATIVE
    if RT.ctx.branch(z3.Or(x < 0, x > 0x10ffff)):
        raise ValueError("chr() arg not in range(0x110000)")
    return SStr([Txt("chr", 1, src=("chr", SInt(x)))])


@func(ord)
def _ord(f, a, k):
    x = a[0]
    if type(x) is SStr and len(x.segs) == 1 and isinstance(x.segs[0], Txt) and x.segs[0].src and x.segs[0].src[0] == "chr":
        return x.segs[0].src[1]
    return NATIVE


@func(min)
def _min(f, a, k):
    if not any_sym(a, k) or k:
        return NATIVE
    xs = list(a[0]) if len(a) == 1 else list(a)
    r = xs[0]
    for x in xs[1:]:
        if x < r:
            r = x
    return r


@func(max)
def _max(f, a, k):
    if not any_sym(a, k) or k:
        return NATIVE
    xs = list(a[0]) if len(a) == 1 else list(a)
    r = xs[0]
    for x in xs[1:]:
        if x > r:
            r = x
    return r


@func(any)
def _any(f, a, k):
    for x in a[0]:
        if x:
            return True
    return False


@func(all)
def _all(f, a, k):
    for x in a[0]:
        if not x:
            return False
    return True


@func(sum)
def _sum(f, a, k):
    if not any_sym(a, k):
        return NATIVE
    r = a[1] if len(a) > 1 else 0
    for x in a[0]:
        r = r + x
    return r


@klass(range)
def _range(cls, a, k):
    if any_sym(a, k):
        raise Unsupported("range of symbolic length")
    return NATIVE


@func(format)
def _format(f, a, k):
    return fmt(a[0], -1, a[1] if len(a) > 1 else "")


for _op in ("eq", "ne", "lt", "le", "gt", "ge", "add", "sub", "mul", "mod", "floordiv", "and_", "or_", "xor", "not_", "neg", "contains", "getitem"):
    FUNCS[getattr(operator, _op)] = lambda f, a, k: NATIVE


@func(operator.contains)
def _opcontains(f, a, k):
    return HOOKS.in_(a[1], a[0])


@func(operator.getitem)
def _opgetitem(f, a, k):
    return getitem(*a)


# ------------------------------------------------------------------ classes
@klass(bool)
def _bool(cls, a, k):
    if a and type(a[0]) is SBool:
        return a[0]
    if a and type(a[0]) is SInt:
        return mkbool(a[0].expr != 0)
    if a and isinstance_proxy(a[0]):
        return True if a[0] else False
    return NATIVE


@klass(int)
def _int(cls, a, k):
    if not any_sym(a, k):
        if a and type(a[0]) is not int:
            m = RT.type_lookup(type(a[0]), "__int__")
            if RT.is_py(m) and "_vc_" in m.__globals__:
                return m(a[0])
        return NATIVE
    return to_int_value(a, k)


def to_int_value(a, k):
    x = a[0]
    base = a[1] if len(a) > 1 else k.get("base", 10)
    if isinstance_proxy(base):
        raise Unsupported("symbolic base")
    p = payload(x)
    if type(p) is SInt:
        return p
    if type(p) is SBool:
        return mkint(as_int(p))
    if type(p) is SRatio:
        return p.trunc()
    if type(p) is SStr:
        return parse_int(p, base)
    if type(p) is SHash:
        return p
    if type(p) is Opaque and p.cls is not None and issubclass(p.cls, (float, decimal.Decimal)):
        raise Unsupported("int of an opaque float")
    if not isinstance_proxy(p):
        return int(p, base) if isinstance(p, str) and base != 10 else int(p)
    raise Unsupported("int of %s" % p._kind)


def parse_int(s, base):
    segs = s.segs
    if len(segs) == 1 and isinstance(segs[0], Txt) and segs[0].src and segs[0].src[0] == "int" and base == 10:
        return segs[0].src[1]
    if len(segs) == 1 and isinstance(segs[0], Txt):
        raise Unsupported("int of opaque text")
    if base != 10:
        raise Unsupported("int with base of symbolic text")
    neg = False
    segs = list(segs)
    if isinstance(segs[0], str) and segs[0][:1] in ("-", "+"):
        neg = segs[0][0] == "-"
        segs[0] = segs[0][1:]
        segs = SStr(segs).segs
    if not segs:
        raise ValueError("invalid literal for int()")
    v = 0
    for i, g in enumerate(segs):
        if isinstance(g, str):
            if not (g.isascii() and g.isdigit()):
                if all(c in "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ.:+-/" for c in g):
                    raise ValueError("invalid literal for int() with base 10")
                raise Unsupported("int of %r" % g)
            v = v * 10 ** len(g) + int(g)
        elif isinstance(g, Fix):
            v = v * 10 ** g.w + g.v
        elif isinstance(g, Dec):
            if i == 0 or isinstance(v, int) and v == 0:
                v = g.v
            else:
                raise Unsupported("unpadded digits after digits")
        else:
            raise Unsupported("int of opaque text")
    return mkint(-v if neg else v)


def int_text(x):
    """decimal text of an integer"""
    e = as_int(x)
    if isinstance(e, int):
        return str(e)
    if RT.lazy_int_text and not RT.ctx.valid(e >= 0):
        memo = RT.ctx.__dict__.setdefault("int_texts", {})
        if e.get_id() not in memo:
            t = Txt("dec", RT.ctx.int("len_dec", 1, 40), src=("int", mkint(e)), xmlsafe="ascii")
            memo[e.get_id()] = (e, t)
        return SStr([memo[e.get_id()][1]])
    if RT.ctx.branch(e >= 0):
        return mkstr([Dec(e)])
    return mkstr(["-", Dec(z3.simplify(-e))])


@klass(float)
def _float(cls, a, k):
    if not any_sym(a, k):
        return NATIVE
    p = payload(a[0])
    if type(p) is SRatio:
        return p
    if type(p) is SInt:
        return SRatio(p.expr, 1)
    if type(p) is Opaque and p.cls is not None and issubclass(p.cls, float):
        return p
    if type(p) is SStr:
        if len(p.segs) == 1 and isinstance(p.segs[0], Txt) and p.segs[0].src and p.segs[0].src[0] == "float":
            assumed("float-text", "float(str(x)) == x for every finite float, also in upper case (CPython repr round trip)")
            return p.segs[0].src[1]
        # digits [. digits]
        num, den, seen = 0, 1, False
        neg = False
        for i, g in enumerate(p.segs):
            if isinstance(g, str):
                for ch in g:
                    if ch == "." and not seen:
                        seen = True
                    elif ch == "-" and i == 0:
                        neg = True
                    elif ch.isascii() and ch.isdigit():
                        num = num * 10 + int(ch)
                        den = den * 10 if seen else den
                    else:
                        raise Unsupported("float of %r" % g)
            elif isinstance(g, Fix):
                num = num * 10 ** g.w + g.v
                den = den * 10 ** g.w if seen else den
            elif isinstance(g, Dec) and not seen and isinstance(num, int) and num == 0:
                num = g.v
            else:
                raise Unsupported("float of symbolic text")
        num = z3.IntVal(0) + num
        return SRatio(-num if neg else num, den)
    raise Unsupported("float of %s" % getattr(p, "_kind", p))


@klass(str)
def _str(cls, a, k):
    if not a:
        return NATIVE
    if len(a) > 1 or k:
        if any_sym(a, k):
            raise Unsupported("str with encoding")
        return NATIVE
    return py_str(a[0])


def py_str(x):
    if type(x) is SStr:
        return x
    if isinstance_proxy(x) and type(x) is not SymObj:
        return value_text(x)
    cls = x._vc_cls if type(x) is SymObj else type(x)
    m = RT.type_lookup(cls, "__str__")
    if RT.is_py(m) and "_vc_" in m.__globals__:
        return m(x)
    if type(x) is SymObj:
        return value_text(x._vc_payload)
    if isinstance(x, uuid.UUID) and holds_sym(x):
        return SStr([Txt("guid", 36, src=("uuid", x.int), xmlsafe="ascii")])
    if deep_sym(x):
        return text("str", src=("str", x))
    if isinstance(x, BaseException) and deep_sym(x.args):
        return text("message", src=("str", x))
    return str(x)


def value_text(p):
    if type(p) is SInt:
        return int_text(p)
    if type(p) is SStr:
        return p
    if type(p) is SBool:
        return "True" if p else "False"
    if type(p) is SUuid:
        return SStr([Txt("guid", 36, src=("uuid", p.int), xmlsafe="ascii")])
    if type(p) is Opaque and p.cls is not None and issubclass(p.cls, (float, decimal.Decimal)):
        t = Txt("number", src=("float" if issubclass(p.cls, float) else "decimal", p), xmlsafe="ascii")
        RT.ctx.assume(t.len > 0)
        return SStr([t])
    return text("str", src=("str", p))


def iter_segs_bytes(x):
    s = SBytes._segs_of(x)
    if s is None:
        return None
    return s


@klass(bytes)
def _bytes(cls, a, k):
    if not any_sym(a, k):
        return NATIVE
    return to_bytes_value(a[0], False)


@klass(bytearray)
def _bytearray(cls, a, k):
    if not a and not k:
        return SBytes([], True)
    if not any_sym(a, k):
        return NATIVE
    return to_bytes_value(a[0], True)


def to_bytes_value(x, mutable):
    s = SBytes._segs_of(x)
    if s is not None:
        return SBytes(s, mutable)
    if isinstance(x, (list, tuple)):
        r = SBytes([], True)
        for y in x:
            r.append(y)
        r.mutable = mutable
        return r
    raise Unsupported("bytes of %s" % getattr(x, "_kind", type(x)))


@klass(list)
def _list(cls, a, k):
    from . import seqs
    if a:
        r = seqs.to_list(a[0])
        if r is not None:
            return r
    return NATIVE


@klass(tuple)
def _tuple(cls, a, k):
    if a and isinstance_proxy(a[0]):
        raise Unsupported("tuple of %s" % a[0]._kind)
    return NATIVE


@klass(dict)
def _dict(cls, a, k):
    if a and not isinstance(a[0], dict):
        d = {}
        for kk, v in a[0]:
            setitem(d, kk, v)
        for kk, v in k.items():
            setitem(d, kk, v)
        return d
    return NATIVE


def mkset(xs):
    out = []
    for x in xs:
        for y in out:
            if x is y or (x == y):
                break
        else:
            out.append(x)
    if any(isinstance_proxy(x) for x in out):
        return SymSet(out)
    return set(out)


class SymSet(Proxy):
    """a set with symbolic members, pairwise different on this path"""
    __slots__ = ("items",)
    _kind = "symbolic set"
    __class__ = property(lambda s: set)

    def __init__(self, items):
        self.items = items

    def _has(self, x):
        return any(x is y or bool(x == y) for y in self.items)

    def __and__(self, o):
        return SymSet([x for x in self.items if (o._has(x) if type(o) is SymSet else any(bool(x == y) for y in o))])

    __rand__ = __and__

    def intersection(self, o):
        return self & (o if type(o) is SymSet else SymSet(list(o)))

    def isdisjoint(self, o):
        return not self & (o if type(o) is SymSet else SymSet(list(o)))

    def __or__(self, o):
        return mkset(self.items + list(o.items if type(o) is SymSet else o))

    __ror__ = __or__

    def __bool__(self):
        return bool(self.items)

    def sym_len(self):
        return len(self.items)

    def __iter__(self):
        return iter(list(self.items))

    __hash__ = Proxy.__hash__


@klass(set)
def _set(cls, a, k):
    if not a or isinstance_proxy(a[0]):
        return NATIVE
    xs = list(a[0])
    if any(isinstance_proxy(x) for x in xs):
        return mkset(xs)
    return set(xs)


@klass(zip)
def _zip(cls, a, k):
    if any(isinstance_proxy(x) for x in a):
        raise Unsupported("zip of symbolic values")
    return NATIVE


@klass(enumerate)
def _enumerate(cls, a, k):
    from . import seqs
    if a:
        r = seqs.enum_iter(a[0])
        if r is not None:
            return r
    if isinstance_proxy(a[0]):
        if type(a[0]) is SBytes:
            return enumerate(iter(a[0]), *a[1:], **k)
        raise Unsupported("enumerate")
    return NATIVE


@klass(reversed)
def _reversed(cls, a, k):
    if isinstance_proxy(a[0]):
        if type(a[0]) is SBytes:
            return reversed(list(a[0]))
        raise Unsupported("reversed")
    return NATIVE


@klass(memoryview)
def _mv(cls, a, k):
    if any_sym(a, k):
        raise Unsupported("memoryview")
    return NATIVE


def enum_call(cls, x):
    """Lookup of an enum member by a symbolic value: one path per member, one for no member."""
    p = payload(x)
    e = as_int(p)
    if e is None:
        if type(p) is SStr:
            for m in cls:
                if isinstance(m.value, str) and bool(p == m.value):
                    return m
            raise ValueError("%s is not a valid %s" % ("?", cls.__qualname__))
        raise Unsupported("enum of %s" % getattr(p, "_kind", p))
    members = list(cls.__members__.values())
    if issubclass(cls, enum.Flag):
        full = 0
        for m in members:
            full |= int(m.value)
        if bin(full).count("1") <= 10:
            vals = sorted({v for v in range(0, full + 1) if v & ~full == 0})
        else:
            raise Unsupported("flag with many members")
    else:
        vals = [int(m.value) for m in members if isinstance(m.value, int)]
    vals = sorted(set(vals))
    c = RT.ctx

    def feas(i):
        if i < len(vals):
            return e == vals[i] if not isinstance(e, int) else z3.BoolVal(e == vals[i])
        return z3.And(*[e != v for v in vals]) if not isinstance(e, int) else z3.BoolVal(e not in vals)
    i = c.choose(len(vals) + 1, feas)
    if i == len(vals):
        raise ValueError("value is not a valid %s" % cls.__qualname__)
    return cls(vals[i])


# ------------------------------------------------------------------ int/str/bytes __new__ on classes deriving from them
@func(int.__new__)
def _int_new(f, a, k):
    if not any_sym(a[1:], k):
        return NATIVE
    cls = a[0]
    v = to_int_value(a[1:], k)
    if cls is int:
        return v
    return SymObj(cls, v if isinstance_proxy(v) else v)


@func(str.__new__)
def _str_new(f, a, k):
    cls = a[0]
    if len(a) == 2 and not k and not isinstance_proxy(a[1]) and not isinstance(a[1], (str, int, float, bytes, type)) and RT.is_py(RT.type_lookup(type(a[1]), "__str__")):
        v = py_str(a[1])
        if type(v) is SymObj and cls is not str:
            v = v._vc_payload
        return SymObj(cls, v) if isinstance_proxy(v) and cls is not str else v if cls is str else str.__new__(cls, v)
    if not any_sym(a[1:], k):
        return NATIVE
    if len(a) > 2 or k:
        raise Unsupported("str with encoding")
    v = py_str(a[1])
    return v if cls is str else SymObj(cls, v)


@func(bytes.__new__)
def _bytes_new(f, a, k):
    if not any_sym(a[1:], k):
        return NATIVE
    v = to_bytes_value(a[1], False)
    return v if a[0] is bytes else SymObj(a[0], v)


@func(float.__new__)
def _float_new(f, a, k):
    if not any_sym(a[1:], k):
        return NATIVE
    v = _float(float, a[1:], k)
    return v if a[0] is float else SymObj(a[0], v)


@func(dict.__new__)
def _dict_new(f, a, k):
    return dict.__new__(a[0])


@func(list.__new__)
def _list_new(f, a, k):
    return list.__new__(a[0])


@func(decimal.Decimal.__new__)
def _decimal_new(f, a, k):
    if not any_sym(a[1:], k):
        return NATIVE
    p = payload(a[1])
    if type(p) is SStr and len(p.segs) == 1 and isinstance(p.segs[0], Txt) and p.segs[0].src and p.segs[0].src[0] == "decimal":
        assumed("decimal-text", "Decimal(str(x)) == x for every finite Decimal, also in upper case")
        return SymObj(a[0], p.segs[0].src[1])
    if type(p) is Opaque and p.cls is not None and issubclass(p.cls, decimal.Decimal):
        return SymObj(a[0], p)
    raise Unsupported("Decimal of %s" % getattr(p, "_kind", p))


@func(datetime.timedelta.__new__)
def _td_new(f, a, k):
    if not any_sym(a[1:], k):
        return NATIVE
    us = td_args(a[1:], k)
    t = mktd(us)
    if a[0] is datetime.timedelta:
        return t
    return SymObj(a[0], t)


def td_args(a, k):
    names = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
    mult = {"days": 86400 * 10 ** 6, "seconds": 10 ** 6, "microseconds": 1, "milliseconds": 1000, "minutes": 60 * 10 ** 6, "hours": 3600 * 10 ** 6,
            "weeks": 7 * 86400 * 10 ** 6}
    kw = dict(zip(names, a))
    kw.update(k)
    us = 0
    for n, v in kw.items():
        if n not in mult:
            raise TypeError("unexpected keyword argument %r" % n)
        e = as_int(v)
        if e is None:
            raise Unsupported("timedelta from %s" % getattr(v, "_kind", type(v)))
        us = us + e * mult[n]
    return us


@klass(datetime.timedelta)
def _td(cls, a, k):
    if not any_sym(a, k):
        return NATIVE
    return mktd(td_args(a, k))


# ------------------------------------------------------------------ uuid
@klass(uuid.UUID)
def _uuid(cls, a, k):
    if not any_sym(a, k):
        return NATIVE
    return SUuid(uuid_value(a, k))


def uuid_value(a, k):
    kw = dict(zip(["hex", "bytes", "bytes_le", "fields", "int", "version"], a))
    kw.update(k)
    kw = {n: v for n, v in kw.items() if v is not None}
    if len(kw) != 1:
        raise Unsupported("UUID arguments")
    n, v = list(kw.items())[0]
    if n == "int":
        e = as_int(v)
        if RT.ctx.branch(z3.Or(e < 0, e >= 1 << 128)):
            raise ValueError("int is out of range (need a 128-bit value)")
        return e
    if n == "hex":
        p = payload(v)
        if type(p) is SStr and len(p.segs) == 1 and isinstance(p.segs[0], Txt) and p.segs[0].src and p.segs[0].src[0] == "uuid":
            assumed("uuid-text", "uuid.UUID(str(u)) == u")
            return as_int(p.segs[0].src[1])
        raise Unsupported("UUID of text")
    if n in ("bytes", "bytes_le"):
        if type(v) is not SBytes:
            raise Unsupported("UUID of %s" % type(v))
        if RT.ctx.branch(v.zlen() != 16 if not isinstance(v.zlen(), int) else z3.BoolVal(v.zlen() != 16)):
            raise ValueError("bytes is not a 16-char string")
        le = n == "bytes_le"
        if len(v.segs) == 1 and isinstance(v.segs[0], UuidSeg) and v.segs[0].le == le:
            return v.segs[0].v
        order = [3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15] if le else list(range(16))
        t = 0
        for i in range(16):
            t = t + as_int(v.byte0(order[i])) * 256 ** (15 - i)
        return t
    raise Unsupported("UUID from " + n)


@func(uuid.UUID.__init__)
def _uuid_init(f, a, k):
    if not any_sym(a[1:], k):
        return NATIVE
    object.__setattr__(a[0], "int", mkint(uuid_value(a[1:], k)))
    object.__setattr__(a[0], "is_safe", uuid.SafeUUID.unknown)
    return None


@func(uuid.UUID.__str__)
def _uuid_str(f, a, k):
    x = a[0] if a else f.__self__
    if holds_sym(x):
        return SStr([Txt("guid", 36, src=("uuid", x.int), xmlsafe="ascii")])
    return NATIVE


@func(uuid.UUID.__repr__)
def _uuid_repr(f, a, k):
    x = a[0] if a else f.__self__
    return text("repr", src=("repr", x)) if holds_sym(x) else NATIVE


# ------------------------------------------------------------------ struct
def _struct_fmt(fmt):
    if isinstance_proxy(fmt) or not isinstance(fmt, (str, bytes)):
        raise Unsupported("struct format")
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    m = re.fullmatch(r"([<>!=@]?)((?:\d*[bBhHiIlLqQs?x])+)", fmt.replace(" ", ""))
    if not m:
        raise Unsupported("struct format " + fmt)
    order = m.group(1)
    if order in ("", "@", "="):
        if order != "=" and not re.fullmatch(r"\d*[bB?]", m.group(2)):
            raise Unsupported("native struct format")
        order = "<"
    little = order == "<"
    out = []
    for n, c in re.findall(r"(\d*)([bBhHiIlLqQs?x])", m.group(2)):
        if c == "s":
            out.append(("s", int(n or 1)))
        else:
            out += [(c, {"b": 1, "h": 2, "i": 4, "l": 4, "q": 8, "?": 1, "x": 1}[c.lower()])] * int(n or 1)
    return little, out


@func(struct.pack)
def _pack(f, a, k):
    if not any_sym(a, k):
        return NATIVE
    return _do_pack(a[0], a[1:])


def _do_pack(fmt, args):
    little, items = _struct_fmt(fmt)
    segs = []
    args = list(args)
    c = RT.ctx
    for code, w in items:
        if code == "x":
            segs.append(b"\0")
            continue
        if not args:
            raise struct.error("pack expected more items")
        v = args.pop(0)
        if code == "s":
            s = SBytes._segs_of(v)
            if s is None or not c.valid(z3.IntVal(0) + V.zlen(s) == w):
                raise Unsupported("struct 's'")
            segs += s
            continue
        if code == "?":
            v = _bool(bool, (v,), {}) if isinstance_proxy(v) else bool(v)
            e = as_int(v)
            segs.append(bytes([e]) if isinstance(e, int) else IntSeg(e, 1, True))
            continue
        e = as_int(v)
        if e is None:
            if isinstance_proxy(v):
                raise Unsupported("struct pack of %s" % v._kind)
            raise struct.error("required argument is not an integer")
        signed = code.islower()
        lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if signed else (0, (1 << (8 * w)) - 1)
        if isinstance(e, int):
            segs.append(struct.pack(("<" if little else ">") + code, e))
            continue
        if c.branch(z3.Or(e < lo, e > hi)):
            raise struct.error("argument out of range")
        segs.append(IntSeg(z3.If(e < 0, e + (1 << (8 * w)), e) if signed and not c.valid(e >= 0) else e, w, little))
    if args:
        raise struct.error("pack expected fewer items")
    return SBytes(segs)


@func(struct.unpack)
def _unpack(f, a, k):
    if not any_sym(a, k):
        return NATIVE
    return _do_unpack(a[0], a[1])


def _do_unpack(fmt, data):
    little, items = _struct_fmt(fmt)
    if type(data) is SymObj:
        data = data._vc_payload
    if type(data) is not SBytes:
        raise Unsupported("struct unpack of %s" % type(data))
    n = sum(w for _, w in items)
    if RT.ctx.branch(z3.IntVal(0) + data.zlen() != n):
        raise struct.error("unpack requires a buffer of %d bytes" % n)
    out = []
    rest = data
    for code, w in items:
        l, r = rest._split(w)
        piece, rest = SBytes(l), SBytes(r)
        if code == "x":
            continue
        if code == "s":
            out.append(SBytes(piece.segs))
            continue
        v = piece.to_int(little)
        if code == "?":
            out.append(mkbool(as_int(v) != 0) if isinstance_proxy(v) else bool(v))
            continue
        if code.islower():
            e = as_int(v)
            v = mkint(z3.If(e >= 1 << (8 * w - 1), e - (1 << (8 * w)), e)) if isinstance_proxy(v) else (v - (1 << (8 * w)) if v >= 1 << (8 * w - 1) else v)
        out.append(v)
    return tuple(out)


@func(struct.unpack_from)
def _unpack_from(f, a, k):
    if not any_sym(a, k):
        return NATIVE
    off = a[2] if len(a) > 2 else k.get("offset", 0)
    n = struct.calcsize(a[0])
    d = getitem(a[1], slice(off, None))
    if type(d) is SBytes:
        if RT.ctx.branch(z3.IntVal(0) + d.zlen() < n):
            raise struct.error("unpack_from requires a larger buffer")
        return _do_unpack(a[0], SBytes(d._split(n)[0]))
    return struct.unpack_from(a[0], d)


import typing as _typing  # noqa
FUNCS[_typing.cast] = lambda f, a, k: k['val'] if 'val' in k else a[1]
FUNCS[struct.calcsize] = lambda f, a, k: NATIVE


@klass(struct.Struct)
def _Struct(cls, a, k):
    return NATIVE


@clsmethod(int, "from_bytes")
def _from_bytes(cls, a, k):
    d = a[0]
    order = a[1] if len(a) > 1 else k.get("byteorder", "big")
    if k.get("signed"):
        raise Unsupported("signed from_bytes")
    if type(d) is not SBytes:
        raise Unsupported("from_bytes of %s" % type(d))
    n = cint(d.zlen())
    if not isinstance(n, int):
        # the length may be decided by the path condition
        for m in range(0, 9):
            if RT.ctx.valid(n == m):
                d = SBytes(d._split(m)[0])
                return d.to_int(order == "little")
        if len(d.segs) == 1 and isinstance(d.segs[0], BlobSeg) and d.segs[0].b.src and d.segs[0].b.src[0] == "intbytes":
            s = d.segs[0]
            if s.b.src[2] == (order == "little") and RT.ctx.valid(z3.And(z3.IntVal(0) + s.s == 0, s.n == s.b.len)):
                return mkint(s.b.src[1])
        raise Unsupported("from_bytes of symbolic length")
    return d.to_int(order == "little")


# ------------------------------------------------------------------ text encodings
def bytes_decode(b, encoding, errors):
    enc = encoding.lower().replace("_", "-")
    if len(b.segs) == 1 and isinstance(b.segs[0], BlobSeg):
        s = b.segs[0]
        if s.b.src and s.b.src[0] == "encode" and s.b.src[2] == (_encname(enc), errors) and RT.ctx.valid(z3.And(z3.IntVal(0) + s.s == 0, s.n == s.b.len)):
            assumed("codec", "text.encode(codec, 'surrogatepass').decode(codec, 'surrogatepass') keeps the UTF-16 code units of the text")
            return s.b.src[1]
        if s.b.src and s.b.src[0] == "ascii" and RT.ctx.valid(z3.And(z3.IntVal(0) + s.s == 0, s.n == s.b.len)) and enc in ("utf-8", "ascii", "latin-1", "iso-8859-1"):
            return s.b.src[1]
        if s.b.utf8 and enc == "utf-8":
            return text("decoded", src=("decode", b))
    if all(isinstance(s, bytes) for s in b.segs):
        return b"".join(b.segs).decode(encoding, errors)
    if enc == "utf-8" and all(isinstance(s, bytes) or isinstance(s, BlobSeg) and s.b.utf8 for s in b.segs):
        return text("decoded", src=("decode", b))
    raise Unsupported("decoding of symbolic bytes")


def _encname(e):
    return {"utf8": "utf-8", "utf16-le": "utf-16-le", "utf16-be": "utf-16-be"}.get(e, e)


def str_encode(s, a, k):
    enc = a[0] if a else k.get("encoding", "utf-8")
    errors = a[1] if len(a) > 1 else k.get("errors", "strict")
    e = _encname(enc.lower().replace("_", "-"))
    if e in ("utf-16-le", "utf-16-be") and errors == "surrogatepass":
        n = RT.ctx.int("units", 0)
        ln = s.zlen()
        RT.ctx.assume(z3.And(n >= ln, n <= 2 * ln))
        b = Blob("encoded", z3.simplify(2 * n), ("encode", s, (e, errors)))
        return SBytes([BlobSeg(b, 0, b.len)])
    if e in ("utf-8", "ascii") and all(isinstance(g, (str, Fix)) or isinstance(g, Txt) and g.src and g.src[0] in ("b64", "uuid", "hexlify") for g in s.segs):
        n = s.zlen()
        b = Blob("ascii", n, ("ascii", s))
        return SBytes([BlobSeg(b, 0, n)])
    raise Unsupported("encoding of symbolic text as %s/%s" % (enc, errors))


@func(base64.b64encode)
def _b64e(f, a, k):
    if not any_sym(a, k):
        return NATIVE
    x = payload(a[0])
    if len(a) > 1 or k or type(x) is not SBytes:
        raise Unsupported("b64encode")
    n = RT.ctx.int("b64len", 0)
    t = Txt("b64", n, src=("b64", x), xmlsafe=True)
    RT.ctx.assume(n == ((x.zlen() + 2) / 3) * 4 if not isinstance(x.zlen(), int) else n == ((x.zlen() + 2) // 3) * 4)
    b = Blob("b64", n, ("ascii", SStr([t])))
    return SBytes([BlobSeg(b, 0, n)])


@func(base64.b64decode)
def _b64d(f, a, k):
    if not any_sym(a, k):
        return NATIVE
    x = payload(a[0])
    if type(x) is SBytes and len(x.segs) == 1 and isinstance(x.segs[0], BlobSeg) and x.segs[0].b.src and x.segs[0].b.src[0] == "ascii":
        x = x.segs[0].b.src[1]
    if type(x) is SStr and len(x.segs) == 1 and isinstance(x.segs[0], Txt) and x.segs[0].src and x.segs[0].src[0] == "b64":
        assumed("base64", "b64decode(b64encode(x)) == x")
        return x.segs[0].src[1]
    raise Unsupported("b64decode")


@func(base64.b16encode)
def _b16e(f, a, k):
    if not any_sym(a, k):
        return NATIVE
    x = payload(a[0])
    t = Txt("b16", src=("b16", x), xmlsafe=True)
    RT.ctx.assume(t.len == 2 * x.zlen())
    b = Blob("b16", t.len, ("ascii", SStr([t])))
    return SBytes([BlobSeg(b, 0, t.len)])


@func(base64.b16decode)
def _b16d(f, a, k):
    if not any_sym(a, k):
        return NATIVE
    x = payload(a[0])
    if type(x) is SStr and len(x.segs) == 1 and isinstance(x.segs[0], Txt) and x.segs[0].src and x.segs[0].src[0] == "b16":
        assumed("base16", "b16decode(b16encode(x)) == x, b16encode gives upper case")
        return x.segs[0].src[1]
    if type(x) is SStr and len(x.segs) == 1 and isinstance(x.segs[0], Txt) and x.segs[0].src and x.segs[0].src[0] == "b16l":
        assumed("base16", "lower case digits are refused unless casefold is set")
        fold = a[1] if len(a) > 1 else k.get("casefold", False)
        if not fold and RT.ctx.branch(RT.ctx.bool("has_letters")):
            import binascii
            raise binascii.Error("Non-base16 digit found")
        return x.segs[0].src[1]
    raise Unsupported("b16decode")


# ------------------------------------------------------------------ bound builtin methods
IDENT_ONLY = (list, dict, set, tuple)


def bound_builtin(s, name, a, k, owner=None):
    """A builtin method of a concrete object.  NATIVE when it can run natively."""
    from . import seqs
    if isinstance(s, str) and name == "__getitem__" and len(a) == 1 and isinstance(a[0], slice) and (isinstance_proxy(a[0].start) or isinstance_proxy(a[0].stop)):
        if not str.__len__(s):
            return ""
        t = Txt("slice")
        RT.ctx.assume(t.len <= str.__len__(s))
        return mkstr([t])
    if isinstance(s, (bytes, bytearray)) and name == "join":
        xs = seqs.native_list(a[0])
        if any(isinstance_proxy(x) for x in xs):
            segs = []
            for i, x in enumerate(xs):
                if i and len(s):
                    segs.append(bytes(s))
                g = SBytes._segs_of(x)
                if g is None:
                    raise TypeError("sequence item %d: expected a bytes-like object, %s found" % (i, type(x).__name__))
                segs += g
            return SBytes(segs, isinstance(s, bytearray))
        return NATIVE if isinstance(a[0], (list, tuple)) else s.join(xs)
    if isinstance(s, str) and name == "join":
        r = seqs.join(s, a[0])
        if r is not None:
            return r
        xs = seqs.native_list(a[0])
        if any(isinstance_proxy(x) for x in xs):
            segs = []
            for i, x in enumerate(xs):
                if i:
                    segs.append(str.__str__(s))
                g = SStr._segs_of(x)
                if g is None:
                    raise TypeError("sequence item %d: expected str instance" % i)
                segs += g
            return mkstr(segs)
        return str.join(s, xs)
    if isinstance(s, str) and name == "format" and any_sym(a, k):
        raise Unsupported("str.format")
    if isinstance(s, bytearray) and name in ("extend", "__iadd__") and any_sym(a, k):
        raise Unsupported("symbolic bytes appended in place to a concrete buffer")
    if isinstance(s, list):
        r = seqs.list_method(s, name, a, k)
        if r is not NATIVE:
            return r
        if name in ("append", "insert", "extend", "pop", "clear", "copy", "reverse", "__init__", "__setitem__", "__iter__", "__len__"):
            if name == "extend" and isinstance_proxy(a[0]):
                raise Unsupported("list.extend")
            if name in ("insert", "pop", "__setitem__") and a and isinstance_proxy(a[0]):
                raise Unsupported("symbolic list index")
            return _native(s, name, a, k, owner)
        if name in ("remove", "index", "count", "__contains__"):
            i = _list_find(s, a[0])
            if name == "__contains__":
                return i is not None
            if name == "count":
                raise Unsupported("list.count") if any_sym(a, k) or deep_sym(s) else NATIVE
            if i is None:
                raise ValueError("list.remove(x): x not in list")
            if name == "index":
                return i
            list.__delitem__(s, i)
            return None
        if name == "__getitem__":
            if isinstance(a[0], str) or isinstance_proxy(a[0]) and a[0].__class__ is str:
                raise TypeError("list indices must be integers or slices, not str")
            return NATIVE
        return NATIVE
    if isinstance(s, dict):
        if name in ("get", "pop", "setdefault", "__getitem__", "__setitem__", "__delitem__", "__contains__") and a:
            key = a[0]
            if (isinstance_proxy(key) or any(isinstance_proxy(x) for x in dict.keys(s))):
                f, kk = dict_find(s, key)
                if name == "__contains__":
                    return f
                if name == "__getitem__":
                    if not f:
                        raise KeyError(key)
                    return _h(lambda: dict.__getitem__(s, kk))
                if name == "__setitem__":
                    return _h(lambda: dict.__setitem__(s, kk if f else key, a[1]))
                if name == "__delitem__":
                    if not f:
                        raise KeyError(key)
                    return _h(lambda: dict.__delitem__(s, kk))
                if name == "get":
                    return _h(lambda: dict.__getitem__(s, kk)) if f else (a[1] if len(a) > 1 else k.get("default"))
                if name == "pop":
                    if f:
                        return _h(lambda: dict.pop(s, kk))
                    if len(a) > 1:
                        return a[1]
                    raise KeyError(key)
                if name == "setdefault":
                    d = a[1] if len(a) > 1 else None
                    if not f:
                        _h(lambda: dict.__setitem__(s, key, d))
                        return d
                    return _h(lambda: dict.__getitem__(s, kk))
            return _native(s, name, a, k, owner)
        if name == "update":
            if a:
                src = a[0].items() if isinstance(a[0], dict) else a[0]
                for kk, v in list(src):
                    bound_set(s, kk, v)
            for kk, v in k.items():
                bound_set(s, kk, v)
            return None
        if name in ("items", "keys", "values", "copy", "clear", "popitem", "__init__", "__iter__", "__len__"):
            if name == "__init__" and any_sym(a, k):
                for kk, v in (a[0].items() if a and isinstance(a[0], dict) else (a[0] if a else ())):
                    bound_set(s, kk, v)
                for kk, v in k.items():
                    bound_set(s, kk, v)
                return None
            if name in ("copy",):
                return _h(lambda: dict.copy(s))
            return _native(s, name, a, k, owner)
        return NATIVE
    if isinstance(s, set) and any_sym(a, k):
        raise Unsupported("set.%s" % name)
    if isinstance(s, tuple) and name in ("__new__",):
        return NATIVE
    if isinstance(s, re.Pattern):
        if any_sym(a, k):
            from . import rx
            return rx.pattern_method(s, name, a, k)
        return NATIVE
    if isinstance(s, struct.Struct) and any_sym(a, k):
        if name == "pack":
            return _do_pack(s.format, a)
        if name == "unpack":
            return _do_unpack(s.format, a[0])
        raise Unsupported("Struct.%s" % name)
    if isinstance(s, ET.Element):
        if name in ("append", "insert", "remove", "extend", "get", "set", "iter", "find", "findall", "findtext", "items", "keys", "itertext", "clear"):
            from . import seqs
            return seqs.element_method(s, name, a, k)
        return NATIVE
    if isinstance(s, int) and any_sym(a, k):
        if name.startswith("__"):
            return int_method(s, name, a)
        raise Unsupported("int.%s" % name)
    if isinstance(s, datetime.datetime) and any_sym(a, k):
        from . import dt
        return dt.concrete_method(s, name, a, k)
    if isinstance(s, datetime.timedelta) and any_sym(a, k):
        from . import dt
        return dt.td_method(STimedelta(z3.IntVal(td_us(s))), name, a, k)
    if type(s).__module__ == "_queue" or type(s).__name__ in ("deque", "RunDeque"):
        if name in ("append", "appendleft", "extend", "put", "popleft", "pop", "clear", "copy"):
            return _native(s, name, a, k, owner)
    if type(s).__name__ in ("generator", "mappingproxy", "method-wrapper"):
        return NATIVE
    if owner is object or name in ("__setattr__", "__getattribute__", "__init__", "__init_subclass__"):
        if not isinstance_proxy(s):
            if name == "__setattr__" and len(a) == 2 and not isinstance_proxy(a[0]):
                return _native(s, name, a, k, owner)
            if name == "__init__":
                return _native(s, name, a, k, owner)
    return NATIVE


def _native(s, name, a, k, owner):
    if owner is not None:
        return getattr(owner, name)(s, *a, **k)
    t = type(s)
    for b in (list, dict):
        if isinstance(s, b):
            return getattr(b, name)(s, *a, **k)
    return getattr(s, name)(*a, **k)


def _h(f):
    RT.hash_ok = True
    try:
        return f()
    finally:
        RT.hash_ok = False


def bound_set(d, k, v):
    if isinstance_proxy(k) or any(isinstance_proxy(x) for x in dict.keys(d)):
        f, kk = dict_find(d, k)
        _h(lambda: dict.__setitem__(d, kk if f else k, v))
    else:
        dict.__setitem__(d, k, v)


def dict_find(d, key):
    """(found, key object in the dict): equality with each present key is decided on the path"""
    for kk in list(dict.keys(d)):
        if kk is key:
            return True, kk
        if kk is None or key is None:
            continue
        if hasattr(kk, "_vc_key") or hasattr(key, "_vc_key"):
            pass
        r = (kk == key)
        if r is NotImplemented:
            continue
        if r:
            return True, kk
    return False, None


def _list_find(lst, x):
    for i, y in enumerate(list.__iter__(lst)):
        if y is x:
            return i
        r = (y == x)
        if r is not NotImplemented and r:
            return i
    return None


INT_OPS = {"__add__": "add", "__sub__": "sub", "__mul__": "mul", "__floordiv__": "floordiv", "__mod__": "mod", "__and__": "and", "__or__": "or",
           "__xor__": "xor", "__lshift__": "lshift", "__rshift__": "rshift", "__pow__": "pow"}


def int_method(s, name, a):
    """builtin int method with the receiver s (int, or symbolic) and maybe symbolic arguments"""
    e = as_int(s)
    x = SInt(e if not isinstance(e, int) else z3.IntVal(e))
    base = "__" + name[3:] if name.startswith("__r") and name not in ("__rshift__", "__repr__", "__round__") else name
    if base in INT_OPS and base != name or name == "__rrshift__":
        base = "__rshift__" if name == "__rrshift__" else base
        o = as_int(a[0])
        if o is None:
            return NotImplemented
        return mkint(int_op(INT_OPS[base], o, e))
    if name in INT_OPS:
        o = as_int(a[0])
        if o is None:
            return NotImplemented
        if len(a) > 1 and a[1] is not None:
            m = as_int(a[1])
            if m is None:
                return NotImplemented
            r = as_int(mkint(int_op("pow", e, o)))
            if RT.ctx.branch(z3.IntVal(0) + m == 0):
                raise ValueError("pow() 3rd argument cannot be 0")
            return mkint(int_op("mod", r, m))
        return mkint(int_op(INT_OPS[name], e, o))
    if name == "__divmod__":
        o = as_int(a[0])
        if o is None:
            return NotImplemented
        return (mkint(int_op("floordiv", e, o)), mkint(int_op("mod", e, o)))
    if name == "__neg__":
        return mkint(-e)
    if name in ("__pos__", "__int__", "__index__", "__trunc__"):
        return mkint(e)
    if name == "__invert__":
        return mkint(-e - 1)
    if name == "__abs__":
        return abs(x) if not isinstance(e, int) else abs(e)
    if name in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
        return getattr(x, name)(a[0])
    if name in ("__str__", "__repr__"):
        return int_text(x)
    if name == "__bool__":
        return bool(x)
    if name == "__hash__":
        return SHash(("hash", x))
    if name == "__format__":
        return fmt(x, -1, a[0])
    if name in ("to_bytes",):
        return x.to_bytes(*a)
    if name == "__truediv__":
        return x / a[0]
    raise Unsupported("int.%s" % name)


def builtin_method(o, owner, name, a, k):
    """method `name` of the builtin class `owner` on the symbolic instance o"""
    p = o._vc_payload
    if owner is int or type(p) is SInt or (isinstance(p, int) and not isinstance_proxy(p)):
        if name == "to_bytes":
            return p.to_bytes(*a, **k)
        return int_method(p, name, a)
    if type(p) is SStr:
        if name in ("__str__",):
            return p
        if name == "__repr__":
            return py_repr(p)
        if name == "__getitem__":
            return str_getitem(p, a[0])
        if name in ("__eq__", "__ne__", "__add__"):
            return getattr(p, name)(payload(a[0]))
        if name == "__len__":
            return _len(len, (p,), {})
        if name == "__hash__":
            return SHash(("hash", p))
        return str_method(p, name, a, k)
    if type(p) is SBytes:
        if name == "__getitem__":
            return p.getitem(a[0])
        if name in ("__eq__", "__ne__", "__add__"):
            return getattr(p, name)(payload(a[0]))
        if name in ("__repr__", "__str__"):
            return text("repr", src=("repr", p))
        return getattr(p, name)(*a, **k)
    if issubclass(owner, datetime.date) or issubclass(owner, datetime.timedelta):
        from . import dt
        if type(p) is STimedelta:
            return dt.td_method(p, name, a, k)
        return dt.dt_method(p, name, a, k)
    if type(p) is Opaque:
        if name in ("__str__", "__repr__"):
            return value_text(p)
        if name in ("__eq__", "__ne__"):
            return getattr(p, name)(payload(a[0]))
    raise Unsupported("%s.%s on %s" % (owner.__name__, name, getattr(p, "_kind", type(p))))


# ------------------------------------------------------------------ text
def fmt(v, conv, spec):
    if conv == 114:
        v = py_repr(v) if deep_sym(v) else repr(v)
        if type(v) is SStr:
            return v
    elif conv in (115, 97):
        v = py_str(v)
        if type(v) is SStr and conv == 115 and not spec:
            return v
    if type(spec) is SStr:
        raise Unsupported("symbolic format spec")
    p = payload(v)
    if not isinstance_proxy(p):
        if spec == "" and not isinstance(p, (str, int, float)):
            return py_str(v)
        return format(v, spec)
    if spec == "":
        return py_str(v)
    if type(p) is SStr:
        raise Unsupported("format of text with a spec")
    if type(p) is SInt:
        m = re.fullmatch(r"(0?)(\d+)?d?", spec)
        if not m:
            m2 = re.fullmatch(r"\.(\d+)f", spec)
            if m2:
                return fmt(SRatio(p.expr, 1), -1, spec)
            raise Unsupported("format spec " + spec)
        w = int(m.group(2) or 0)
        if not m.group(1) and w:
            raise Unsupported("space padding")
        if w == 0:
            return int_text(p)
        if RT.ctx.branch(p.expr < 0):
            if RT.ctx.branch(-p.expr < 10 ** (w - 1)):
                return mkstr(["-", Fix(z3.simplify(-p.expr), w - 1)])
            return int_text(p)
        if RT.ctx.branch(p.expr < 10 ** w):
            return mkstr([Fix(p.expr, w)])
        return mkstr([Dec(p.expr)])
    if type(p) is SRatio:
        m = re.fullmatch(r"\.(\d+)f", spec)
        if not m:
            raise Unsupported("format spec " + spec)
        w = int(m.group(1))
        if 10 ** w % p.den:
            raise Unsupported("rounding format")
        if w > 9:
            raise Unsupported("float formatting beyond exact precision")
        n = z3.simplify(p.num * (10 ** w // p.den))
        if not RT.ctx.valid(z3.And(p.num < p.den * 2 ** 20, p.num > -p.den * 2 ** 20)) or p.den > 10 ** 9:
            raise Unsupported("float formatting beyond exact precision")
        neg = RT.ctx.branch(n < 0)
        if neg:
            n = -n
        out = ["-"] if neg else []
        out += [Dec(z3.IntVal(0) + int_op("floordiv", n, 10 ** w))]
        if w:
            out += [".", Fix(z3.IntVal(0) + int_op("mod", n, 10 ** w), w)]
        return mkstr(out)
    raise Unsupported("format of %s" % p._kind)


def fstr(parts):
    segs = []
    for p in parts:
        if type(p) is str:
            segs.append(p)
            continue
        if type(p) is SStr:
            segs += p.segs
            continue
        t = fmt(*p)
        segs += t.segs if type(t) is SStr else SStr._segs_of(t)
    return mkstr(segs)


def str_units(s):
    """list of single characters: str of length 1, or ('d', token, index) for a digit of a Fix token; None when a segment has no
    constant length"""
    out = []
    for g in s.segs:
        if isinstance(g, str):
            out += list(g)
        elif isinstance(g, Fix):
            out += [(g, i) for i in range(g.w)]
        elif isinstance(g, Txt) and isinstance(g.len, int) and g.len == 1:
            out.append((g, 0))
        else:
            return None
    return out


def units_str(us):
    segs = []
    i = 0
    while i < len(us):
        u = us[i]
        if isinstance(u, str):
            segs.append(u)
            i += 1
            continue
        g, a = u
        if isinstance(g, Txt):
            segs.append(g)
            i += 1
            continue
        j = i
        b = a
        while j < len(us) and not isinstance(us[j], str) and us[j][0] is g and us[j][1] == b:
            j += 1
            b += 1
        if a == 0 and b == g.w:
            segs.append(g)
        else:
            segs.append(Fix(z3.simplify((g.v / 10 ** (g.w - b)) % 10 ** (b - a)), b - a))
        i = j
    return mkstr(segs)


def str_getitem(s, k):
    if isinstance(k, slice):
        st, en = k.start, k.stop
        if k.step is not None:
            raise Unsupported("slice step on text")
        if isinstance_proxy(st) or isinstance_proxy(en):
            raise Unsupported("symbolic text slice")
        us = str_units(s)
        if us is not None:
            return units_str(us[st:en])
        # unknown length: allow cutting a known prefix or suffix
        if (st or 0) >= 0 and en is None:
            return _cut_front(s, st or 0)[1]
        if (st or 0) == 0 and en is not None and en >= 0:
            return _cut_front(s, en)[0]
        if (st or 0) == 0 and en is not None and en < 0:
            return _cut_back(s, -en)[0]
        if st is not None and st < 0 and en is None:
            return _cut_back(s, -st)[1]
        raise Unsupported("text slice")
    e = as_int(k)
    if not isinstance(e, int):
        raise Unsupported("text index")
    us = str_units(s)
    if us is not None:
        return units_str([us[e]])
    if e >= 0:
        r = _cut_front(s, e)[1]
        return _cut_front(r, 1)[0] if type(r) is SStr else r[0]
    r = _cut_back(s, -e)[1]
    return _cut_front(r, 1)[0] if type(r) is SStr else r[0]


def _cut_front(s, n):
    left, right = [], list(s.segs)
    while n > 0 and right:
        g = right[0]
        if isinstance(g, str):
            left.append(g[:n])
            if len(g) > n:
                right[0] = g[n:]
                n = 0
            else:
                n -= len(g)
                right.pop(0)
        elif isinstance(g, Fix):
            if g.w <= n:
                left.append(right.pop(0))
                n -= g.w
            else:
                left.append(Fix(z3.simplify(g.v / 10 ** (g.w - n)), n))
                right[0] = Fix(z3.simplify(g.v % 10 ** (g.w - n)), g.w - n)
                n = 0
        else:
            raise Unsupported("cut inside text of unknown length")
    return mkstr(left), mkstr(right)


def _cut_back(s, n):
    left, right = list(s.segs), []
    while n > 0 and left:
        g = left[-1]
        if isinstance(g, str):
            right.insert(0, g[-n:])
            if len(g) > n:
                left[-1] = g[:-n]
                n = 0
            else:
                n -= len(g)
                left.pop()
        elif isinstance(g, Fix):
            if g.w <= n:
                right.insert(0, left.pop())
                n -= g.w
            else:
                right.insert(0, Fix(z3.simplify(g.v % 10 ** n), n))
                left[-1] = Fix(z3.simplify(g.v / 10 ** n), g.w - n)
                n = 0
        else:
            raise Unsupported("cut inside text of unknown length")
    return mkstr(left), mkstr(right)


def str_method(s, name, a, k):
    c = RT.ctx
    if name in ("upper", "lower", "strip", "lstrip", "rstrip", "casefold") and not a and all(isinstance(g, Txt) and g.src and g.src[0] == "int" for g in s.segs):
        return s
    if name in ("upper", "lower"):
        out = []
        for g in s.segs:
            if isinstance(g, str):
                out.append(getattr(g, name)())
            elif isinstance(g, (Fix, Dec)):
                out.append(g)
            elif g.src and g.src[0] in ("float", "decimal", "b16") and name == "upper":
                out.append(g)
            elif g.src and g.src[0] in ("b16", "b16l"):
                t = g if (g.src[0] == "b16l") == (name == "lower") else Txt("b16", src=("b16l" if name == "lower" else "b16", g.src[1]), xmlsafe=True)
                if t is not g:
                    c.assume(t.len == g.len)
                out.append(t)
            else:
                raise Unsupported("%s of opaque text" % name)
        return mkstr(out)
    if name == "encode":
        return str_encode(s, a, k)
    if name in ("rstrip", "lstrip", "strip"):
        chars = a[0] if a else None
        if isinstance_proxy(chars):
            raise Unsupported("strip")
        r = s
        if name in ("rstrip", "strip"):
            r = _rstrip(r, chars)
        if name in ("lstrip", "strip") and type(r) is SStr:
            r = _lstrip(r, chars)
        elif name in ("lstrip", "strip"):
            r = r.lstrip(chars)
        return r
    if name in ("ljust", "rjust", "zfill"):
        n = s.zlen()
        w = a[0]
        ch = a[1] if len(a) > 1 else ("0" if name == "zfill" else " ")
        if not isinstance(n, int) or isinstance_proxy(w):
            raise Unsupported(name)
        pad = ch * max(0, w - n)
        if name == "zfill" and isinstance(s.segs[0], str) and s.segs[0][0] in "+-":
            raise Unsupported("zfill with sign")
        segs = s.segs + [pad] if name == "ljust" else [pad] + s.segs
        return _merge_digits(segs)
    if name in ("startswith", "endswith"):
        if len(a) != 1 or k:
            raise Unsupported(name)
        p = a[0]
        if isinstance(p, tuple):
            for x in p:
                if str_method(s, name, (x,), {}):
                    return True
            return False
        if isinstance_proxy(p):
            raise Unsupported(name)
        if not p:
            return True
        if name == "startswith" and isinstance(s.segs[0], Txt) and any(p.startswith(q) for q in s.segs[0].nopre):
            return False
        try:
            us = str_units(s)
            if us is not None:
                if len(us) < len(p):
                    return False
                part = units_str(us[:len(p)] if name == "startswith" else us[-len(p):])
            else:
                part = (_cut_front(s, len(p))[0] if name == "startswith" else _cut_back(s, len(p))[1])
        except Unsupported:
            # decided by the first/last constant character or digit?
            g = s.segs[0] if name == "startswith" else s.segs[-1]
            ch = p[0] if name == "startswith" else p[-1]
            if isinstance(g, str) and (g[0] if name == "startswith" else g[-1]) != ch:
                return False
            if isinstance(g, (Fix, Dec)) and not ch.isdigit():
                return False
            if isinstance(g, Txt) and len(s.segs) == 1:
                return mkbool(z3.And(z3.Function("text_%s" % name, V.Val, V.Val, z3.BoolSort())(g.expr, const_text(p)), g.len >= len(p)))
            raise
        return mkbool(part.eq(p)) if type(part) is SStr else part == p
    if name in ("removeprefix", "removesuffix") and len(a) == 1 and not k and isinstance(a[0], str) and not isinstance_proxy(a[0]):
        pre = name == "removeprefix"
        if not str_method(s, "startswith" if pre else "endswith", a, {}):
            return s
        return _cut_front(s, len(a[0]))[1] if pre else _cut_back(s, len(a[0]))[0]
    if name in ("find", "index", "partition", "split") and len(a) in (1, 2) and not k and isinstance(a[0], str) and not isinstance_proxy(a[0]) and a[0] \
            and isinstance(s.segs[0], str) and a[0] in s.segs[0]:
        i = s.segs[0].find(a[0])  # found in the known text in front
        if name in ("find", "index") and len(a) == 1:
            return i
        if name == "partition" and len(a) == 1:
            return mkstr([s.segs[0][:i]]), a[0], mkstr([s.segs[0][i + len(a[0]):]] + s.segs[1:])
        if name == "split" and len(a) == 2 and a[1] == 1:
            return [mkstr([s.segs[0][:i]]), mkstr([s.segs[0][i + len(a[0]):]] + s.segs[1:])]
    if name == "replace":
        old, new = a[0], a[1]
        if isinstance_proxy(old) or isinstance_proxy(new) or any(isinstance(g, Txt) for g in s.segs) or any(ch.isdigit() for ch in old):
            raise Unsupported("replace")
        if len(old) != 1:
            raise Unsupported("replace")
        return mkstr([g.replace(old, new) if isinstance(g, str) else g for g in s.segs])
    if name == "split" and len(a) == 1 and not isinstance_proxy(a[0]) and len(a[0]) == 1 and not a[0].isdigit():
        if any(isinstance(g, Txt) for g in s.segs):
            raise Unsupported("split of opaque text")
        out, cur = [], []
        for g in s.segs:
            if not isinstance(g, str):
                cur.append(g)
                continue
            ps = g.split(a[0])
            for i, x in enumerate(ps):
                if i:
                    out.append(mkstr(cur))
                    cur = []
                cur.append(x)
        out.append(mkstr(cur))
        return out
    if name == "isdigit":
        if all(isinstance(g, (Fix, Dec)) or isinstance(g, str) and g.isdigit() for g in s.segs):
            return True
        raise Unsupported("isdigit")
    if name in ("partition", "rpartition", "find", "index") and not any(isinstance(g, Txt) for g in s.segs) and not isinstance_proxy(a[0]) and len(a) == 1 and len(a[0]) == 1 and not a[0].isdigit():
        segs = s.segs
        order = range(len(segs)) if name != "rpartition" else range(len(segs) - 1, -1, -1)
        for i in order:
            g = segs[i]
            if isinstance(g, str) and a[0] in g:
                j = g.index(a[0]) if name != "rpartition" else g.rindex(a[0])
                left, right = mkstr(segs[:i] + [g[:j]]), mkstr([g[j + 1:]] + segs[i + 1:])
                if name in ("find", "index"):
                    n = SStr(segs[:i] + [g[:j]]).zlen()
                    return mkint(n) if not isinstance(n, int) else n
                return (left, a[0], right)
        if name == "find":
            return -1
        if name == "index":
            raise ValueError("substring not found")
        return (s, "", "") if name == "partition" else ("", "", s)
    if name == "__str__":
        return s
    if name == "__eq__":
        return s.__eq__(a[0])
    if name in ("translate", "casefold", "title") or True:
        raise Unsupported("str.%s of symbolic text" % name)


def _merge_digits(segs):
    """Fix followed by constant digits becomes one Fix (so that int() sees one number)."""
    return mkstr(segs)


def _rstrip(s, chars):
    segs = list(s.segs)
    c = RT.ctx
    while segs:
        g = segs[-1]
        if isinstance(g, str):
            t = g.rstrip(chars)
            if t:
                segs[-1] = t
                break
            segs.pop()
            continue
        if isinstance(g, Txt):
            raise Unsupported("strip of opaque text")
        if chars is None or not any(ch.isdigit() for ch in chars):
            break
        digs = [int(ch) for ch in chars if ch.isdigit()]
        if isinstance(g, Fix):
            w, v = g.w, g.v
            stop = False
            while w:
                d = z3.IntVal(0) + int_op("mod", v, 10)
                if c.branch(z3.Or(*[d == x for x in digs])):
                    v = z3.IntVal(0) + int_op("floordiv", v, 10)
                    w -= 1
                else:
                    stop = True
                    break
            segs[-1] = Fix(v, w)
            if w == 0:
                segs.pop()
                continue
            break
        if isinstance(g, Dec):
            v = g.v
            gone = False
            n = 0
            while True:
                if not c.branch(z3.Or(*[v % 10 == x for x in digs])):
                    break
                n += 1
                if n > 25:
                    raise Unsupported("strip of unbounded digits")
                if c.branch(v < 10):
                    gone = True
                    break
                v = z3.simplify(v / 10)
            if gone:
                segs.pop()
                continue
            segs[-1] = Dec(v)
            break
    return mkstr(segs)


def _lstrip(s, chars):
    segs = list(s.segs)
    while segs:
        g = segs[0]
        if isinstance(g, str):
            t = g.lstrip(chars)
            if t:
                segs[0] = t
                break
            segs.pop(0)
            continue
        if isinstance(g, Txt):
            raise Unsupported("strip of opaque text")
        if chars is None or not any(ch.isdigit() for ch in chars):
            break
        raise Unsupported("lstrip of digits")
    return mkstr(segs)


# ------------------------------------------------------------------ containers
def _substring(a, b):
    """concrete needle in text made of literals and opaque parts: an uninterpreted predicate of each opaque part"""
    if type(a) is SymObj and type(a._vc_payload) is str:
        a = a._vc_payload
    if not isinstance(a, str) or isinstance_proxy(a):
        raise Unsupported("substring test")
    if a == "":
        return True
    if len(b.segs) > 1 and len(a) > 1:
        raise Unsupported("substring test across segments")
    es = []
    for g in b.segs:
        if isinstance(g, str):
            if a in g:
                return True
        elif isinstance(g, Txt):
            es.append(z3.And(g.len >= len(a), z3.Function("has_" + a.encode("utf-16-be").hex(), g.expr.sort(), z3.BoolSort())(g.expr)))
        else:
            raise Unsupported("substring test in %s" % type(g).__name__)
    return SBool(z3.Or(*es)) if es else False


def _path_part(name):
    def m(f, a, k):
        if not any_sym(a, k):
            return NATIVE
        return mkstr([Txt(RT.ctx.fresh("path_" + name))])
    return m


for _mod in (posixpath, ntpath):
    for _n in ("dirname", "basename"):
        FUNCS[getattr(_mod, _n)] = _path_part(_n)


def contains(a, b):
    if isinstance_proxy(b):
        if type(b) is SymSet:
            return b._has(a)
        if type(b) is SymObj and not RT.is_py(RT.type_lookup(b._vc_cls, "__contains__")) and type(b._vc_payload) is SStr:
            b = b._vc_payload
        if type(b) is SStr:
            return _substring(a, b)
        if type(b) is SBytes:
            raise Unsupported("substring test")
        if hasattr(type(b), "sym_contains"):
            return b.sym_contains(a)
        raise Unsupported("membership in %s" % b._kind)
    if isinstance(b, (list, tuple)) or type(b) in (list, tuple):
        from . import seqs
        r = seqs.contains(a, b)
        if r is not NATIVE:
            return r
        if not isinstance_proxy(a) and not any(isinstance_proxy(x) for x in (list.__iter__(b) if isinstance(b, list) else tuple.__iter__(b))):
            return NATIVE
        if type(b).__contains__ not in (list.__contains__, tuple.__contains__):
            return NATIVE
        return _list_find(list(b), a) is not None if isinstance(b, list) else any(x is a or bool(x == a) for x in b)
    if isinstance(b, dict):
        if isinstance_proxy(a) or any(isinstance_proxy(x) for x in dict.keys(b)):
            return dict_find(b, a)[0]
        return NATIVE
    if isinstance_proxy(a):
        if type(b) in (type({}.keys()),):
            return any(x is a or bool(x == a) for x in b)
        if isinstance(b, (set, frozenset)):
            return any(x is a or bool(x == a) for x in b)
        if isinstance(b, str):
            raise Unsupported("substring test")
        raise Unsupported("membership of a symbolic value in %s" % type(b).__name__)
    return NATIVE


def getitem(v, i):
    t = type(v)
    if t in (SBytes, SStr):
        return v.getitem(i)
    if t is SymObj:
        f = RT.type_lookup(v._vc_cls, "__getitem__")
        if RT.is_py(f):
            return f(v, i)
        p = v._vc_payload
        if type(p) in (SBytes, SStr):
            return p.getitem(i)
        raise TypeError("not subscriptable")
    if isinstance_proxy(v):
        if hasattr(t, "sym_getitem"):
            return v.sym_getitem(i)
        raise Unsupported("subscript of %s" % v._kind)
    if isinstance(v, dict) and t.__getitem__ is dict.__getitem__:
        r = bound_builtin(v, "__getitem__", (i,), {})
        return v[i] if r is NATIVE else r
    if isinstance(v, list) and t.__getitem__ is list.__getitem__:
        from . import seqs
        r = seqs.list_getitem(v, i)
        if r is not NATIVE:
            return r
    if isinstance_proxy(i) or isinstance(i, slice) and (isinstance_proxy(i.start) or isinstance_proxy(i.stop) or isinstance_proxy(i.step)):
        if isinstance(v, (bytes, bytearray)):
            if isinstance(i, slice):
                return SBytes([bytes(v)], isinstance(v, bytearray)).getitem(i) if len(v) else v[:0]
        if isinstance(v, type) or hasattr(t, "__getitem__") and isinstance(t.__getitem__, type(lambda: 0)):
            return v[i]
        if isinstance(v, type) and issubclass(v, enum.Enum):
            raise Unsupported("enum by symbolic name")
        e = as_int(i)
        if e is not None and isinstance(v, (list, tuple)) and len(v) <= 64:
            for j in range(len(v)):
                if RT.ctx.branch(z3.Or(e == j, e == j - len(v))):
                    return v[j]
            raise IndexError("list index out of range")
        raise Unsupported("symbolic index into %s" % t.__name__)
    return v[i]


def setitem(v, i, x):
    t = type(v)
    if t is dict:
        bound_set(v, i, x)
        return
    if t is SymObj:
        f = RT.type_lookup(v._vc_cls, "__setitem__")
        if RT.is_py(f):
            f(v, i, x)
            return
        raise TypeError("object does not support item assignment")
    if isinstance_proxy(v):
        if hasattr(t, "sym_setitem"):
            v.sym_setitem(i, x)
            return
        raise Unsupported("item assignment on %s" % v._kind)
    if isinstance_proxy(i) and isinstance(v, list):
        raise Unsupported("symbolic list index")
    v[i] = x


def delitem(v, i):
    t = type(v)
    if t is SBytes:
        v.delitem(i)
        return
    if isinstance(v, dict) and t.__delitem__ is dict.__delitem__:
        r = bound_builtin(v, "__delitem__", (i,), {})
        if r is NATIVE:
            del v[i]
        return
    if isinstance_proxy(v):
        if hasattr(t, "sym_delitem"):
            v.sym_delitem(i)
            return
        raise Unsupported("del item of %s" % v._kind)
    if isinstance_proxy(i) or isinstance(i, slice) and (isinstance_proxy(i.start) or isinstance_proxy(i.stop)):
        raise Unsupported("symbolic index in del")
    del v[i]


# ------------------------------------------------------------------ re / binascii module functions
def _re_func(name):
    def m(f, a, k):
        if not any_sym(a, k):
            return NATIVE
        from . import rx
        return rx.module_func(name, a, k)
    return m


for _n in ("sub", "match", "search", "fullmatch", "compile", "split", "findall"):
    FUNCS[getattr(re, _n)] = _re_func(_n)


@func(dir)
def _dir(f, a, k):
    if len(a) == 1 and not isinstance_proxy(a[0]):
        return dir(a[0])
    if len(a) == 1 and type(a[0]) is SymObj:
        return sorted(set(dir(a[0]._vc_cls)) | set(a[0]._vc_dict))
    return NATIVE


@func(binascii.hexlify)
def _hexlify(f, a, k):
    if not any_sym(a, k):
        return NATIVE
    raise Unsupported("hexlify")



from . import xmlmod  # noqa
from . import dt  # noqa

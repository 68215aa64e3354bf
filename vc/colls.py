"""Maps and sequences with arbitrary (unknown, unbounded) earlier content.

SMap: a dict whose content is an arbitrary function of the key, changed by a log of writes.
SSeq: a list that starts with an arbitrary number of unknown items, followed by the items appended since.
"""
import uuid
import z3
from .core import Unsupported
from .values import SStr, Txt, Val, const_text, Proxy, SBool, SInt, SUuid, SymObj, as_int, ctx, isinstance_proxy, mkbool, mkint, payload, to_bool

DEL = object()
CAT = z3.Function("text_cat", Val, Val, Val)
_N = [0]


def key_term(k, kind):
    p = payload(k)
    if kind == "uuid":
        if type(p) is SUuid:
            return p.expr
        if isinstance(p, uuid.UUID) and not isinstance_proxy(p):
            return z3.IntVal(p.int)
        return None
    if kind == "str":
        if type(p) is SStr:
            t = None
            for g in p.segs:
                if isinstance(g, str):
                    u = const_text(g)
                elif isinstance(g, Txt):
                    u = g.expr
                else:
                    raise Unsupported("key of unknown text")
                t = u if t is None else CAT(t, u)
            return t
        return const_text(p) if isinstance(p, str) else None
    e = as_int(k)
    if e is None:
        return None
    return z3.IntVal(e) if isinstance(e, int) else e


class SMap(Proxy):
    _kind = "symbolic dict"
    __class__ = property(lambda s: dict)

    def __init__(self, name, kind="int", value=None):
        _N[0] += 1
        self.name, self.kind = name, kind
        self.has = z3.Function("%s_has_%d" % (name, _N[0]), Val if kind == "str" else z3.IntSort(), z3.BoolSort())
        self.value = value
        self.some = ctx().bool(name + "_nonempty")
        self.log = []
        self.memo = []

    # ---- the content for a key, decided on the path
    def base_has(self, k):
        return self.has(key_term(k, self.kind))

    def base_value(self, k):
        t = key_term(k, self.kind)
        for u, v in self.memo:
            if ctx().valid(u == t):
                return v
        for u, v in self.memo:
            # values of different keys are different objects, so whether the keys agree is decided on the path
            if ctx().branch(u == t):
                return v
        if self.value is None:
            raise Unsupported("value of an unknown entry of %s" % self.name)
        v = self.value(SInt(t) if self.kind == "int" else k if self.kind == "str" else SUuid(t))
        self.memo.append((t, v))
        return v

    def lookup(self, k, need=True):
        """the entry of k or DEL; need=False: only whether there is one (True for an entry whose value was not needed)"""
        t = key_term(k, self.kind)
        if t is None:
            return DEL
        for u, v in reversed(self.log):
            if ctx().branch(u == t):
                return v
        if ctx().branch(self.has(t)):
            ctx().assume(self.some)
            return self.base_value(k) if need else True
        return DEL

    def write(self, k, v):
        t = key_term(k, self.kind)
        if t is None:
            raise Unsupported("key of another type in %s" % self.name)
        self.log.append((t, v))

    # ---- dict
    def sym_contains(self, k):
        return self.lookup(k, False) is not DEL

    def sym_getitem(self, k):
        v = self.lookup(k)
        if v is DEL:
            raise KeyError(k)
        return v

    def sym_setitem(self, k, v):
        self.write(k, v)

    def sym_delitem(self, k):
        if self.lookup(k, False) is DEL:
            raise KeyError(k)
        self.write(k, DEL)

    __getitem__ = sym_getitem
    __setitem__ = sym_setitem
    __delitem__ = sym_delitem
    __contains__ = sym_contains

    def get(self, k, default=None):
        v = self.lookup(k)
        return default if v is DEL else v

    def pop(self, k, *d):
        v = self.lookup(k)
        if v is DEL:
            if d:
                return d[0]
            raise KeyError(k)
        self.write(k, DEL)
        return v

    def setdefault(self, k, d=None):
        v = self.lookup(k)
        if v is DEL:
            self.write(k, d)
            return d
        return v

    def update(self, *a, **k):
        for d in a + ((k,) if k else ()):
            if isinstance_proxy(d) or not isinstance(d, dict):
                raise Unsupported("dict.update of %s" % self.name)
            for x, v in d.items():
                self.write(x, v)

    def __bool__(self):
        if not self.log:
            return ctx().branch(self.some)
        left = list(self.log)
        while left:
            t, v = left.pop()
            if v is not DEL:
                return True
            left = [(u, w) for u, w in left if not ctx().branch(u == t)]
        raise Unsupported("truth of %s after a removal" % self.name)

    def __eq__(self, o):
        if o is self:
            return True
        raise Unsupported("comparison of %s" % self.name)

    __hash__ = Proxy.__hash__

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("_vc"):
            raise AttributeError(k)
        raise Unsupported("dict.%s of %s" % (k, self.name))

    def _vc_frame(self):
        return ("map", id(self), tuple((u.get_id(), id(v)) for u, v in self.log))


class SSeq(Proxy):
    """`head`: number of unknown items in front."""
    _kind = "symbolic list"
    __class__ = property(lambda s: list)

    def __init__(self, name, tail=()):
        self.name = name
        self.n = ctx().int(name + "_n", 0)
        self.tail = list(tail)

    def append(self, x):
        self.tail.append(x)

    def extend(self, xs):
        self.tail.extend(xs)

    def __bool__(self):
        return True if self.tail else ctx().branch(self.n > 0)

    def sym_len(self):
        return mkint(self.n + len(self.tail))

    def __iadd__(self, xs):
        self.tail.extend(xs)
        return self

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("_vc"):
            raise AttributeError(k)
        raise Unsupported("list.%s of %s" % (k, self.name))

    def _vc_frame(self):
        return ("seq", id(self), tuple(id(x) for x in self.tail))


def frame(x, depth=7, memo=None):
    """A value that changes when anything reachable from x is changed."""
    memo = {} if memo is None else memo
    if hasattr(type(x), "_vc_frame"):
        return x._vc_frame()
    if isinstance_proxy(x):
        if type(x) is SymObj:
            return ("sym", id(x))
        e = getattr(x, "expr", None)
        return ("term", e.get_id()) if e is not None and isinstance(e, z3.ExprRef) else ("id", id(x), len(x.segs) if hasattr(x, "segs") else 0)
    if x is None or isinstance(x, (int, str, bytes, float, type)):
        return (type(x).__name__, repr(x) if not isinstance(x, type) else id(x))
    if id(x) in memo:
        return ("seen", memo[id(x)])
    memo[id(x)] = len(memo)
    if depth == 0:
        return ("id", id(x))
    if isinstance(x, bytearray):
        return ("bytearray", bytes(x))
    if isinstance(x, (list, tuple)):
        it = list.__iter__(x) if isinstance(x, list) else tuple.__iter__(x)
        return (type(x).__name__, id(x) if isinstance(x, list) else 0, tuple(frame(y, depth - 1, memo) for y in it))
    if isinstance(x, dict):
        return ("dict", id(x), tuple((frame(k, depth - 1, memo), frame(v, depth - 1, memo)) for k, v in dict.items(x)))
    try:
        d = object.__getattribute__(x, "__dict__")
    except AttributeError:
        return ("id", id(x))
    if callable(x) and not type(x).__module__.startswith("psrpcore"):
        return ("id", id(x))
    return (type(x).__name__, id(x), tuple((k, frame(v, depth - 1, memo)) for k, v in sorted(d.items())))

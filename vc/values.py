"""Symbolic values that flow through the real code."""
import datetime
import enum
import uuid
import z3
from .core import Unsupported, concretize

Val = z3.DeclareSort("Val")


def RT():
    from . import rt
    return rt.RT


def ctx():
    c = RT().ctx
    if c is None:
        raise Unsupported("symbolic value used outside of a contract run")
    return c


class Proxy:
    """Base of every symbolic value.  Anything Python asks for natively that has no exact model ends the run
    as undecided (Unsupported), it never gets an invented answer."""
    __slots__ = ()

    def _no(self, what):
        raise Unsupported("%s of %s" % (what, object.__getattribute__(self, "_kind")))

    _kind = "symbolic value"

    def __hash__(self):
        if RT().hash_ok:
            return id(self)
        self._no("hash")

    def __index__(self):
        self._no("native index")

    def __int__(self):
        self._no("native int")

    def __float__(self):
        self._no("native float")

    def __str__(self):
        self._no("native str")

    def __repr__(self):
        return "<%s>" % self._kind

    def __format__(self, spec):
        self._no("native format")

    def __bytes__(self):
        self._no("native bytes")

    def __reduce__(self):
        self._no("pickling")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def is_sym(x):
    return isinstance_proxy(x)


def isinstance_proxy(x):
    return issubclass(type(x), Proxy)


# ------------------------------------------------------------------ booleans
class SBool(Proxy):
    __slots__ = ("expr",)
    _kind = "symbolic bool"
    __class__ = property(lambda s: bool)

    def __init__(self, e):
        self.expr = e

    def __bool__(self):
        return ctx().branch(self.expr)

    def __eq__(self, o):
        if type(o) is SBool:
            return mkbool(self.expr == o.expr)
        if o is True:
            return self
        if o is False:
            return mkbool(z3.Not(self.expr))
        if isinstance_proxy(o) and type(o) is SInt:
            return mkbool(as_int(self) == o.expr)
        if isinstance(o, int):
            return mkbool(as_int(self) == int(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mkbool(z3.Not(to_bool(r)))

    __hash__ = Proxy.__hash__

    def __invert__(self):
        return mkint(-as_int(self) - 1)

    def _bin(self, o, f, name):
        if type(o) is SBool:
            return mkbool(f(self.expr, o.expr))
        if o is True or o is False:
            return mkbool(f(self.expr, z3.BoolVal(o)))
        return getattr(SInt(as_int(self)), name)(o)

    def __and__(self, o):
        return self._bin(o, z3.And, "__and__")

    def __or__(self, o):
        return self._bin(o, z3.Or, "__or__")

    __rand__, __ror__ = __and__, __or__

    def __add__(self, o):
        return SInt(as_int(self)) + o

    __radd__ = __add__

    def _vc_concretize(self, m):
        return bool(concretize(self.expr, m))


def mkbool(e):
    if e is True or e is False:
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def to_bool(b):
    """z3 formula or Python bool of a (symbolic) bool."""
    if type(b) is SBool:
        return b.expr
    if b is True or b is False:
        return z3.BoolVal(b)
    if isinstance(b, z3.BoolRef):
        return b
    raise Unsupported("not a bool: %r" % (b,))


# ------------------------------------------------------------------ integers
_UF = {}


def uf(name, n=2):
    if (name, n) not in _UF:
        _UF[name, n] = z3.Function(name, *([z3.IntSort()] * (n + 1)))
    return _UF[name, n]


def as_int(x):
    """z3 term (or int) of an integer-like value, None when it is none."""
    t = type(x)
    if t is SInt:
        return x.expr
    if t is SBool:
        return z3.If(x.expr, z3.IntVal(1), z3.IntVal(0))
    if t is SymObj:
        p = x._vc_payload
        return as_int(p) if p is not None else None
    if issubclass(t, Proxy):
        return None
    if isinstance(x, int):
        return int.__int__(x) if not isinstance(x, bool) else int(x)
    return None


def mkint(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


def zand(x, c):
    """x & c for a constant c >= 0 (two's complement semantics), as exact integer term."""
    if c == 0:
        return z3.IntVal(0)
    terms = []
    i = 0
    while c >> i:
        if not (c >> i) & 1:
            i += 1
            continue
        j = i
        while (c >> j) & 1:
            j += 1
        # bits i..j-1
        if RT().lindiv:
            t = lindiv(lindiv(x, 1 << i)[0] if i else x, 1 << (j - i))[1]
        else:
            t = (x / (1 << i)) % (1 << (j - i)) if i else x % (1 << j)
        terms.append(t * (1 << i) if i else t)
        i = j
    return z3.Sum(terms) if len(terms) > 1 else terms[0]


def linear(e):
    """({variable id: (coefficient, variable)}, constant) of a linear term; other subterms count as variables"""
    terms, const = {}, 0
    todo = [(z3.simplify(e), 1)]
    while todo:
        t, k = todo.pop()
        if z3.is_int_value(t):
            const += k * t.as_long()
        elif z3.is_add(t):
            todo += [(x, k) for x in t.children()]
        elif z3.is_sub(t):
            ch = t.children()
            todo += [(ch[0], k)] + [(x, -k) for x in ch[1:]]
        elif z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
            todo.append((t.arg(1), k * t.arg(0).as_long()))
        elif t.decl().kind() == z3.Z3_OP_UMINUS:
            todo.append((t.arg(0), -k))
        else:
            i = t.get_id()
            old = terms.get(i, (0, t))[0]
            terms[i] = (old + k, t)
    return {i: v for i, v in terms.items() if v[0]}, const


def interval(terms, const):
    lo = hi = const
    rng = ctx().rng
    for i, (k, v) in terms.items():
        r = rng.get(i)
        if r is None:
            return None
        lo += k * (r[0] if k > 0 else r[1])
        hi += k * (r[1] if k > 0 else r[0])
    return lo, hi


def lin_expr(terms, const):
    return z3.simplify(z3.Sum([k * v for k, v in terms.values()] + [z3.IntVal(const)]))


def lindiv(a, b):
    """Quotient and remainder of a term by a constant b > 0.  Split off the terms divisible by b; when the rest stays within a few
    multiples of b (by the ranges of the variables) the result is exact and needs no solver (one path per multiple).  Otherwise fresh
    variables with their defining facts (a == q*b + r, 0 <= r < b)."""
    c = ctx()
    if isinstance(a, int):
        return a // b, a % b
    a = z3.simplify(a)
    if z3.is_int_value(a):
        return a.as_long() // b, a.as_long() % b
    key = (a.get_id(), b)
    memo = c.__dict__.setdefault("_lindiv", {})
    if key in memo:
        return memo[key][:2]
    terms, const = linear(a)
    big = {i: (k // b, v) for i, (k, v) in terms.items() if k % b == 0}
    rest = {i: kv for i, kv in terms.items() if kv[0] % b}
    iv = interval(rest, const % b)
    if iv is not None and (iv[1] // b - iv[0] // b) <= 3:
        lo, hi = iv[0] // b, iv[1] // b
        r0 = lin_expr(rest, const % b)
        n = lo
        while n < hi and not c.branch(r0 < (n + 1) * b):
            n += 1
        q = cint(lin_expr(big, const // b + n))
        r = cint(z3.simplify(r0 - n * b))
        if hi > lo and not isinstance(r, int):
            # remember the bounds the branch gave
            c.rng[r.get_id()] = (0, b - 1)
            c.__dict__.setdefault("_keep", []).append(r)
        memo[key] = (q, r, a)
    else:
        q, r = z3.Int(c.fresh("q")), z3.Int(c.fresh("r"))
        c.assume(z3.And(a == q * b + r, r >= 0, r < b))
        c.rng[r.get_id()] = (0, b - 1)
        memo[key] = (q, r, a)
    return memo[key][:2]


def int_op(name, a, b):
    """Exact integer semantics of Python's operators on z3 terms / ints."""
    ca, cb = isinstance(a, int), isinstance(b, int)
    if not ca and z3.is_int_value(z3.simplify(a)):
        a = z3.simplify(a).as_long()
        ca = True
    if not cb and z3.is_int_value(z3.simplify(b)):
        b = z3.simplify(b).as_long()
        cb = True
    if name == "add":
        return a + b
    if name == "sub":
        return a - b
    if name == "mul":
        if ca or cb:
            return a * b
        return uf("mul")(a, b) if not RT().nonlinear else a * b
    if name in ("floordiv", "mod", "divmod"):
        if not cb:
            if ctx().branch(b == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
        elif b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if ca and cb:
            return a // b if name == "floordiv" else a % b
        if not cb:
            return uf("floor" + name)(a, b)
        if b > 0:
            if RT().lindiv:
                return lindiv(a, b)[0 if name == "floordiv" else 1]
            return a / b if name == "floordiv" else a % b
        return (-a) / (-b) if name == "floordiv" else -((-a) % (-b))
    if ca and cb:
        return {"and": int.__and__, "or": int.__or__, "xor": int.__xor__, "lshift": int.__lshift__, "rshift": int.__rshift__, "pow": pow}[name](a, b)
    if name in ("and", "or", "xor"):
        if ca:
            a, b, ca, cb = b, a, cb, ca
        if cb:
            if b >= 0:
                x = zand(a, b)
                return {"and": x, "or": a + b - x, "xor": a + b - 2 * x}[name]
            # ~b >= 0 : a & b = a - (a & ~b)
            x = a - zand(a, ~b)
            return {"and": x, "or": a + b - x, "xor": a + b - 2 * x}[name]
        return uf("bit" + name)(a, b)
    if name in ("lshift", "rshift"):
        if not cb:
            if ctx().branch(b < 0):
                raise ValueError("negative shift count")
            return uf("bit" + name)(a, b)
        if b < 0:
            raise ValueError("negative shift count")
        if name == "rshift" and RT().lindiv:
            return lindiv(a, 1 << b)[0]
        return a * (1 << b) if name == "lshift" else a / (1 << b)
    if name == "pow":
        if cb and 0 <= b <= 1:
            return a if b else 1
        if not cb and ctx().branch(b < 0):
            raise Unsupported("power with a negative exponent")
        return uf("ipow")(a, b)
    raise Unsupported("integer operator " + name)


class SInt(Proxy):
    __slots__ = ("expr",)
    _kind = "symbolic int"
    __class__ = property(lambda s: int)

    def __init__(self, e):
        self.expr = e

    def __bool__(self):
        return ctx().branch(self.expr != 0)

    def _cmp(self, o, f):
        b = as_int(o)
        if b is None:
            if type(o) is SRatio:
                return NotImplemented
            if isinstance(o, float):
                if o == int(o):
                    b = int(o)
                else:
                    raise Unsupported("comparison with a float")
            else:
                return NotImplemented
        return mkbool(f(self.expr, b))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        if r is NotImplemented and not isinstance_proxy(o):
            return False
        return r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        if r is NotImplemented and not isinstance_proxy(o):
            return True
        return r

    __hash__ = Proxy.__hash__

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _op(self, name, o, swap=False):
        b = as_int(o)
        if b is None:
            return NotImplemented
        a = self.expr
        if swap:
            a, b = b, a
        return mkint(int_op(name, a, b))

    def __divmod__(self, o):
        if as_int(o) is None:
            return NotImplemented
        return (self // o, self % o)

    def __rdivmod__(self, o):
        if as_int(o) is None:
            return NotImplemented
        return (self.__rfloordiv__(o), self.__rmod__(o))

    def __truediv__(self, o):
        b = as_int(o)
        if not isinstance(b, int) or b <= 0:
            raise Unsupported("division by a symbolic value")
        return SRatio(self.expr, b)

    def __neg__(self):
        return mkint(-self.expr)

    def __pos__(self):
        return self

    def __invert__(self):
        return mkint(-self.expr - 1)

    def __abs__(self):
        return self if ctx().branch(self.expr >= 0) else mkint(-self.expr)

    def bit_length(self):
        raise Unsupported("bit_length of a symbolic int")

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        if isinstance_proxy(length) or signed:
            raise Unsupported("to_bytes")
        if ctx().branch(z3.Or(self.expr < 0, self.expr >= 1 << (8 * length))):
            raise OverflowError("int too big to convert")
        return SBytes([IntSeg(self.expr, length, byteorder == "little")])

    @property
    def real(self):
        return self

    def __round__(self, n=None):
        return self

    def _vc_concretize(self, m):
        return concretize(self.expr, m)


def _mk(name):
    def f(self, o):
        return self._op(name, o)

    def r(self, o):
        return self._op(name, o, True)
    return f, r


for _n in "add sub mul floordiv mod and or xor lshift rshift pow".split():
    _f, _r = _mk(_n)
    setattr(SInt, "__%s__" % _n, _f)
    setattr(SInt, "__r%s__" % _n, _r)


class SRatio(Proxy):
    """The float num/den for a constant den > 0; exact while |num| < 2^50 (checked)."""
    __slots__ = ("num", "den")
    _kind = "symbolic ratio"
    __class__ = property(lambda s: float)

    def __init__(self, num, den):
        self.num, self.den = num, den
        if not ctx().valid(z3.And(num < 2 ** 50, num > -2 ** 50)):
            raise Unsupported("float arithmetic beyond exact precision")

    def __bool__(self):
        return ctx().branch(self.num != 0)

    def _cmp(self, o, f):
        if isinstance_proxy(o):
            raise Unsupported("float comparison")
        if isinstance(o, float) and o != int(o):
            raise Unsupported("float comparison")
        return mkbool(f(self.num, int(o) * self.den))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    __hash__ = Proxy.__hash__

    def trunc(self):
        if ctx().branch(self.num >= 0):
            return mkint(int_op("floordiv", self.num, self.den))
        return mkint(-int_op("floordiv", -self.num, self.den))


# ------------------------------------------------------------------ bytes
class IntSeg:
    """width bytes holding the value v (0 <= v < 256^width)."""
    __slots__ = ("v", "w", "little")

    def __init__(self, v, w, little):
        self.v, self.w, self.little = v, w, little

    def length(self):
        return self.w

    def byte(self, i):
        k = i if self.little else self.w - 1 - i
        if self.w == 1:
            return self.v
        if RT().lindiv:
            return lindiv(lindiv(self.v, 256 ** k)[0] if k else self.v, 256)[1]
        return (self.v / (256 ** k)) % 256 if k else self.v % 256

    def same(self, o):
        return type(o) is IntSeg and o.w == self.w and (o.little == self.little or self.w == 1)


class UuidSeg:
    """16 bytes of a UUID in GUID (little endian first fields) or plain order."""
    __slots__ = ("v", "le")

    def __init__(self, v, le):
        self.v, self.le = v, le

    def length(self):
        return 16

    def byte(self, i):
        order = [3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15] if self.le else list(range(16))
        k = 15 - order[i]
        return (self.v / (256 ** k)) % 256 if k else self.v % 256


class Blob:
    """Symbolic content of symbolic length; byte(i) is an uninterpreted function."""
    n = 0

    def __init__(self, name, length, src=None, utf8=False):
        Blob.n += 1
        self.name = name
        self.len = length
        self.fn = z3.Function("byte_%s_%d" % (name, Blob.n), z3.IntSort(), z3.IntSort())
        self.src = src
        self.utf8 = utf8
        self.val = None


class BlobSeg:
    __slots__ = ("b", "s", "n")

    def __init__(self, b, s, n):
        self.b, self.s, self.n = b, s, n

    def length(self):
        return self.n

    def byte(self, i):
        t = self.b.fn(z3.simplify(self.s + i) if not isinstance(self.s, int) or not isinstance(i, int) else z3.IntVal(self.s + i))
        ctx().assume(z3.And(t >= 0, t <= 255))
        return t


def zlen(segs):
    t = 0
    for s in segs:
        t = t + (len(s) if isinstance(s, (bytes, bytearray)) else s.length())
    return z3.simplify(t) if not isinstance(t, int) else t


def cint(e):
    """int when the term is constant, else the term."""
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else e


class SBytes(Proxy):
    __slots__ = ("segs", "mutable")
    _kind = "symbolic bytes"
    __class__ = property(lambda s: bytearray if s.mutable else bytes)

    def __init__(self, segs, mutable=False):
        out = []
        for s in segs:
            if isinstance(s, (bytes, bytearray)):
                if not s:
                    continue
                if out and isinstance(out[-1], bytes):
                    out[-1] = out[-1] + bytes(s)
                else:
                    out.append(bytes(s))
            else:
                n = cint(s.length())
                if isinstance(n, int) and n == 0:
                    continue
                if isinstance(s, BlobSeg) and out and isinstance(out[-1], BlobSeg) and out[-1].b is s.b and \
                        isinstance(cint(out[-1].s + out[-1].n - s.s), int) and cint(out[-1].s + out[-1].n - s.s) == 0:
                    p = out.pop()
                    out.append(BlobSeg(p.b, p.s, cint(p.n + s.n)))
                else:
                    out.append(s)
        self.segs = out
        self.mutable = mutable

    # ---- length
    def zlen(self):
        return zlen(self.segs)

    def __len__(self):
        n = cint(self.zlen())
        if isinstance(n, int):
            return n
        self._no("native len")

    def __bool__(self):
        return ctx().branch(self.zlen() > 0)

    # ---- cutting
    def _split(self, pos):
        """(segments before pos, segments from pos on); 0 <= pos, clamped to the length."""
        left, right = [], list(self.segs)
        pos = cint(pos)
        c = ctx()
        while right:
            if isinstance(pos, int) and pos <= 0:
                return left, right
            s = right[0]
            n = cint(len(s) if isinstance(s, bytes) else s.length())
            if isinstance(pos, int) and isinstance(n, int):
                if n <= pos:
                    left.append(right.pop(0))
                    pos -= n
                    continue
                inside = True
            else:
                if c.branch(pos <= 0 if not isinstance(pos, int) else z3.BoolVal(pos <= 0)):
                    return left, right
                if c.branch(z3.IntVal(0) + n <= pos):
                    left.append(right.pop(0))
                    pos = cint(pos - n)
                    continue
                inside = True
            if inside:
                if isinstance(s, bytes):
                    if not isinstance(pos, int):
                        for k in range(1, len(s)):
                            if c.branch(pos == k):
                                pos = k
                                break
                        else:
                            raise Unsupported("cut of constant bytes at a symbolic position")
                    left.append(s[:pos])
                    right[0] = s[pos:]
                elif isinstance(s, BlobSeg):
                    left.append(BlobSeg(s.b, s.s, pos))
                    right[0] = BlobSeg(s.b, cint(s.s + pos), cint(n - pos))
                elif isinstance(pos, int):
                    bs = [IntSeg(z3.simplify(s.byte(i)), 1, True) for i in range(n)]
                    left.extend(bs[:pos])
                    right[0:1] = bs[pos:]
                else:
                    raise Unsupported("cut of a field at a symbolic position")
                return left, right
        return left, right

    def _norm_index(self, i, default):
        if i is None:
            return default
        e = as_int(i)
        if e is None:
            raise TypeError("slice indices must be integers or None or have an __index__ method")
        if isinstance(e, int):
            if e >= 0:
                return e
            n = self.zlen()
            p = n + e
            return p if (isinstance(p, int) and p >= 0) else (0 if isinstance(p, int) else (p if ctx().branch(p >= 0) else 0))
        if ctx().branch(e >= 0):
            return e
        p = e + self.zlen()
        return p if ctx().branch(p >= 0) else 0

    def getitem(self, k):
        if isinstance(k, slice):
            if k.step is not None:
                if k.step == -1 and k.start is None and k.stop is None:
                    return SBytes([Rev(self)], self.mutable) if not (len(self.segs) == 1 and isinstance(self.segs[0], Rev)) else \
                        SBytes(self.segs[0].inner.segs, self.mutable)
                raise Unsupported("slice step")
            a = self._norm_index(k.start, 0)
            b = self._norm_index(k.stop, None)
            if b is None:
                return self._mk(self._split(a)[1])
            left = SBytes(self._split(b)[0])
            r = left._split(a)[1]
            return self._mk(r)
        e = as_int(k)
        if e is None:
            raise TypeError("byte indices must be integers or slices")
        n = self.zlen()
        if not isinstance(e, int):
            neg = ctx().branch(e < 0)
            if neg:
                e = e + n
        elif e < 0:
            e = e + n
        if ctx().branch(z3.Or(z3.IntVal(0) + e < 0, z3.IntVal(0) + e >= n)):
            raise IndexError("index out of range")
        r = SBytes(self._split(e)[1])
        return r.byte0(0)

    def _mk(self, segs):
        segs = SBytes(segs).segs
        if all(isinstance(s, bytes) for s in segs):
            b = b"".join(segs)
            return bytearray(b) if self.mutable else b
        return SBytes(segs, self.mutable)

    def __iter__(self):
        out = []
        for s in self.segs:
            n = cint(len(s) if isinstance(s, bytes) else s.length())
            if not isinstance(n, int) or n > 4096:
                raise Unsupported("iteration over bytes of unknown length")
            out += [s[i] if isinstance(s, bytes) else mkint(s.byte(i)) for i in range(n)]
        return iter(out)

    def byte0(self, i):
        """the byte at constant index i, which must be inside the first segments of known length"""
        for s in self.segs:
            n = cint(len(s) if isinstance(s, bytes) else s.length())
            if not isinstance(n, int):
                if isinstance(s, BlobSeg):
                    if not ctx().valid(i < n):
                        raise Unsupported("byte of unknown position")
                    return mkint(s.byte(i))
                raise Unsupported("byte of a symbolic segment")
            if i < n:
                return s[i] if isinstance(s, bytes) else mkint(s.byte(i))
            i -= n
        raise IndexError("index out of range")

    # ---- equality
    def eq(self, o):
        """bool, or a formula"""
        a = list(self.segs)
        b = list(o.segs) if type(o) is SBytes else ([bytes(o)] if len(o) else [])
        c = ctx()
        conj = []

        def ln(s):
            return cint(len(s) if isinstance(s, bytes) else s.length())
        while a and b:
            x, y = a[0], b[0]
            if type(x) is Rev or type(y) is Rev:
                if type(x) is Rev and type(y) is Rev and len(a) == 1 and len(b) == 1:
                    r = x.inner.eq(y.inner)
                    if r is False:
                        return False
                    conj.append(to_bool(r))
                    a.pop()
                    b.pop()
                    continue
                raise Unsupported("comparison of reversed bytes")
            nx, ny = ln(x), ln(y)
            if isinstance(x, bytes) and isinstance(y, bytes):
                k = min(nx, ny)
                if x[:k] != y[:k]:
                    return False
                a[0:1] = [x[k:]] if nx > k else []
                b[0:1] = [y[k:]] if ny > k else []
                continue
            # drop empty symbolic segments
            if isinstance(x, BlobSeg) and not isinstance(nx, int) and c.branch(nx == 0):
                a.pop(0)
                continue
            if isinstance(y, BlobSeg) and not isinstance(ny, int) and c.branch(ny == 0):
                b.pop(0)
                continue
            if isinstance(x, BlobSeg) and isinstance(y, BlobSeg) and x.b is y.b and c.valid(z3.IntVal(0) + x.s == y.s):
                if isinstance(nx, int) and isinstance(ny, int):
                    le = nx <= ny
                else:
                    le = c.branch(z3.IntVal(0) + nx <= ny)
                k = nx if le else ny
                a[0:1] = [] if le else [BlobSeg(x.b, cint(x.s + k), cint(nx - k))]
                if le:
                    rest = cint(ny - nx)
                    b[0:1] = [] if isinstance(rest, int) and rest == 0 else [BlobSeg(y.b, cint(y.s + k), rest)]
                else:
                    b[0:1] = []
                continue
            if isinstance(x, IntSeg) and x.same(y):
                conj.append(z3.IntVal(0) + x.v == y.v)
                a.pop(0)
                b.pop(0)
                continue
            if isinstance(x, UuidSeg) and isinstance(y, UuidSeg) and x.le == y.le:
                conj.append(x.v == y.v)
                a.pop(0)
                b.pop(0)
                continue
            # bytewise on the shorter constant length
            if isinstance(nx, int) and isinstance(ny, int):
                k = min(nx, ny)
            elif isinstance(nx, int) or isinstance(ny, int):
                k = nx if isinstance(nx, int) else ny
                other = ny if isinstance(nx, int) else nx
                # the symbolic one is either at least that long or we fork on its exact length
                if not c.branch(z3.IntVal(0) + other >= k):
                    for m in range(1, k):
                        if c.branch(z3.IntVal(0) + other == m):
                            k = m
                            break
            else:
                raise Unsupported("comparison of unrelated symbolic bytes")
            if k > 4096:
                raise Unsupported("comparison of long bytes")
            xs, a2 = SBytes(a)._split(k)
            ys, b2 = SBytes(b)._split(k)
            xs, ys = SBytes(xs), SBytes(ys)
            for i in range(k):
                conj.append(z3.IntVal(0) + (as_int(xs.byte0(i))) == as_int(ys.byte0(i)))
            a, b = a2, b2
        rest = a or b
        if rest:
            n = cint(zlen(rest))
            if isinstance(n, int):
                if n:
                    return False
            else:
                conj.append(n == 0)
        if not conj:
            return True
        return z3.simplify(z3.And(*conj))

    def __eq__(self, o):
        if type(o) is SBytes or isinstance(o, (bytes, bytearray)):
            if not isinstance_proxy(o) and len(o) == 0:
                return mkbool(self.zlen() == 0)
            return mkbool(self.eq(o))
        if isinstance_proxy(o):
            raise Unsupported("bytes compared with %s" % o._kind)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(z3.Not(to_bool(r)))

    __hash__ = Proxy.__hash__

    # ---- concatenation
    @staticmethod
    def _segs_of(o):
        if type(o) is SBytes:
            return o.segs
        if isinstance(o, (bytes, bytearray)):
            return [bytes(o)]
        if type(o) is SymObj and type(o._vc_payload) is SBytes:
            return o._vc_payload.segs
        return None

    def __add__(self, o):
        s = self._segs_of(o)
        if s is None:
            return NotImplemented
        return SBytes(self.segs + s, self.mutable)

    def __radd__(self, o):
        s = self._segs_of(o)
        if s is None:
            return NotImplemented
        return SBytes(s + self.segs, isinstance(o, bytearray))

    def __iadd__(self, o):
        s = self._segs_of(o)
        if s is None:
            return NotImplemented
        if not self.mutable:
            return SBytes(self.segs + s)
        self.segs = SBytes(self.segs + s).segs
        return self

    def extend(self, o):
        if not self.mutable:
            raise AttributeError("'bytes' object has no attribute 'extend'")
        self.__iadd__(o)

    def append(self, o):
        e = as_int(o)
        if not self.mutable:
            raise AttributeError("'bytes' object has no attribute 'append'")
        if ctx().branch(z3.Or(z3.IntVal(0) + e < 0, z3.IntVal(0) + e > 255)):
            raise ValueError("byte must be in range(0, 256)")
        self.segs = SBytes(self.segs + [IntSeg(z3.IntVal(0) + e, 1, True)]).segs

    def clear(self):
        self.segs = []

    def delitem(self, k):
        if not self.mutable:
            raise TypeError("'bytes' object doesn't support item deletion")
        if isinstance(k, slice) and k.step is None:
            a = self._norm_index(k.start, 0)
            left, right = self._split(a)
            if k.stop is None:
                self.segs = SBytes(left).segs
                return
            b = self._norm_index(k.stop, None)
            right = SBytes(self.segs)._split(b)[1]
            if not ctx().branch(z3.IntVal(0) + a <= b):
                return
            self.segs = SBytes(left + right).segs
            return
        raise Unsupported("del of a byte")

    def startswith(self, p):
        if isinstance_proxy(p) or not isinstance(p, (bytes, bytearray)):
            raise Unsupported("startswith")
        if not ctx().branch(self.zlen() >= len(p)):
            return False
        return mkbool(SBytes(self._split(len(p))[0]).eq(p))

    def decode(self, encoding="utf-8", errors="strict"):
        return RT().models.bytes_decode(self, encoding, errors)

    def hex(self, *a):
        raise Unsupported("hex")

    def copy(self):
        return SBytes(self.segs, self.mutable)

    def to_int(self, little):
        """The unsigned integer these bytes hold (constant length)."""
        n = cint(self.zlen())
        if not isinstance(n, int):
            raise Unsupported("integer of symbolic length")
        if len(self.segs) == 1 and isinstance(self.segs[0], IntSeg) and (self.segs[0].little == little or n == 1):
            return mkint(self.segs[0].v)
        t = 0
        for i in range(n):
            b = as_int(self.byte0(i))
            t = t + b * 256 ** (i if little else n - 1 - i)
        return mkint(t)

    def _vc_concretize(self, m):
        out = bytearray()
        for s in self.segs:
            if isinstance(s, bytes):
                out += s
            elif isinstance(s, Rev):
                out += bytes.fromhex(s.inner._vc_concretize(m)["hex"])[::-1]
            else:
                n = concretize(z3.IntVal(0) + s.length(), m)
                if n > 2_000_000:
                    raise ValueError("too long")
                for i in range(n):
                    if isinstance(s, BlobSeg):
                        p = concretize(z3.IntVal(0) + s.s, m) + i
                        v = m.eval(s.b.fn(z3.IntVal(p)), model_completion=True)
                        out.append(v.as_long() % 256 if z3.is_int_value(v) else 0)
                    else:
                        out.append(concretize(s.byte(i), m) % 256)
        return {"hex": bytes(out).hex()}


class Rev:
    __slots__ = ("inner",)

    def __init__(self, inner):
        self.inner = inner

    def length(self):
        return self.inner.zlen()

    def byte(self, i):
        raise Unsupported("byte of reversed bytes")


def blob(name, lo=0, hi=None, src=None, mutable=False, utf8=False):
    c = ctx()
    n = c.int(name + ".len", lo, hi)
    b = Blob(name, n, src, utf8)
    return SBytes([BlobSeg(b, 0, n)], mutable)


# ------------------------------------------------------------------ opaque values and text
class Opaque(Proxy):
    """A value about which nothing is known except identity of the value and possibly its class."""
    __slots__ = ("expr", "cls", "src", "name", "attrs", "truth")
    _kind = "opaque value"

    def __init__(self, name, cls=None, src=None, expr=None, truth=None):
        self.name = name
        self.cls = cls
        self.src = src
        self.expr = expr if expr is not None else z3.Const(ctx().fresh("val_" + name), Val)
        self.attrs = {}
        self.truth = truth

    @property
    def __class__(self):
        if self.cls is None:
            raise Unsupported("the type of an opaque value was inspected (%s)" % self.name)
        return self.cls

    def __getattr__(self, k):
        if k.startswith("_vc_") or (k.startswith("__") and k.endswith("__")):
            raise AttributeError(k)
        if k in self.attrs:
            return self.attrs[k]
        raise Unsupported("attribute %s of an opaque value (%s)" % (k, self.name))

    def __bool__(self):
        if self.truth is not None:
            return ctx().branch(self.truth) if not isinstance(self.truth, bool) else self.truth
        raise Unsupported("truth of an opaque value (%s)" % self.name)

    def __eq__(self, o):
        if o is self:
            return True
        if self.src == "key" and (not isinstance_proxy(o) or type(o) is Opaque and o.src == "key"):
            return False  # a key: some hashable value, different from every other key
        if type(o) is Opaque:
            return mkbool(self.expr == o.expr)
        if type(o) is type:
            # no value handed in by the user is equal to a class of the package
            return False
        raise Unsupported("comparison of an opaque value (%s)" % self.name)

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(z3.Not(to_bool(r)))

    def __hash__(self):
        return id(self) if self.src == "key" else Proxy.__hash__(self)

    def __iter__(self):
        raise Unsupported("iteration of an opaque value (%s)" % self.name)

    def __len__(self):
        raise Unsupported("len of an opaque value (%s)" % self.name)

    def _vc_concretize(self, m):
        return "<opaque %s>" % self.name


def anyval(name):
    """any value at all: nothing is known, neither whether it is None nor its truth"""
    c = ctx()
    none, t = c.bool("none_" + name), c.bool("truth_" + name)
    none, t = to_bool(none), to_bool(t)
    c.assume(z3.Implies(none, z3.Not(t)))
    o = Opaque(name, truth=t)
    o.attrs["#none"] = none
    return o


class Dec:
    """Decimal digits of v >= 0 without padding."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Fix:
    """Exactly w decimal digits of v, 0 <= v < 10^w."""
    __slots__ = ("v", "w")

    def __init__(self, v, w):
        self.v, self.w = v, w


class Txt:
    """Opaque text; src describes how it was made: (function name, argument)."""
    __slots__ = ("name", "len", "src", "expr", "xmlsafe", "nonempty", "nopre")

    def __init__(self, name, length=None, src=None, xmlsafe=False, nopre=()):
        self.name = name
        self.nopre = tuple(nopre)  # the text starts with none of these
        self.src = src
        c = ctx()
        self.len = c.int("len_" + name, 0) if length is None else length
        self.expr = z3.Const(c.fresh("txt_" + name), Val)
        self.xmlsafe = xmlsafe
        self.nonempty = False


class SStr(Proxy):
    __slots__ = ("segs",)
    _kind = "symbolic str"
    __class__ = property(lambda s: str)

    def __init__(self, segs):
        out = []
        for s in segs:
            if isinstance(s, str):
                if not s:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += s
                else:
                    out.append(s)
            elif isinstance(s, Fix) and s.w == 0:
                continue
            else:
                out.append(s)
        self.segs = out

    def zlen(self):
        t = 0
        for s in self.segs:
            if isinstance(s, str):
                t = t + len(s)
            elif isinstance(s, Fix):
                t = t + s.w
            elif isinstance(s, Dec):
                raise Unsupported("length of unpadded digits")
            else:
                t = t + s.len
        return cint(t)

    def __len__(self):
        n = self.zlen()
        if isinstance(n, int):
            return n
        self._no("native len")

    def __bool__(self):
        if any(not isinstance(s, Txt) for s in self.segs):
            return True
        if not self.segs:
            return False
        return ctx().branch(z3.Or(*[s.len > 0 for s in self.segs]))

    @staticmethod
    def _segs_of(o):
        if type(o) is SStr:
            return o.segs
        if type(o) is SymObj and type(o._vc_payload) is SStr:
            return o._vc_payload.segs
        if isinstance(o, str) and not isinstance_proxy(o):
            return [str.__str__(o)]
        return None

    def __add__(self, o):
        s = self._segs_of(o)
        return NotImplemented if s is None else mkstr(self.segs + s)

    def __radd__(self, o):
        s = self._segs_of(o)
        return NotImplemented if s is None else mkstr(s + self.segs)

    def eq(self, o):
        b = self._segs_of(o)
        if b is None:
            return False
        a = SStr(self.segs).segs
        b = SStr(b).segs
        c = ctx()
        conj = []
        a, b = list(a), list(b)
        while a and b:
            x, y = a[0], b[0]
            if isinstance(x, str) and isinstance(y, str):
                k = min(len(x), len(y))
                if x[:k] != y[:k]:
                    return False
                a[0:1] = [x[k:]] if len(x) > k else []
                b[0:1] = [y[k:]] if len(y) > k else []
            elif isinstance(x, Fix) and isinstance(y, Fix) and x.w == y.w:
                conj.append(x.v == y.v)
                a.pop(0)
                b.pop(0)
            elif isinstance(x, Dec) and isinstance(y, Dec):
                conj.append(x.v == y.v)
                a.pop(0)
                b.pop(0)
            elif isinstance(x, Txt) and isinstance(y, Txt):
                if x is y:
                    a.pop(0)
                    b.pop(0)
                elif len(a) == 1 and len(b) == 1:
                    same = z3.And(x.expr == y.expr, z3.IntVal(0) + x.len == y.len)
                    if not (isinstance(x.len, int) and x.len > 0 or isinstance(y.len, int) and y.len > 0):
                        same = z3.Or(same, z3.And(z3.IntVal(0) + x.len == 0, z3.IntVal(0) + y.len == 0))  # one empty text
                    conj.append(same)
                    a.pop(0)
                    b.pop(0)
                else:
                    raise Unsupported("comparison of opaque text")
            elif isinstance(x, Fix) and isinstance(y, str) or isinstance(y, Fix) and isinstance(x, str):
                sw = isinstance(y, Fix)
                f, t = (y, x) if sw else (x, y)
                k = min(f.w, len(t))
                if not t[:k].isascii() or not t[:k].isdigit():
                    return False
                conj.append(f.v / 10 ** (f.w - k) == int(t[:k]))
                rest_f = [Fix(f.v % 10 ** (f.w - k), f.w - k)] if f.w > k else []
                rest_t = [t[k:]] if len(t) > k else []
                if sw:
                    b[0:1], a[0:1] = rest_f, rest_t
                else:
                    a[0:1], b[0:1] = rest_f, rest_t
            elif isinstance(x, Dec) and isinstance(y, str) or isinstance(y, Dec) and isinstance(x, str):
                p, q = (a, b) if isinstance(x, Dec) else (b, a)
                d, t = p[0], q[0]
                neg = t.startswith("-")
                k = 1 if neg else 0
                while k < len(t) and t[k] in "0123456789":
                    k += 1
                num = t[:k]
                nxt = p[1] if len(p) > 1 else ""
                if k == len(t) and len(q) > 1 or not (isinstance(nxt, str) and not nxt[:1].isdigit()):
                    raise Unsupported("comparison of symbolic text")
                if num in ("", "-") or str(int(num)) != num:
                    return False
                conj.append(d.v == int(num))
                p.pop(0)
                q[0:1] = [t[k:]] if len(t) > k else []
            elif isinstance(x, Txt) and isinstance(y, str) and any(y.startswith(q) for q in x.nopre) \
                    or isinstance(y, Txt) and isinstance(x, str) and any(x.startswith(q) for q in y.nopre):
                return False
            elif isinstance(x, Txt) and isinstance(y, str) and len(a) == 1 and len(b) == 1 or isinstance(y, Txt) and isinstance(x, str) and len(a) == 1 and len(b) == 1:
                t, k = (x, y) if isinstance(x, Txt) else (y, x)
                conj.append(t.expr == const_text(k))
                conj.append(t.len == len(k))
                a.pop()
                b.pop()
            else:
                raise Unsupported("comparison of symbolic text")
        for s in a or b:
            if isinstance(s, (str, Fix, Dec)):
                return False
            conj.append(s.len == 0)
        return z3.simplify(z3.And(*conj)) if conj else True

    def __eq__(self, o):
        if self._segs_of(o) is None:
            if isinstance_proxy(o) and type(o) is Opaque:
                raise Unsupported("comparison with an opaque value")
            return False
        return mkbool(self.eq(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(z3.Not(to_bool(r)))

    __hash__ = Proxy.__hash__

    def getitem(self, k):
        return RT().models.str_getitem(self, k)

    def __getattr__(self, name):
        if name.startswith("__") or name.startswith("_vc_"):
            raise AttributeError(name)
        if not hasattr(str, name):
            raise AttributeError("'str' object has no attribute %r" % name)
        m = RT().models

        def method(*a, **k):
            return m.str_method(self, name, a, k)
        return method

    def __lt__(self, o):
        self._no("ordering")

    __gt__ = __le__ = __ge__ = __lt__

    def __iter__(self):
        self._no("native iteration")

    def __mod__(self, o):
        self._no("% formatting")

    def _vc_concretize(self, m):
        out = []
        for s in self.segs:
            if isinstance(s, str):
                out.append(s)
            elif isinstance(s, Fix):
                out.append(str(concretize(s.v, m)).zfill(s.w))
            elif isinstance(s, Dec):
                out.append(str(concretize(s.v, m)))
            else:
                out.append("<%s>" % s.name)
        return "".join(out)


_CT = {}


def const_text(t):
    """The z3 constant of a concrete text; distinct texts are distinct."""
    if t not in _CT:
        k = z3.Const("text_%d" % len(_CT), Val)
        _CT[t] = k
    c = ctx()
    if not hasattr(c, "_ct"):
        c._ct = []
    if t not in c._ct:
        for u in c._ct:
            c.assume(_CT[t] != _CT[u])
        c._ct.append(t)
    return _CT[t]


def mkstr(segs):
    s = SStr(segs)
    if all(isinstance(x, str) for x in s.segs):
        return "".join(s.segs)
    return s


def text(name, **kw):
    return SStr([Txt(name, **kw)])


class SUuid(Proxy):
    __slots__ = ("expr",)
    _kind = "symbolic uuid"
    __class__ = property(lambda s: uuid.UUID)

    def __init__(self, e):
        self.expr = e

    @property
    def int(self):
        return mkint(self.expr)

    @property
    def bytes_le(self):
        return SBytes([UuidSeg(self.expr, True)])

    @property
    def bytes(self):
        return SBytes([UuidSeg(self.expr, False)])

    def __bool__(self):
        return True

    def __eq__(self, o):
        if type(o) is SUuid:
            return mkbool(self.expr == o.expr)
        if type(o) is SymObj and type(o._vc_payload) is SUuid:
            return mkbool(self.expr == o._vc_payload.expr)
        if isinstance_proxy(o):
            raise Unsupported("uuid comparison")
        if isinstance(o, uuid.UUID):
            return mkbool(self.expr == o.int)
        return False

    def __ne__(self, o):
        return mkbool(z3.Not(to_bool(self.__eq__(o))))

    __hash__ = Proxy.__hash__

    def _vc_concretize(self, m):
        return {"uuid": concretize(self.expr, m)}


def suuid(name, nonzero=False):
    return SUuid(ctx().int(name, 1 if nonzero else 0, 2 ** 128 - 1))


# ------------------------------------------------------------------ instances with a symbolic payload
class SymObj(Proxy):
    """An instance of a real class that derives from a builtin value type (int, str, bytes, float, datetime, ...)
    whose builtin part is symbolic.  Python level methods, properties and attribute hooks of the class are the
    real ones; the builtin part is modelled."""
    __slots__ = ("_vc_cls", "_vc_payload", "_vc_dict")
    _kind = "symbolic instance"

    def __init__(self, cls, payload):
        object.__setattr__(self, "_vc_cls", cls)
        object.__setattr__(self, "_vc_payload", payload)
        object.__setattr__(self, "_vc_dict", {})

    def __getattribute__(self, name):
        if name.startswith("_vc_") or name == "_no" or name == "_kind":
            return object.__getattribute__(self, name)
        if name == "__class__":
            return object.__getattribute__(self, "_vc_cls")
        return RT().sym_getattr(self, name)

    def __setattr__(self, name, value):
        RT().sym_setattr(self, name, value)

    def __repr__(self):
        return "<symbolic %s>" % self._vc_cls.__name__

    def __bool__(self):
        cls = self._vc_cls
        f = RT().type_lookup(cls, "__bool__")
        return bool(self._vc_payload) if f is None or not RT().is_py(f) else f(self)

    __hash__ = Proxy.__hash__

    def _vc_concretize(self, m):
        return {"class": self._vc_cls.__name__, "value": concretize(self._vc_payload, m)}


def _symop(name, rname):
    def f(self, *o):
        return RT().sym_binop(self, name, rname, o)

    def r(self, *o):
        return RT().sym_rbinop(self, name, rname, o)
    return f, r


for _n in "add sub mul floordiv mod and or xor lshift rshift pow divmod truediv".split():
    _f, _r = _symop("__%s__" % _n, "__r%s__" % _n)
    setattr(SymObj, "__%s__" % _n, _f)
    setattr(SymObj, "__r%s__" % _n, _r)
for _n, _r in (("__eq__", "__eq__"), ("__ne__", "__ne__"), ("__lt__", "__gt__"), ("__gt__", "__lt__"), ("__le__", "__ge__"), ("__ge__", "__le__")):
    setattr(SymObj, _n, _symop(_n, _r)[0])
for _n in ("neg", "pos", "abs", "invert"):
    def _mk1(n):
        def f(self):
            return RT().sym_unop(self, n)
        return f
    setattr(SymObj, "__%s__" % _n, _mk1("__%s__" % _n))
SymObj.__hash__ = Proxy.__hash__


def payload(x):
    return x._vc_payload if type(x) is SymObj else x


def reflected(o, rname):
    """does the instance's class give the reflected operator in Python, which then takes priority over the base class' one"""
    if type(o) is not SymObj or rname is None:
        return False
    return RT().is_py(RT().type_lookup(o._vc_cls, rname))


class STimedelta(Proxy):
    """timedelta with a symbolic total of microseconds."""
    __slots__ = ("us",)
    _kind = "symbolic timedelta"
    __class__ = property(lambda s: datetime.timedelta)
    DAY = 86400 * 10 ** 6

    def __init__(self, us):
        self.us = us

    days = property(lambda s: mkint(int_op("floordiv", s.us, STimedelta.DAY)))
    seconds = property(lambda s: mkint(int_op("floordiv", int_op("mod", s.us, STimedelta.DAY), 10 ** 6)))
    microseconds = property(lambda s: mkint(int_op("mod", s.us, 10 ** 6)))

    def _cmp(self, o, f, rname=None):
        b = td_us(o)
        if b is None or reflected(o, rname):
            return NotImplemented
        return mkbool(f(self.us, b))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, "__eq__")

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, "__ne__")

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, "__gt__")

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, "__ge__")

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, "__lt__")

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, "__le__")

    __hash__ = Proxy.__hash__

    def __bool__(self):
        return ctx().branch(self.us != 0)

    def __add__(self, o):
        b = td_us(o)
        return NotImplemented if b is None or reflected(o, "__radd__") else mktd(self.us + b)

    def __radd__(self, o):
        b = td_us(o)
        return NotImplemented if b is None else mktd(self.us + b)

    def __sub__(self, o):
        b = td_us(o)
        return NotImplemented if b is None or reflected(o, "__rsub__") else mktd(self.us - b)

    def __rsub__(self, o):
        b = td_us(o)
        return NotImplemented if b is None else mktd(b - self.us)

    def __neg__(self):
        return mktd(-self.us)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if ctx().branch(self.us >= 0) else mktd(-self.us)

    def __floordiv__(self, o):
        if isinstance(o, datetime.timedelta) and not isinstance_proxy(o):
            return mkint(int_op("floordiv", self.us, td_us(o)))
        b = as_int(o)
        if isinstance(b, int):
            return mktd(int_op("floordiv", self.us, b))
        raise Unsupported("timedelta division")

    def __mod__(self, o):
        b = td_us(o)
        if not isinstance(b, int):
            raise Unsupported("timedelta modulo")
        return mktd(int_op("mod", self.us, b))

    def __divmod__(self, o):
        return (self // o, self % o)

    def __mul__(self, o):
        b = as_int(o)
        if b is None:
            raise Unsupported("timedelta product")
        return mktd(int_op("mul", self.us, b))

    __rmul__ = __mul__

    def total_seconds(self):
        return SRatio(self.us, 10 ** 6)

    def _vc_concretize(self, m):
        return {"microseconds": concretize(self.us, m)}


TD_MIN = -999999999 * STimedelta.DAY
TD_MAX = 1000000000 * STimedelta.DAY - 1


def mktd(us):
    if isinstance(us, int):
        return datetime.timedelta(microseconds=us)
    us = z3.simplify(us)
    if z3.is_int_value(us):
        return datetime.timedelta(microseconds=us.as_long())
    if not ctx().branch(z3.And(us >= TD_MIN, us <= TD_MAX)):
        raise OverflowError("days=%d; must have magnitude <= 999999999")
    return STimedelta(us)


def td_us(o):
    p = payload(o)
    if type(p) is STimedelta:
        return p.us
    if isinstance_proxy(p):
        return None
    if isinstance(p, datetime.timedelta):
        d = datetime.timedelta
        return (d.days.__get__(p) * 86400 + d.seconds.__get__(p)) * 10 ** 6 + d.microseconds.__get__(p)
    return None

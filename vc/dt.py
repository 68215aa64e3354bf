"""datetime on symbolic fields.

A symbolic date is its year, month and day (terms) together with its ordinal, connected by uninterpreted functions with the
facts that make them a bijection on valid dates (assumed: proleptic Gregorian calendar arithmetic of CPython).
"""
import datetime
import re
import z3
from .core import Unsupported
from .values import (Proxy, SBool, SInt, SStr, SymObj, Fix, Dec, STimedelta, as_int, ctx, int_op, isinstance_proxy, mkbool, mkint, mkstr, mktd,
                     payload, td_us, to_bool)
from .values import payload, reflected  # noqa
from .rt import RT, HOOKS, any_sym

I = z3.IntSort()
ORD = z3.Function("date_ordinal", I, I, I, I)
VALID = z3.Function("date_valid", I, I, I, z3.BoolSort())
YEAR, MONTH, DAY = (z3.Function("date_" + n, I, I) for n in ("year", "month", "day"))
DAYUS = 86400 * 10 ** 6
MAXORD = datetime.date.max.toordinal()


def T(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def _assumed():
    from .models import assumed
    assumed("calendar", "date <-> ordinal is a bijection between valid dates and 1..3652059 (proleptic Gregorian calendar of CPython's datetime)")


def valid_facts(y, m, d, o):
    """facts about a valid date and its ordinal"""
    return z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= 31, o >= 1, o <= MAXORD, VALID(y, m, d),
                  ORD(y, m, d) == o, YEAR(o) == y, MONTH(o) == m, DAY(o) == d)


class STz(Proxy):
    """a tzinfo with the constant offset of `off` minutes, or of off1 minutes for the times with fold 1; utc: whether it equals datetime.timezone.utc"""
    __slots__ = ("off", "utc", "off1")
    _kind = "symbolic tzinfo"
    __class__ = property(lambda s: datetime.timezone if s.off1 is None else datetime.tzinfo)

    def __init__(self, off, utc, off1=None):
        self.off, self.utc, self.off1 = off, utc, off1

    def __bool__(self):
        return True

    def __eq__(self, o):
        if o is self:
            return True
        if type(o) is STz:
            raise Unsupported("comparison of time zones")
        if o is datetime.timezone.utc:
            return mkbool(self.utc)
        if o is None:
            return False
        raise Unsupported("comparison of time zones")

    def __ne__(self, o):
        return mkbool(z3.Not(to_bool(self.__eq__(o))))

    __hash__ = Proxy.__hash__

    def utcoffset(self, d):
        if self.off1 is not None:
            raise Unsupported("utcoffset of a time zone")
        return mktd(self.off * 60 * 10 ** 6)

    def dst(self, d):
        return None


def tz_offset(tz, fold=None):
    """minutes as term, None for no tz"""
    if tz is None:
        return None
    if type(tz) is STz:
        if tz.off1 is None:
            return tz.off
        if fold is None:
            raise Unsupported("offset that depends on the fold")
        return z3.simplify(z3.If(T(fold) == 1, tz.off1, tz.off))
    u = tz.utcoffset(None) if isinstance(tz, datetime.timezone) else None
    if u is None:
        raise Unsupported("time zone")
    s = u.total_seconds()
    if s % 60:
        raise Unsupported("time zone with seconds")
    return z3.IntVal(int(s) // 60)


def sym_tz(name="off", fold=False):
    """any tzinfo with a whole number of minutes as offset (with fold: another one for times with fold 1); it may or may not be equal to timezone.utc
    when the offset is 0"""
    c = ctx()
    off = c.int(name, -1439, 1439)
    off1 = c.int(name + "_fold", -1439, 1439) if fold else None
    utc = c.bool(name + "_is_utc")
    c.assume(z3.Implies(utc, off == 0 if off1 is None else z3.And(off == 0, off1 == 0)))
    return STz(off, utc, off1)


class SDateTime(Proxy):
    __slots__ = ("y", "mo", "d", "o", "h", "mi", "s", "us", "tz", "_fold")
    _kind = "symbolic datetime"
    __class__ = property(lambda s: datetime.datetime)

    def __init__(self, y, mo, d, o, h, mi, s, us, tz, fold=0):
        self.y, self.mo, self.d, self.o, self.h, self.mi, self.s, self.us, self.tz, self._fold = y, mo, d, o, h, mi, s, us, tz, fold

    year = property(lambda s: mkint(s.y))
    month = property(lambda s: mkint(s.mo))
    day = property(lambda s: mkint(s.d))
    hour = property(lambda s: mkint(s.h))
    minute = property(lambda s: mkint(s.mi))
    second = property(lambda s: mkint(s.s))
    microsecond = property(lambda s: mkint(s.us))
    tzinfo = property(lambda s: s.tz)
    fold = property(lambda s: mkint(T(s._fold)) if isinstance_proxy(s._fold) or z3.is_expr(s._fold) else s._fold)

    def offset(self):
        return tz_offset(self.tz, self._fold if z3.is_expr(self._fold) else as_int(self._fold))

    def total(self):
        """microseconds of the local time since ordinal 0"""
        k = self._key()
        hit = ctx().__dict__.setdefault("_dt_total", {}).get(k)
        if hit is not None:
            return hit[0]
        return (((self.o * 24 + self.h) * 60 + self.mi) * 60 + self.s) * 10 ** 6 + self.us

    def _key(self):
        return tuple(T(x).get_id() for x in (self.y, self.mo, self.d, self.h, self.mi, self.s, self.us))

    def utc_total(self):
        t = self.total()
        return t if self.tz is None else t - tz_offset(self.tz) * 60 * 10 ** 6

    def __bool__(self):
        return True

    def __getattr__(self, name):
        if name.startswith("_vc") or not hasattr(datetime.datetime, name):
            raise AttributeError(name)
        return lambda *a, **k: dt_method(self, name, a, k)

    def __eq__(self, o):
        r = dt_method(self, "__eq__", (o,), {})
        return r

    def __ne__(self, o):
        return dt_method(self, "__ne__", (o,), {})

    __hash__ = Proxy.__hash__

    def __add__(self, o):
        return dt_method(self, "__add__", (o,), {})

    __radd__ = __add__

    def __sub__(self, o):
        if type(payload(o)) is SDateTime and reflected(o, "__rsub__"):
            return NotImplemented
        return dt_method(self, "__sub__", (o,), {})

    def _vc_concretize(self, m):
        from .core import concretize
        return {"fields": [concretize(x, m) for x in (self.y, self.mo, self.d, self.h, self.mi, self.s, self.us)],
                "offset": None if self.tz is None else concretize(self.offset(), m)}


def sym_datetime(name="dt", tz=None):
    """any naive or (with tz) aware datetime"""
    _assumed()
    c = ctx()
    y, mo, d = c.int(name + "_y", 1, 9999), c.int(name + "_mo", 1, 12), c.int(name + "_d", 1, 31)
    o = c.int(name + "_ord", 1, MAXORD)
    c.assume(valid_facts(y, mo, d, o))
    h, mi, s = c.int(name + "_h", 0, 23), c.int(name + "_mi", 0, 59), c.int(name + "_s", 0, 59)
    us = c.int(name + "_us", 0, 999999)
    return SDateTime(y, mo, d, o, h, mi, s, us, tz, c.int(name + "_fold", 0, 1) if type(tz) is STz and tz.off1 is not None else 0)


def from_total(total, tz):
    """the datetime with that local total of microseconds"""
    c = ctx()
    total = z3.simplify(T(total))
    if not c.branch(z3.And(total >= DAYUS, total < (MAXORD + 1) * DAYUS)):
        raise OverflowError("date value out of range")
    o = T(int_op("floordiv", total, DAYUS))
    r = T(int_op("mod", total, DAYUS))
    us, t = T(int_op("mod", r, 10 ** 6)), T(int_op("floordiv", r, 10 ** 6))
    s, t = T(int_op("mod", t, 60)), T(int_op("floordiv", t, 60))
    mi, h = T(int_op("mod", t, 60)), T(int_op("floordiv", t, 60))
    # a known date with the same ordinal keeps its fields
    y, mo, d = YEAR(o), MONTH(o), DAY(o)
    c.assume(valid_facts(y, mo, d, o))
    _assumed()
    r = SDateTime(y, mo, d, o, h, mi, s, us, tz)
    # the fields are the mixed radix digits of the total, so total() of any date time with these fields is this term
    c.__dict__.setdefault("_dt_total", {})[r._key()] = (total, r)
    return r


def fields_of(x):
    p = payload(x)
    if type(p) is SDateTime:
        return p
    if isinstance_proxy(p):
        return None
    if isinstance(p, datetime.datetime):
        g = datetime.datetime
        v = [z3.IntVal(getattr(g, n).__get__(p)) for n in ("year", "month", "day")]
        o = z3.IntVal(datetime.date.toordinal(p))
        w = [z3.IntVal(getattr(g, n).__get__(p)) for n in ("hour", "minute", "second", "microsecond")]
        return SDateTime(*v, o, *w, g.tzinfo.__get__(p), g.fold.__get__(p))
    return None


def build(a, k):
    """the arguments of datetime(...) -> SDateTime, raising ValueError like CPython"""
    names = ["year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo"]
    kw = dict(zip(names, a))
    for n, v in k.items():
        if n in kw:
            raise TypeError("argument for datetime() given by name and position")
        if n not in names and n != "fold":
            raise TypeError("%r is an invalid keyword argument for datetime()" % n)
        kw[n] = v
    for n in names[:3]:
        if n not in kw:
            raise TypeError("function missing required argument %r" % n)
    e = {}
    for n in names[:7]:
        v = as_int(kw.get(n, 0))
        if v is None:
            raise Unsupported("datetime from %s" % getattr(kw[n], "_kind", type(kw[n])))
        e[n] = T(v)
    tz = kw.get("tzinfo")
    c = ctx()
    y, m, d = e["year"], e["month"], e["day"]
    if not c.branch(z3.And(y >= 1, y <= 9999)):
        raise ValueError("year is out of range")
    if not c.branch(z3.And(m >= 1, m <= 12)):
        raise ValueError("month must be in 1..12")
    if not c.branch(z3.And(d >= 1, d <= 31)):
        raise ValueError("day is out of range for month")
    if not c.branch(VALID(y, m, d)):
        raise ValueError("day is out of range for month")
    for n, hi in (("hour", 23), ("minute", 59), ("second", 59), ("microsecond", 999999)):
        if not c.branch(z3.And(e[n] >= 0, e[n] <= hi)):
            raise ValueError("%s must be in 0..%d" % (n, hi))
    o = ORD(y, m, d)
    c.assume(valid_facts(y, m, d, o))
    _assumed()
    f = kw.get("fold", 0)
    return SDateTime(y, m, d, o, e["hour"], e["minute"], e["second"], e["microsecond"], tz, f)


def new(cls, p):
    return p if cls is datetime.datetime else SymObj(cls, p)


def _off_text(off, colon=""):
    """+HHMM"""
    c = ctx()
    neg = c.branch(off < 0)
    o = z3.simplify(-off) if neg else off
    return ["-" if neg else "+", Fix(T(int_op("floordiv", o, 60)), 2), colon, Fix(T(int_op("mod", o, 60)), 2)]


def strftime(p, format):
    segs = SStr._segs_of(format)
    if segs is None:
        raise TypeError("strftime() argument 1 must be str")
    out = []
    pend = ""
    for g in segs:
        if not isinstance(g, str):
            if pend:
                raise Unsupported("strftime directive before symbolic text")
            out.append(g)
            continue
        i = 0
        while i < len(g):
            ch = g[i]
            if ch != "%":
                out.append(ch)
                i += 1
                continue
            if i + 1 >= len(g):
                raise Unsupported("strftime directive")
            c = g[i + 1]
            i += 2
            if c == "Y":
                out.append(Dec(p.y))
            elif c in "mdHMS":
                out.append(Fix({"m": p.mo, "d": p.d, "H": p.h, "M": p.mi, "S": p.s}[c], 2))
            elif c == "f":
                out.append(Fix(p.us, 6))
            elif c == "z":
                if p.tz is not None:
                    out += _off_text(T(p.offset()))
            elif c == "%":
                out.append("%")
            else:
                raise Unsupported("strftime %" + c)
    return mkstr(out)


def strptime(cls, a, k):
    """datetime.strptime: CPython's own regular expression on the symbolic text, then cls(*fields)"""
    import _strptime
    from . import rx
    from .models import to_int_value
    text, format = a
    p = payload(text)
    if isinstance_proxy(format) or type(p) is not SStr:
        raise Unsupported("strptime")
    pat = _strptime.TimeRE().compile(format)
    if pat.flags & re.M:
        raise Unsupported("strptime")
    m = rx.run(pat, p, "match")
    if m is None:
        raise ValueError("time data does not match format")
    if m._e != len(m._toks) and m.group() != text:
        raise ValueError("unconverted data remains")
    g = m.groupdict()
    num = lambda n, dflt: dflt if g.get(n) is None else HOOKS.call(int, g[n])  # noqa
    if set(g) - set("YmdHMSfz"):
        raise Unsupported("strptime directives")
    frac = 0
    if g.get("f") is not None:
        f = g["f"]
        n = len(f)
        frac = HOOKS.call(int, f) * 10 ** (6 - n)
    args = [num("Y", 1900), num("m", 1), num("d", 1), num("H", 0), num("M", 0), num("S", 0), frac]
    if g.get("z") is not None:
        z = g["z"]
        zs = z.segs if type(z) is SStr else [z]
        if zs == ["Z"]:
            args.append(datetime.timezone.utc)
        else:
            toks = rx.tokens(SStr(zs))
            sign = toks[0].ch
            body = [t for t in toks[1:] if not (t.kind == "c" and t.ch == ":")]
            if len(body) != 4:
                raise Unsupported("strptime offset with seconds")
            hh = HOOKS.call(int, rx.text_of(body[:2]))
            mm = HOOKS.call(int, rx.text_of(body[2:]))
            off = T(as_int(hh)) * 60 + T(as_int(mm))
            if not ctx().branch(off < 1440):
                raise ValueError("offset must be strictly between")
            off = z3.simplify(-off if sign == "-" else off)
            args.append(STz(off, off == 0))
    # CPython validates the date when the object is created
    return HOOKS.call(cls, *args)


CMP = {"__eq__": lambda a, b: a == b, "__ne__": lambda a, b: a != b, "__lt__": lambda a, b: a < b, "__le__": lambda a, b: a <= b,
       "__gt__": lambda a, b: a > b, "__ge__": lambda a, b: a >= b}


def dt_method(p, name, a, k):
    p = fields_of(p)
    if p is None:
        raise Unsupported("datetime." + name)
    if name in CMP:
        o = fields_of(a[0])
        if o is None:
            return NotImplemented
        if (p.tz is None) != (o.tz is None):
            if name == "__eq__":
                return False
            if name == "__ne__":
                return True
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        return mkbool(CMP[name](p.utc_total(), o.utc_total()))
    if name == "strftime":
        return strftime(p, a[0])
    if name == "utcoffset":
        return None if p.tz is None else mktd(T(p.offset()) * 60 * 10 ** 6)
    if name in ("__add__", "__radd__", "__sub__"):
        d = td_us(a[0])
        if d is not None:
            return from_total(p.total() + d if name != "__sub__" else p.total() - d, p.tz)
        if name == "__sub__":
            o = fields_of(a[0])
            if o is not None:
                if (p.tz is None) != (o.tz is None):
                    raise TypeError("can't subtract offset-naive and offset-aware datetimes")
                return mktd(z3.simplify(p.utc_total() - o.utc_total()))
        return NotImplemented
    if name == "replace":
        kw = {"year": mkint(p.y), "month": mkint(p.mo), "day": mkint(p.d), "hour": mkint(p.h), "minute": mkint(p.mi), "second": mkint(p.s),
              "microsecond": mkint(p.us), "tzinfo": p.tz, "fold": p._fold}
        kw.update(dict(zip(["year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo"], a)))
        kw.update(k)
        return build((), kw)
    if name == "toordinal":
        return mkint(p.o)
    raise Unsupported("datetime." + name)


def td_method(p, name, a, k):
    if name in CMP:
        b = td_us(a[0])
        if b is None:
            return NotImplemented
        return mkbool(CMP[name](T(p.us), T(b)))
    if name in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__floordiv__", "__mod__", "__divmod__"):
        f = getattr(STimedelta, name, None)
        if f is None:
            raise Unsupported("timedelta." + name)
        if a and type(payload(a[0])) is SDateTime:
            return NotImplemented
        if name in ("__add__", "__radd__", "__sub__", "__rsub__"):
            # the slot itself, the other operand's class has no say here
            b = td_us(a[0])
            if b is None:
                return NotImplemented
            return mktd(b - p.us if name == "__rsub__" else p.us - b if name == "__sub__" else p.us + b)
        return f(p, *a)
    if name in ("__neg__", "__pos__", "__abs__", "total_seconds", "__bool__"):
        return getattr(STimedelta, name)(p)
    if name == "__hash__":
        from .models import SHash
        return SHash(("timedelta", p.us))
    raise Unsupported("timedelta." + name)


def concrete_method(s, name, a, k):
    """method of a concrete datetime with symbolic arguments"""
    return dt_method(s, name, a, k)


def _install():
    from .models import FUNCS, CLASSES, CLSMETHODS, NATIVE

    def dt_new(f, a, k):
        if not any_sym(a[1:], k):
            return NATIVE
        return new(a[0], build(a[1:], k))
    FUNCS[datetime.datetime.__new__] = dt_new

    def dt_cls(cls, a, k):
        return build(a, k) if any_sym(a, k) else NATIVE
    CLASSES[datetime.datetime] = dt_cls

    def tz_cls(cls, a, k):
        if not any_sym(a, k):
            return NATIVE
        us = td_us(a[0])
        c = ctx()
        if us is None or not c.valid(us % (60 * 10 ** 6) == 0):
            raise Unsupported("timezone with seconds")
        if not c.branch(z3.And(us > -DAYUS, us < DAYUS)):
            raise ValueError("offset must be strictly between")
        off = T(int_op("floordiv", us, 60 * 10 ** 6))
        return STz(off, off == 0)
    CLASSES[datetime.timezone] = tz_cls
    CLSMETHODS[datetime.datetime, "strptime"] = strptime


_install()

from contracts.lib import *  # noqa
from contracts.C08 import total_ns
from vc.dt import sym_datetime, sym_tz, tz_offset, fields_of
import operator


def version(ctx, name, n=None):
    """any version of 2 to 4 parts"""
    n = 2 + ctx.choose(3) if n is None else n
    parts = [ctx.int("%s_%s" % (name, k), 0) for k in ("major", "minor", "build", "revision")[:n]]
    named(ctx, **{name: [SInt(p) for p in parts]})
    kw = dict(zip(("major", "minor", "build", "revision"), [SInt(p) for p in parts]))
    return parts, call(T.PSVersion, **kw)


def lex_lt(a, b):
    if not b:
        return z3.BoolVal(False)
    if not a:
        return z3.BoolVal(True)
    return z3.Or(a[0] < b[0], z3.And(a[0] == b[0], lex_lt(a[1:], b[1:])))


def lex_eq(a, b):
    return z3.And(*[x == y for x, y in zip(a, b)]) if len(a) == len(b) else z3.BoolVal(False)


def form(r):
    return to_bool(r) if type(r) is SBool else z3.BoolVal(bool(r))


def all_ops(ctx, x, y, lt, eq):
    for n, f in (("lt", lt), ("le", z3.Or(lt, eq)), ("gt", z3.Not(z3.Or(lt, eq))), ("ge", z3.Not(lt)), ("eq", eq), ("ne", z3.Not(eq))):
        ctx.prove(n, form(getattr(operator, n)(x, y)) == f)


@contract("C23", budget=90)
def version_order(ctx):
    """the six comparisons of every two versions agree with the numeric lexicographic order, a prefix ordering first"""
    a, x = version(ctx, "a")
    b, y = version(ctx, "b")
    all_ops(ctx, x, y, lex_lt(a, b), lex_eq(a, b))


@contract("C23", budget=90)
def version_text(ctx):
    """parsing the text of any version gives an equal version with the same parts; comparing with the text works like with the version"""
    a, x = version(ctx, "a")
    t = call(str, x)
    y = call(T.PSVersion, t)
    got = [y.major, y.minor, y.build, y.revision]
    for g, w in zip(got, a + [None] * 4):
        ctx.prove("part", (g is None) if w is None else eqb(g, SInt(w)))
    ctx.prove("equal", form(x == y))
    ctx.prove("equal-text", form(x == t))
    ctx.prove("not-less", z3.Not(form(x < t)))


@contract("C23", budget=60)
def version_hash(ctx):
    """equal versions have equal hashes, however they were made"""
    RT.hash_sym = True
    a, x = version(ctx, "a")
    b, y = version(ctx, "b", len(a))
    ctx.assume(lex_eq(a, b))
    if ctx.choose(2):
        y = call(T.PSVersion, call(str, y))
    ctx.prove("hash", eqb(call(hash, x), call(hash, y)))


LIM = 9223372036854775807 * 100


def dur(ctx, name):
    """any duration, PSDuration or timedelta"""
    RT.lindiv = True
    us = ctx.int(name + "_us", -LIM // 2000, LIM // 2000)
    if ctx.choose(2) == 0:
        named(ctx, **{name: SInt(us * 1000)})
        return us * 1000, mktd(us), False
    n = ctx.int(name + "_n", 0, 999)
    ns = z3.simplify(us * 1000 + n)
    named(ctx, **{name: SInt(ns)})
    return ns, call(T.PSDuration, nanoseconds=SInt(ns)), True


def is_ps(ctx, v, cls):
    """the result carries nanoseconds"""
    ok = (v._vc_cls if type(v) is SymObj else type(v)) is cls
    ctx.prove("type", ok)


def part_ok(v):
    n = z3.IntVal(0) + as_int(v.nanoseconds)
    return z3.And(n >= 0, n < 1000)


@contract("C23", budget=60)
def duration_compare(ctx):
    """comparisons of a PSDuration with any duration agree with their exact length"""
    a, x, ps = dur(ctx, "a")
    b, y, ps2 = dur(ctx, "b")
    if not ps and not ps2:
        raise PathEnd("plain")
    all_ops(ctx, x, y, a < b, a == b)


@contract("C23", budget=60)
def duration_hash(ctx):
    """equal durations have equal hashes"""
    a, x, ps = dur(ctx, "a")
    b, y, ps2 = dur(ctx, "b")
    ctx.assume(a == b)
    if not (ps and ps2):
        raise PathEnd("plain")
    ctx.prove("hash", eqb(call(hash, x), call(hash, y)))


@contract("C23", budget=90)
def duration_arithmetic(ctx):
    """sum, difference and negation of durations are exact, with nanoseconds carried"""
    a, x, ps = dur(ctx, "a")
    b, y, ps2 = dur(ctx, "b")
    if not ps and not ps2:
        raise PathEnd("plain")
    s = x + y
    is_ps(ctx, s, T.PSDuration)
    ctx.prove("sum", total_ns(s) == a + b)
    ctx.prove("sum-part", part_ok(s))
    d = x - y
    is_ps(ctx, d, T.PSDuration)
    ctx.prove("difference", total_ns(d) == a - b)
    ctx.prove("difference-part", part_ok(d))
    if ps:
        n = -x
        ctx.prove("negation", total_ns(n) == -a)
        ctx.prove("negation-part", part_ok(n))


def dtime(ctx, name, tz):
    d = sym_datetime(name, tz)
    n = ctx.int(name + "_n", 0, 999)
    named(ctx, **{name: d, name + "_n": SInt(n)})
    return d, n, call(T.PSDateTime, d, nanosecond=SInt(n))


def dt_ns(v):
    return fields_of(v).total() * 1000 + as_int(v.nanosecond)


def dt_part(v):
    n = z3.IntVal(0) + as_int(v.nanosecond)
    return z3.And(n >= 0, n < 1000)


@contract("C23", budget=90)
def datetime_plus_duration(ctx):
    """date time plus or minus any duration, or a duration plus a date time, is the exact local time with nanoseconds carried, same offset, or OverflowError exactly
    when the result leaves year 1..9999"""
    b, y, ps = dur(ctx, "b")
    tz = sym_tz() if ctx.choose(2) else None
    d, n, x = dtime(ctx, "d", tz)
    how = ctx.choose(3)
    sub = how == 1
    start = d.total() * 1000 + n
    want = start - b if sub else start + b
    lo, hi = 86400 * 10 ** 9, (3652059 + 1) * 86400 * 10 ** 9
    try:
        r = x - y if sub else y + x if how else x + y
    except OverflowError:
        ctx.prove("overflow-only-outside", z3.Or(want < lo, want >= hi))
        return
    ctx.prove("type", type(r) is SymObj and r._vc_cls is T.PSDateTime)
    ctx.prove("exact", dt_ns(r) == want)
    ctx.prove("part", dt_part(r))
    ctx.prove("offset", fields_of(r).tz is tz)


@contract("C23", budget=120)
def datetime_difference(ctx):
    """the difference of two date times is exact, and adding it to the second gives the first"""
    tz = sym_tz() if ctx.choose(2) else None
    RT.lindiv = True
    d, n, x = dtime(ctx, "d", tz)
    e, m, y = dtime(ctx, "e", sym_tz("off2") if tz is not None else None)
    plain = ctx.choose(3)
    if plain == 1:
        x, n = d, 0
    elif plain == 2:
        y, m = e, 0
    r = x - y
    is_ps(ctx, r, T.PSDuration)
    utc = lambda v, k: v.utc_total() * 1000 + k  # noqa
    ctx.prove("exact", total_ns(r) == utc(d, n) - utc(e, m))
    ctx.prove("part", part_ok(r))
    if plain == 2:
        return  # a plain date time has no nanoseconds to give back
    try:
        back = y + r
    except OverflowError:
        # the local time of the result lies outside year 1..9999 when the offsets differ
        ctx.prove("overflow-only-offset", False if tz is None else tz_offset(x.tzinfo) != tz_offset(y.tzinfo))
        return
    p = fields_of(back)
    ctx.prove("back", utc(p, as_int(back.nanosecond)) == utc(d, n))
    ctx.prove("back-nanosecond", z3.IntVal(0) + as_int(back.nanosecond) == n)

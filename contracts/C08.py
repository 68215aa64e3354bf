from contracts.lib import *  # noqa
import datetime

S = sys.modules["psrpcore.types._serializer"]
LO, HI = -2 ** 63, 2 ** 63 - 1


def ticks(ctx, name="t"):
    """every number of 100 ns ticks 0..2^63 in mixed radix (days, hours, minutes, seconds, seven digits): a bijection"""
    RT.lindiv = True
    d, h = ctx.int(name + "_d", 0, 10675199), ctx.int(name + "_h", 0, 23)
    m, s = ctx.int(name + "_m", 0, 59), ctx.int(name + "_s", 0, 59)
    v = ((d * 24 + h) * 60 + m) * 60 + s
    for i in range(7):
        v = v * 10 + ctx.int("%s_f%d" % (name, i), 0, 9)
    return z3.simplify(v, som=True)


def ns_value(ctx):
    """every number of nanoseconds whose floor in ticks is within the .NET range"""
    t = ticks(ctx)
    sub = ctx.int("sub", 0, 99)
    if ctx.choose(2):
        ctx.assume(t <= HI)
    else:
        ctx.assume(z3.And(t > 0, t <= -LO))
        t = z3.simplify(-t)
    return t, z3.simplify(t * 100 + sub)


def duration(ctx):
    """any PSDuration in the .NET range: ticks, total nanoseconds, object"""
    t, ns = ns_value(ctx)
    named(ctx, ns=SInt(ns))
    return t, ns, call(T.PSDuration, nanoseconds=SInt(ns))


def total_ns(v):
    """exact length of a duration: microseconds of the timedelta part and the nanoseconds attribute"""
    n = as_int(v.nanoseconds)
    return td_us(v) * 1000 + n


@contract("C08", budget=60)
def construct(ctx):
    """PSDuration(nanoseconds=n) is exactly n nanoseconds long with 0 <= nanoseconds < 1000."""
    t, ns, d = duration(ctx)
    ctx.prove("total", total_ns(d) == ns)
    n = as_int(d.nanoseconds)
    ctx.prove("part", z3.And(z3.IntVal(0) + n >= 0, z3.IntVal(0) + n < 1000))


@contract("C08", budget=150, max_paths=4000)
def round_trip(ctx):
    """serialize then deserialize of every duration in the .NET range: the multiple of 100 ns at or below it, as PSDuration, and the
    text is a valid ISO 8601 duration accepted by the deserializer."""
    t, ns, d = duration(ctx)
    el = call(T.serialize, d, None)
    ctx.prove("tag", el.tag == "TS")
    ctx.prove("iso8601", iso(el.text))
    out = call(T.deserialize, el, None)
    ctx.prove("type", type(out) is T.PSDuration or type(out) is SymObj and out._vc_cls is T.PSDuration)
    ctx.prove("exact", z3.IntVal(0) + total_ns(out) == t * 100)


@contract("C08", budget=150, max_paths=4000)
def round_trip_timedelta(ctx):
    """the same for every plain timedelta in the .NET range."""
    t = ticks(ctx)
    last = lindiv(t, 10)[1]
    ctx.assume(z3.IntVal(0) + last == 0)
    ctx.assume(t <= HI)
    us = lindiv(t, 10)[0]
    if ctx.choose(2):
        us = z3.simplify(-us)
    named(ctx, us=SInt(us))
    out = call(T.deserialize, call(T.serialize, mktd(us), None), None)
    ctx.prove("exact", z3.IntVal(0) + total_ns(out) == us * 1000)


import re as _re
ISO = _re.compile(r"-?P(?:\d+D)?(?:T(?:\d+H)?(?:\d+M)?(?:\d+(?:\.\d+)?S)?)?")


def iso(t):
    """valid ISO 8601 duration text: the grammar, with at least one component, and one after a T"""
    from vc import rx
    segs = t.segs if type(t) is SStr else [t]
    if type(t) is not SStr:
        return bool(ISO.fullmatch(t)) and t[-1] not in "PT"
    last = segs[-1]
    return rx.run(ISO, t, "fullmatch") is not None and isinstance(last, str) and last[-1] not in "PT"

from contracts.lib import *  # noqa
from vc.dt import sym_datetime, sym_tz, tz_offset, SDateTime


def value(ctx):
    """any naive or aware date time (an offset of whole minutes, which may depend on the fold) with a nanosecond part, as plain datetime, or as
    PSDateTime made of its fields or of a plain datetime"""
    RT.lindiv = True
    aware = ctx.choose(2)
    d = sym_datetime("dt", sym_tz(fold=True) if aware else None)
    named(ctx, dt=d)
    if ctx.choose(2) == 0:
        return d, d, z3.IntVal(0)
    h, low = ctx.int("ns_h", 0, 9), ctx.int("ns_low", 0, 99)
    named(ctx, ns=SInt(h * 100 + low))
    return d, call(T.PSDateTime, d, nanosecond=SInt(z3.simplify(h * 100 + low))), h


@contract("C09", budget=200, max_paths=8000)
def round_trip(ctx):
    """serialize then deserialize keeps the calendar fields, microseconds, 100 ns part and offset (or none) of every date time."""
    d, v, h = value(ctx)
    el = call(T.serialize, v, None)
    ctx.prove("tag", el.tag == "DT")
    out = call(T.deserialize, el, None)
    ctx.prove("type", type(out) is SymObj and out._vc_cls is T.PSDateTime)
    p = out._vc_payload
    for n, a, b in (("year", p.y, d.y), ("month", p.mo, d.mo), ("day", p.d, d.d), ("hour", p.h, d.h), ("minute", p.mi, d.mi), ("second", p.s, d.s),
                    ("microsecond", p.us, d.us)):
        ctx.prove(n, a == b)
    ctx.prove("nanosecond", z3.IntVal(0) + as_int(out.nanosecond) == h * 100)
    ctx.prove("aware", (p.tz is None) == (d.tz is None))
    if d.tz is not None and p.tz is not None:
        ctx.prove("offset", z3.IntVal(0) + p.offset() == d.offset())

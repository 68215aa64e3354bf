from contracts.lib import *  # noqa

U64 = 2 ** 64 - 1


def inputs(ctx):
    oid, fid = SInt(ctx.int("oid", 0, U64)), SInt(ctx.int("fid", 0, U64))
    end, data = SBool(ctx.bool("end")), blob("data")
    ctx.assume(data.zlen() <= 2 ** 32 - 1)
    named(ctx, oid=oid, fid=fid, end=end, data=data)
    return oid, fid, end, data


def layout(oid, fid, end, data):
    flags = z3.If(fid.expr == 0, z3.IntVal(1), z3.IntVal(0)) + z3.If(to_bool(end), z3.IntVal(2), z3.IntVal(0))
    return SBytes([IntSeg(oid.expr, 8, False), IntSeg(fid.expr, 8, False), IntSeg(flags, 1, False), IntSeg(data.zlen(), 4, False)] + data.segs)


@contract("C02", budget=40)
def create_fragment_layout(ctx):
    """create_fragment: 21 byte big endian header (ids, start bit only for id 0, end bit, length) followed by the unchanged data."""
    oid, fid, end, data = inputs(ctx)
    before = list(data.segs)
    out = call(P.create_fragment, oid, fid, data, end)
    ctx.prove("layout", eqb(out, layout(oid, fid, end, data)))
    ctx.prove("data-unchanged", data.segs == before)


@contract("C02", budget=40)
def create_fragment_default_end(ctx):
    """create_fragment without an end argument marks the last fragment."""
    oid, fid, end, data = inputs(ctx)
    out = call(P.create_fragment, oid, fid, data)
    ctx.prove("layout", eqb(out, layout(oid, fid, True, data)))


@contract("C02", budget=40)
def unpack_fragment_inverse(ctx):
    """unpack_fragment on the documented layout followed by arbitrary bytes gives back every field, and leaves the buffer alone."""
    oid, fid, end, data = inputs(ctx)
    trail = blob("trail")
    named(ctx, trail=trail)
    buf = SBytes(layout(oid, fid, end, data).segs + trail.segs, True)
    before = list(buf.segs)
    f = call(P.unpack_fragment, buf)
    ctx.prove("object-id", eqb(f.object_id, oid))
    ctx.prove("fragment-id", eqb(f.fragment_id, fid))
    ctx.prove("start", to_bool(f.start) == (fid.expr == 0))
    ctx.prove("end", to_bool(f.end) == to_bool(end))
    ctx.prove("data", eqb(f.data, data))
    ctx.prove("buffer-unchanged", buf.segs == before)


@contract("C02", budget=40)
def fragment_cut(ctx):
    """PSRPMessage.fragment(n): the first min(n, len) bytes, the next fragment id, start only for id 0, end exactly when nothing is
    left; what is left is the rest (for every message state, so for every history of cuts)."""
    data = blob("data")
    m = call(P.PSRPMessage, P.PSRPMessageType.PipelineInput, data, suuid("rp"), None, SInt(ctx.int("oid", 0)))
    k = ctx.int("done", 0)
    poke(m, "_fragment_counter", SInt(k), 0)
    n = ctx.int("n", 0)
    named(ctx, data=data, n=SInt(n), fid=SInt(k))
    total = data.zlen()
    ctx.prove("length", eqb(call(len, m), mkint(total)))
    f = call(m.fragment, SInt(n))
    taken = cint(z3.If(n < total, n, total))
    b = data.segs[0].b
    ctx.prove("object-id", eqb(f.object_id, m.object_id))
    ctx.prove("fragment-id", eqb(f.fragment_id, SInt(k)))
    ctx.prove("start", to_bool(f.start) == (k == 0))
    ctx.prove("end", to_bool(f.end) == (n >= total))
    ctx.prove("data", eqb(f.data, SBytes([BlobSeg(b, 0, taken)])))
    ctx.prove("rest", eqb(m.data, SBytes([BlobSeg(b, taken, cint(total - taken))])))
    ctx.prove("next-id", eqb(peek(m, "_fragment_counter"), SInt(k + 1)))

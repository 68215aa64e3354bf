from contracts.lib import *  # noqa

TYPES = list(P.PSRPMessageType)


def inputs(ctx):
    rp, pid, body = suuid("rpid"), suuid("pid"), blob("body")
    client = SBool(ctx.bool("client"))
    mt = TYPES[ctx.choose(len(TYPES))]
    with_pid = ctx.choose(2)
    named(ctx, rpid=rp, pid=pid if with_pid else None, body=body, client=client, type=int(mt.value))
    return rp, (pid if with_pid else None), body, client, mt


def layout(client, mt, rp, pid, body):
    dest = z3.If(to_bool(client), z3.IntVal(2), z3.IntVal(1))
    return SBytes([IntSeg(dest, 4, True), IntSeg(z3.IntVal(mt.value), 4, True), UuidSeg(rp.expr, True),
                   UuidSeg(pid.expr, True) if pid is not None else bytes(16)] + body.segs)


@contract("C01", budget=40, covers=["pid", "nopid"])
def create_message_layout(ctx):
    """create_message: the result is the 40 byte header (destination, type, pool id, pipeline id or zeros) followed by the body,
    for every side, type, id and body; the body is not changed."""
    rp, pid, body, client, mt = inputs(ctx)
    before = list(body.segs)
    out = call(P.create_message, client, mt, body, rp, pid)
    ctx.eng.cover("pid" if pid is not None else "nopid")
    ctx.prove("layout", eqb(out, layout(client, mt, rp, pid, body)))
    ctx.prove("body-unchanged", body.segs == before)


@contract("C01", budget=60, covers=["bom", "nobom", "pid", "nopid"])
def unpack_message_inverse(ctx):
    """unpack_message on the documented layout gives back destination, type, ids and body (less a leading byte order mark)."""
    rp, pid, body, client, mt = inputs(ctx)
    raw = SBytes(layout(client, mt, rp, pid, body).segs, True)
    m = call(P.unpack_message, raw)
    ctx.prove("destination", eqb(m.destination, mkint(z3.If(to_bool(client), z3.IntVal(2), z3.IntVal(1)))))
    ctx.prove("type", m.message_type is mt)
    ctx.prove("rpid", eqb(m.rpid, rp))
    none = pid is None or ctx.branch(pid.expr == 0)
    ctx.eng.cover("nopid" if none else "pid")
    if none:
        ctx.prove("no-pid", m.pid is None)
    else:
        ctx.prove("pid", m.pid is not None and eqb(m.pid, pid))
    n = body.zlen()
    f = body.segs[0].b.fn
    if ctx.branch(z3.And(n >= 3, f(0) == 0xef, f(1) == 0xbb, f(2) == 0xbf)):
        ctx.eng.cover("bom")
        ctx.prove("body-without-mark", eqb(m.data, SBytes([BlobSeg(body.segs[0].b, 3, cint(n - 3))])))
    else:
        ctx.eng.cover("nobom")
        ctx.prove("body", eqb(m.data, body))


@contract("C01")
def queued_by_a_pool(ctx):
    """what a pool queues is that layout: addressed to the server by a client pool and to the client by a server pool, with the type,
    the pool's id and the pipeline id given, then the body (any value; the empty bodies)"""
    from contracts.session import opaque_serialization, pool, sent, body as body_of, T, RS, payload
    opaque_serialization(ctx)
    side = "cs"[ctx.choose(2)]
    p = pool(ctx, side, state=list(RS)[ctx.choose(len(RS))], key=False)
    p.their_capability = T.SessionCapability(PSVersion=T.PSVersion("2.0"), protocolversion=T.PSVersion("2.3"), SerializationVersion=T.PSVersion("1.1.0.1"))
    pid = suuid("pid", nonzero=True) if ctx.choose(2) else None
    k = ctx.choose(3)
    v = [None, T.EndOfPipelineInput(), text("t")][k]
    mt = [P.PSRPMessageType.PipelineOutput, P.PSRPMessageType.EndOfPipelineInput, TYPES[ctx.choose(len(TYPES))] if k == 2 else None][k]
    call(p.prepare_message, v, mt, pid)
    q = sent(p)
    ctx.prove("one message", len(q) == 1)
    m = q[0]
    ctx.prove("type", m.message_type is mt)
    d = payload(m.data)
    dest = z3.IntVal(2 if side == "c" else 1)
    head = SBytes([IntSeg(dest, 4, True), IntSeg(z3.IntVal(mt.value), 4, True), UuidSeg(p.runspace_pool_id.expr, True),
                   UuidSeg(pid.expr, True) if pid is not None else bytes(16)])
    ctx.prove("header", eqb(RT.models.getitem(d, slice(0, 40)), head))
    if k < 2:
        ctx.prove("no body", as_int(call(len, d)) == 40)
    else:
        b = body_of(m)
        ctx.prove("body", b is not None and b.value is v)

from contracts.session import *  # noqa
from contracts.C14 import CLIENT, SERVER, arguments

REQUESTS = {
    "get_available_runspaces": lambda p, v: p.get_available_runspaces(),
    "reset_runspace_state": lambda p, v: p.reset_runspace_state(),
    "set_max_runspaces": lambda p, v: p.set_max_runspaces(v),
    "set_min_runspaces": lambda p, v: p.set_min_runspaces(v),
}


def i32(ctx, name):
    return SInt(ctx.int(name, -2 ** 31, 2 ** 31 - 1))


def same(a, b):
    """formula: a == b"""
    r = eqb(a, b)
    return z3.BoolVal(r) if isinstance(r, bool) else r


def request(op):
    def f(ctx):
        opaque_serialization(ctx)
        p = pool(ctx, "c", state=RS.Opened)
        p.their_capability = T.SessionCapability(PSVersion=T.PSVersion("2.0"), protocolversion=T.PSVersion("2.3"), SerializationVersion=T.PSVersion("1.1.0.1"))
        v = i32(ctx, "value")
        before, mn, mx = peek(p, "_ci_count"), p.min_runspaces, p.max_runspaces
        events, handlers = frame(p._ci_events), peek(p, "_ci_handlers")
        ci = REQUESTS[op](p, v)
        ctx.prove("limits wait for the answer", z3.And(same(p.min_runspaces, mn), same(p.max_runspaces, mx)))
        if ci is None:
            ctx.prove("no request only when nothing changes", same(v, mx if "max" in op else mn) if op.startswith("set") else False)
            ctx.prove("nothing sent without an id", len(sent(p)) == 0)
            return
        ctx.prove("id not used before", same(ci, before))
        ctx.prove("id will not be used again", as_int(peek(p, "_ci_count")) == as_int(before) + 1)
        ctx.prove("one message", len(sent(p)) == 1)
        b = body(sent(p)[0])
        ctx.prove("the message carries the id", same(b.props["ci"], ci))
        if op.startswith("set"):
            ctx.prove("the message carries the value", same(b.props["MaxRunspaces" if "max" in op else "MinRunspaces"], v))
        ctx.prove("pending calls of the peer are not touched", events == frame(p._ci_events))
        if type(handlers) is SMap and handlers is peek(p, "_ci_handlers"):
            ctx.prove("only this id is registered", len(handlers.log) >= 1 and all(ctx.valid(t == as_int(ci)) for t, _ in handlers.log))
    f.__doc__ = "%s: a new id, one message with that id, limits unchanged until the answer" % op
    contract("C16", name="request_" + op)(f)


for _op in REQUESTS:
    request(_op)


@contract("C16")
def before_open_sets_directly(ctx):
    """before the pool is opened the limits are set at once and nothing is sent"""
    opaque_serialization(ctx)
    p = pool(ctx, "c", state=RS.BeforeOpen)
    v = i32(ctx, "value")
    mn, mx, n = p.min_runspaces, p.max_runspaces, peek(p, "_ci_count")
    if ctx.choose(2):
        r = p.set_max_runspaces(v)
        ctx.prove("limit set", z3.And(same(p.max_runspaces, v), same(p.min_runspaces, mn)))
    else:
        r = p.set_min_runspaces(v)
        ctx.prove("limit set", z3.And(same(p.min_runspaces, v), same(p.max_runspaces, mx)))
    ctx.prove("nothing sent", r is None and len(sent(p)) == 0)


@contract("C16")
def two_requests_any_order(ctx):
    """two limit requests, answered positively or negatively, in either order: each limit changes on each side only with the
    positive answer to its own request, to the value of that request"""
    wire(ctx)
    c, s = linked(ctx)
    v1, v2 = i32(ctx, "v1"), i32(ctx, "v2")
    kind = ctx.choose(3)
    ops = [("max", v1), ("min", v2)] if kind == 0 else [("max", v1), ("max", v2)] if kind == 1 else [("min", v1), ("min", v2)]
    lim = {(side, k): getattr(p, k + "_runspaces") for side, p in (("c", c), ("s", s)) for k in ("min", "max")}
    cis = []
    for k, v in ops:
        ctx.assume(z3.Not(same(v, lim["c", k])))
        cis.append((c.set_max_runspaces if k == "max" else c.set_min_runspaces)(v))
    ctx.prove("different ids", z3.Not(same(cis[0], cis[1])))
    ev = xfer(c, s)
    ctx.prove("both arrive", len(ev) == 2 and all(ctx.valid(same(e.ci, ci)) and ctx.valid(same(e.count, v)) for e, ci, (k, v) in zip(ev, cis, ops)))

    def check(when):
        for (side, k), v in lim.items():
            ctx.prove("%s %s %s" % (side, k, when), same(getattr(c if side == "c" else s, k + "_runspaces"), v))
    check("before any answer")
    order = [0, 1] if ctx.choose(2) else [1, 0]
    yes = [bool(ctx.choose(2)), bool(ctx.choose(2))]
    together = ctx.choose(2)
    for i in order:
        k, v = ops[i]
        call(s.runspace_availability_response, cis[i], yes[i])
        if yes[i]:
            lim["s", k] = v
        check("after the server's answer")
        if not together:
            answered(ctx, c, s, [i], cis, yes, ops, lim)
            check("after the answer arrived")
    if together:
        answered(ctx, c, s, order, cis, yes, ops, lim)
        check("after both answers arrived")


def answered(ctx, c, s, idx, cis, yes, ops, lim):
    ev = xfer(s, c)
    ctx.prove("one event for each answer", len(ev) == len(idx))
    for e, i in zip(ev, idx):
        ctx.prove("answer has the id of the request", same(e.ci, cis[i]))
        ctx.prove("answer has the result", same(e.success, yes[i]))
        if yes[i]:
            lim["c", ops[i][0]] = ops[i][1]


@contract("C16")
def answer_of_any_id(ctx):
    """an answer with any id: only the pending request with that id is completed, other requests stay pending, an id that is not pending is an
    error that changes nothing"""
    wire(ctx)
    c, s = linked(ctx)
    v = i32(ctx, "v")
    ctx.assume(z3.Not(same(v, c.max_runspaces)))
    mx, mn = c.max_runspaces, c.min_runspaces
    ci = c.set_max_runspaces(v)
    other = i32(ctx, "other")
    ctx.assume(z3.Not(same(other, ci)))
    h = peek(c, "_ci_handlers")
    if type(h) is not SMap:
        raise Unsupported("handlers were replaced")
    h.value = lambda k: None  # requests of the same pool that have no further effect
    s.prepare_message(T.RunspaceAvailability(SetMinMaxRunspacesResponse=bool(ctx.choose(2)), ci=other))
    try:
        xfer(s, c)
    except KeyError:
        pass
    ctx.prove("limits unchanged by another answer", z3.And(same(c.max_runspaces, mx), same(c.min_runspaces, mn)))
    ok = bool(ctx.choose(2))
    s.prepare_message(T.RunspaceAvailability(SetMinMaxRunspacesResponse=ok, ci=ci))
    xfer(s, c)
    ctx.prove("own answer", same(c.max_runspaces, v if ok else mx))
    ctx.prove("other limit", same(c.min_runspaces, mn))
    s.prepare_message(T.RunspaceAvailability(SetMinMaxRunspacesResponse=True, ci=ci))
    ctx.prove("answered once", raises(KeyError, xfer, s, c) is not None)


@contract("C16")
def availability_request(ctx):
    """get_available_runspaces and reset_runspace_state: the answer arrives with the id and the number or result given"""
    wire(ctx)
    c, s = linked(ctx)
    c.their_capability = T.SessionCapability(PSVersion=T.PSVersion("2.0"), protocolversion=T.PSVersion("2.3"), SerializationVersion=T.PSVersion("1.1.0.1"))
    lims = [c.max_runspaces, c.min_runspaces, s.max_runspaces, s.min_runspaces]
    reset = ctx.choose(2)
    ci = c.reset_runspace_state() if reset else c.get_available_runspaces()
    ev = xfer(c, s)
    ctx.prove("arrives", len(ev) == 1 and ctx.valid(same(ev[0].ci, ci)))
    ctx.prove("kind", ev[0].message_type == (MT.ResetRunspaceState if reset else MT.GetAvailableRunspaces))
    answer = bool(ctx.choose(2)) if reset else SInt(ctx.int("count", -2 ** 63, 2 ** 63 - 1))
    call(s.runspace_availability_response, ci, answer)
    ev = xfer(s, c)
    ctx.prove("answered", len(ev) == 1 and ctx.valid(same(ev[0].ci, ci)))
    ctx.prove("result", same(ev[0].success if reset else ev[0].count, answer))
    for a, b in zip(lims, [c.max_runspaces, c.min_runspaces, s.max_runspaces, s.min_runspaces]):
        ctx.prove("limits unchanged", same(a, b))


@contract("C16")
def server_answer_refused(ctx):
    """an answer for an id that is not pending, or of the wrong type, is refused and changes nothing; a given answer cannot be given again"""
    wire(ctx)
    c, s = linked(ctx)
    v = i32(ctx, "v")
    which = ctx.choose(3)
    c.their_capability = T.SessionCapability(PSVersion=T.PSVersion("2.0"), protocolversion=T.PSVersion("2.3"), SerializationVersion=T.PSVersion("1.1.0.1"))
    ctx.assume(z3.Not(same(v, c.max_runspaces)))
    ci = c.set_max_runspaces(v) if which == 0 else c.get_available_runspaces() if which == 1 else c.reset_runspace_state()
    xfer(c, s)
    other = i32(ctx, "other")
    t = peek(s, "_ci_events")
    if type(t) is SMap:
        ctx.assume(z3.Not(t.base_has(other)))
    ctx.assume(z3.Not(same(other, ci)))
    before = frame(s)
    ctx.prove("unknown id refused", raises(PSRPCoreError, call, s.runspace_availability_response, other, True) is not None)
    ctx.prove("nothing changed", frame(s) == before and call(s.data_to_send) is None)
    bad = i32(ctx, "bad") if which != 1 else text("bad")
    ctx.prove("wrong type refused", raises(PSRPCoreError, call, s.runspace_availability_response, ci, bad) is not None)
    ctx.prove("nothing changed", frame(s) == before and call(s.data_to_send) is None)
    call(s.runspace_availability_response, ci, True if which != 1 else 3)
    ctx.prove("sent", call(s.data_to_send) is not None)
    if type(t) is SMap:
        before = frame(s)
        ctx.prove("answered once", raises(PSRPCoreError, call, s.runspace_availability_response, ci, True) is not None)
        ctx.prove("nothing changed", frame(s) == before and call(s.data_to_send) is None)


@contract("C16", budget=120)
def host_call_correlation(ctx):
    """a host call (any method, pool or pipeline) is answered with its own id, method and pipeline target, once; calls without result use the
    reserved id and expect no answer"""
    wire(ctx)
    c, s = linked(ctx)
    m = METHODS[ctx.choose(len(METHODS))]
    pid = suuid("pid", nonzero=True) if ctx.choose(2) else None
    named(ctx, method=m.name, pipeline=pid is not None)
    n = peek(s, "_ci_count")
    ev0 = peek(c, "_ci_events")
    ci = s.host_call(m, None, pid)
    if m.is_void():
        ctx.prove("reserved id", same(ci, -100))
        ctx.prove("no id used", same(peek(s, "_ci_count"), n))
    else:
        ctx.prove("id not used before", same(ci, n))
        ctx.prove("id will not be used again", as_int(peek(s, "_ci_count")) == as_int(n) + 1)
    d = call(s.data_to_send)
    ctx.prove("stream", d is not None and d.stream_type.name == "prompt_response")
    ctx.prove("target", d.pipeline_id is None if pid is None else same(d.pipeline_id, pid))
    call(c.receive_data, d)
    before = frame(c._ci_events)
    e = call(c.next_event)
    ctx.prove("one event", e is not None and call(c.next_event) is None)
    ctx.prove("id", same(e.ci, ci))
    ctx.prove("method", e.method_identifier == m)
    ctx.prove("event target", e.pipeline_id is None if pid is None else same(e.pipeline_id, pid))
    if m.is_void():
        ctx.prove("no answer expected", frame(c._ci_events) == before)
        return
    call(c.host_response, ci)
    d = call(c.data_to_send)
    ctx.prove("answer stream", d is not None and d.stream_type.name == "prompt_response")
    ctx.prove("answer target", d.pipeline_id is None if pid is None else same(d.pipeline_id, pid))
    if type(ev0) is SMap:
        before = frame(c)
        ctx.prove("answered once", raises(KeyError, call, c.host_response, ci) is not None)
        ctx.prove("second answer changes nothing", frame(c) == before and call(c.data_to_send) is None)
    call(s.receive_data, d)
    e = call(s.next_event)
    ctx.prove("answer id", same(e.ci, ci))
    ctx.prove("answer method", e.method_identifier == m)
    ctx.prove("answer event target", e.pipeline_id is None if pid is None else same(e.pipeline_id, pid))


@contract("C16")
def host_calls_any_order(ctx):
    """two pending host calls, of the pool and of a pipeline, answered in either order: each answer has the method and target of its own call"""
    wire(ctx)
    c, s = linked(ctx)
    pid = suuid("pid", nonzero=True)
    hm = T.HostMethodIdentifier
    calls = [(hm.ReadLine, None), (hm.GetCursorSize, pid)]
    if ctx.choose(2):
        calls.reverse()
    cis = [s.host_call(m, None, p) for m, p in calls]
    ctx.prove("different ids", z3.Not(same(cis[0], cis[1])))
    xfer(s, c)
    order = [0, 1] if ctx.choose(2) else [1, 0]
    for i in order:
        call(c.host_response, cis[i], return_value=Opaque("result", truth=True, cls=T.PSObject))
    ev = xfer(c, s)
    ctx.prove("two answers", len(ev) == 2)
    for e, i in zip(ev, order):
        m, p = calls[i]
        ctx.prove("id", same(e.ci, cis[i]))
        ctx.prove("method", e.method_identifier == m)
        ctx.prove("target", e.pipeline_id is None if p is None else same(e.pipeline_id, p))


@contract("C16")
def failed_answer(ctx):
    """an answer whose value cannot be serialized is an error that sends nothing; the call stays pending and can be answered, with its own method and
    target, once"""
    opaque_serialization(ctx)
    good = []

    def ser(fn, a, k):
        if not good:
            raise NotImplementedError("cannot be serialized")
        return Ser(a[0], a[1:], k)
    RT.stub(T.serialize, ser)
    c = pool(ctx, "c", state=RS.Opened)
    t = peek(c, "_ci_events")
    ci = i32(ctx, "ci")
    ctx.assume(t.base_has(ci))
    on = c
    if ctx.choose(2):
        on = call(ClientPowerShell, c, pipeline_id=suuid("own"))
        on.state = IS.Running
    how = dict(return_value=Opaque("value", truth=True)) if ctx.choose(2) else dict(error_record=Opaque("error", truth=True, cls=T.ErrorRecord))
    if raises(NotImplementedError, call, on.host_response, ci, **how) is None:
        raise Unsupported("the value is serialized later")
    ctx.prove("nothing sent", len(sent(c)) == 0)
    ctx.prove("pools keep their state", c.state is RS.Opened)
    good.append(1)
    call(on.host_response, ci)
    ctx.prove("answered", len(sent(c)) == 1)
    e = [v for u, v in t.memo if ctx.valid(u == as_int(ci))]
    if e:
        b = body(sent(c)[0])
        ctx.prove("own id", same(b.props["ci"], ci))
        ctx.prove("own method", b.props["mi"] == e[0].method_identifier)
        p = sent(c)[0].pipeline_id
        w = e[0].pipeline_id
        ctx.prove("own target", p is None if w is None else p is not None and same(p, w))
    ctx.prove("answered once", raises(KeyError, call, on.host_response, ci) is not None and len(sent(c)) == 1)


def counter(side, table, op):
    def f(ctx):
        opaque_serialization(ctx)
        RT.stub(sys.modules["psrpcore._crypto"].create_keypair, lambda fn, a, k: (Opaque("private"), blob("public", 1)))
        p = pool(ctx, side)
        p.their_capability = capability(ctx)[1]
        n = peek(p, "_ci_count")
        try:
            table[op][0](p, arguments(ctx, op))
        except (PSRPCoreError, KeyError):
            pass
        ctx.prove("ids are not reused", as_int(peek(p, "_ci_count")) >= as_int(n))
    f.__doc__ = "%s never makes an id available again" % op
    contract("C16", name="counter_%s_%s" % (side, op))(f)


for _op in CLIENT:
    counter("c", CLIENT, _op)
for _op in SERVER:
    if _op != "connect":
        counter("s", SERVER, _op)


def messages(side, ctx):
    """messages a pool of that side can receive: (message, type, for a pipeline)"""
    i, o = i32(ctx, "any"), Opaque("any", truth=True, cls=T.PSObject)
    v = T.PSVersion("2.3")
    if side == "c":
        return [
            (T.SessionCapability(PSVersion=v, protocolversion=v, SerializationVersion=v), None, 0),
            (T.RunspacePoolInitData(MinRunspaces=i, MaxRunspaces=i), None, 0), (T.ApplicationPrivateData(ApplicationPrivateData={}), None, 0),
            (T.RunspacePoolStateMsg(RunspaceState=RS.Closed.value), None, 0), (T.PublicKeyRequest(), None, 0),
            (T.RunspaceAvailability(SetMinMaxRunspacesResponse=True, ci=i), None, 0), (T.RunspaceAvailability(SetMinMaxRunspacesResponse=5, ci=i), None, 0),
            (T.RunspacePoolHostCall(ci=i, mi=METHODS[0], mp=[]), None, 0), (T.PipelineHostCall(ci=i, mi=METHODS[0], mp=[]), None, 1),
            (T.PipelineState(PipelineState=int(IS.Completed)), None, 1), (o, MT.PipelineOutput, 1),
            (T.DebugRecord(Message="x"), MT.DebugRecord, 1), (T.VerboseRecord(Message="x"), MT.VerboseRecord, 1), (T.WarningRecord(Message="x"), MT.WarningRecord, 1),
        ]
    return [
        (T.SessionCapability(PSVersion=v, protocolversion=v, SerializationVersion=v), None, 0), (T.ConnectRunspacePool(), None, 0),
        (T.InitRunspacePool(MinRunspaces=i, MaxRunspaces=i, PSThreadOptions=list(T.PSThreadOptions)[0], ApartmentState=list(T.ApartmentState)[0], HostInfo=T.HostInfo(),
                            ApplicationArguments={}), None, 0),
        (T.SetMaxRunspaces(MaxRunspaces=i, ci=i), None, 0), (T.SetMinRunspaces(MinRunspaces=i, ci=i), None, 0), (T.ResetRunspaceState(ci=i), None, 0),
        (T.GetAvailableRunspaces(ci=i), None, 0), (o, MT.PipelineInput, 1), (T.EndOfPipelineInput(), None, 1),
        (T.RunspacePoolHostResponse(ci=i, mi=METHODS[0]), None, 0), (T.PipelineHostResponse(ci=i, mi=METHODS[0]), None, 1),
    ]


def counter_receive(side):
    def f(ctx):
        wire(ctx)
        RT.stub(sys.modules["psrpcore._crypto"].create_keypair, lambda fn, a, k: (Opaque("private"), b"public"))
        p = pool(ctx, side, buffer=False, handlers=lambda k: None)
        q = call(ServerRunspacePool if side == "c" else ClientRunspacePool)
        q.runspace_pool_id = p.runspace_pool_id
        ms = messages(side, ctx)
        m, t, pl = ms[ctx.choose(len(ms))]
        pid = suuid("pid", nonzero=True) if pl else None
        if pl and side == "c" and isinstance(m, T.PipelineState):
            call(ClientPowerShell, p, pipeline_id=pid)
        q.prepare_message(m, message_type=t, pipeline_id=pid)
        named(ctx, message=type(m).__name__)
        n = peek(p, "_ci_count")
        try:
            xfer(q, p)
        except (PSRPCoreError, KeyError):
            pass
        ctx.prove("ids are not reused", as_int(peek(p, "_ci_count")) >= as_int(n))
    f.__doc__ = "no received message, in any state of the pool, makes an id available again"
    contract("C16", name="counter_receive_" + side, budget=120)(f)


counter_receive("c")
counter_receive("s")

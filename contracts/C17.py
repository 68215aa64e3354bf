from contracts.session import *  # noqa
from contracts.C14 import CLIENT_PIPE, SERVER_PIPE, CLIENT, SERVER, arguments
from contracts.C16 import same, messages

STATES = list(IS)
CHANGES = {"start": (lambda p: p.start(), IS.Running), "begin_stop": (lambda p: p.begin_stop(), IS.Stopping), "stop": (lambda p: p.stop(), IS.Stopped),
           "complete": (lambda p: p.complete(), IS.Completed)}


def two(ctx, states=True):
    """an opened session with any tables, two different pipelines known to both sides"""
    wire(ctx)
    c, s = linked(ctx)
    pids = [suuid("pid1", nonzero=True), suuid("pid2", nonzero=True)]
    ctx.assume(z3.Not(same(*pids)))
    cp = [call(ClientPowerShell, c, pipeline_id=p) for p in pids]
    for p in cp:
        p.add_command("x")
    sp = [call(ServerPipeline, s, p) for p in pids]
    return c, s, pids, cp, sp


def change(op):
    def f(ctx):
        c, s, pids, cp, sp = two(ctx)
        st = STATES[ctx.choose(len(STATES))]
        named(ctx, pstate=st.name)
        sp[0].state = cp[0].state = st
        sp[1].state = cp[1].state = IS.Failed if op != "start" else IS.NotStarted
        keep = sp[1].state
        e = None
        try:
            CHANGES[op][0](sp[0])
        except InvalidPipelineState as x:
            e = x
        if e is not None or op == "stop" and st is IS.Stopped:
            ctx.prove("no change, nothing sent", sp[0].state is st and call(s.data_to_send) is None)
            return
        want = CHANGES[op][1]
        ctx.prove("new state", sp[0].state is want)
        ctx.prove("client does not know yet", cp[0].state is st)
        ev = xfer(s, c)
        ctx.prove("sent once", len(ev) == 1)
        ctx.prove("kind", ev[0].message_type == MT.PipelineState)
        ctx.prove("pipeline", same(ev[0].pipeline_id, pids[0]))
        ctx.prove("pool", same(ev[0].runspace_pool_id, c.runspace_pool_id))
        ctx.prove("state sent", ev[0].state is want)
        ctx.prove("client pipeline has it", cp[0].state is want)
        ctx.prove("other pipelines keep their state", cp[1].state is keep and sp[1].state is keep)
        ctx.prove("pools keep their state", c.state is RS.Opened and s.state is RS.Opened)
        if op == "stop":
            r = ev[0].reason
            ctx.prove("reason", r is not None and r.Exception.Message == "The pipeline has been stopped." and r.FullyQualifiedErrorId == "PipelineStopped")
        else:
            ctx.prove("no reason", ev[0].reason is None)
    f.__doc__ = "%s of a server pipeline in any state: the new state reaches the client pipeline with that id and no other" % op
    contract("C17", name="state_" + op)(f)


for _op in CHANGES:
    change(_op)


@contract("C17")
def states_in_order(ctx):
    """state changes of two pipelines received together: each client pipeline has the last state of its own server pipeline"""
    c, s, pids, cp, sp = two(ctx)
    i = ctx.choose(2)
    a, b = sp[i], sp[1 - i]
    a.start()
    b.start()
    a.begin_stop()
    if ctx.choose(2):
        a.stop()
    else:
        b.complete()
    xfer(s, c)
    for x, y in zip(cp, sp):
        ctx.prove("same state", x.state is y.state)


@contract("C17")
def state_of_any_value(ctx):
    """a state message with any state value for any known pipeline"""
    c, s, pids, cp, sp = two(ctx)
    st = STATES[ctx.choose(len(STATES))]
    old = STATES[ctx.choose(len(STATES))]
    cp[0].state = cp[1].state = old
    i = ctx.choose(2)
    s.prepare_message(T.PipelineState(PipelineState=int(st)), pipeline_id=pids[i])
    xfer(s, c)
    ctx.prove("this pipeline", cp[i].state is st)
    ctx.prove("not the other", cp[1 - i].state is old)


def keeps(side, table, op):
    def f(ctx):
        opaque_serialization(ctx)
        p = pool(ctx, side, RS.Opened)
        p.their_capability = T.SessionCapability(PSVersion=T.PSVersion("2.0"), protocolversion=T.PSVersion("2.3"), SerializationVersion=T.PSVersion("1.1.0.1"))
        t = p.pipeline_table
        pid, pl = pipeline(ctx, p, side)
        ctx.prove("known from creation", t is p.pipeline_table and len(t.log) == 1 and ctx.valid(t.log[0][0] == pid.expr) and t.log[0][1] is pl)
        n = len(t.log)
        st = pl.state
        try:
            table[op][0](pl, arguments(ctx, op))
        except (PSRPCoreError, KeyError):
            ctx.prove("failure forgets nothing", p.pipeline_table is t and len(t.log) == n)
            return
        if op != "close":
            ctx.prove("stays known", p.pipeline_table is t and len(t.log) == n)
            return
        ctx.prove("closed only when not running", st not in (IS.Running, IS.Disconnected))
        ctx.prove("table kept", p.pipeline_table is t)
        ctx.prove("forgotten", t.lookup(pid) is DEL)
        ctx.prove("only this one", all(ctx.valid(k == pid.expr) for k, v in t.log[n:]))
    f.__doc__ = "a %s pipeline is known from creation, stays known over %s in any state, and closing forgets it alone" % ({"c": "client", "s": "server"}[side], op)
    contract("C17", name="known_%s_%s" % (side, op))(f)


for _op in CLIENT_PIPE:
    keeps("c", CLIENT_PIPE, _op)
SP = dict(SERVER_PIPE, complete=(lambda p, a: p.complete(), "", ""))
for _op in SP:
    keeps("s", SP, _op)


def pool_keeps(side, table, op):
    def f(ctx):
        opaque_serialization(ctx)
        RT.stub(sys.modules["psrpcore._crypto"].create_keypair, lambda fn, a, k: (Opaque("private"), blob("public", 1)))
        p = pool(ctx, side)
        p.their_capability = capability(ctx)[1]
        t = p.pipeline_table
        some = bool(ctx.choose(2))
        ctx.assume(t.some if some else z3.Not(t.some))
        st = p.state
        ok = True
        try:
            table[op][0](p, arguments(ctx, op))
        except (PSRPCoreError, KeyError):
            ok = False
        ctx.prove("pipelines stay known", p.pipeline_table is t and len(t.log) == 0)
        if op == "close" and some:
            ctx.prove("not closed while pipelines are known", not ok and p.state is st and len(sent(p)) == 0)
    f.__doc__ = "%s pool %s forgets no pipeline; a pool that knows pipelines cannot be closed" % ({"c": "client", "s": "server"}[side], op)
    contract("C17", name="pool_%s_%s" % (side, op))(f)


for _op in CLIENT:
    pool_keeps("c", CLIENT, _op)
for _op in SERVER:
    pool_keeps("s", SERVER, _op)


def receive_keeps(side):
    def f(ctx):
        wire(ctx)
        RT.stub(sys.modules["psrpcore._crypto"].create_keypair, lambda fn, a, k: (Opaque("private"), b"public"))
        p = pool(ctx, side, buffer=False, handlers=lambda k: None)
        q = call(ServerRunspacePool if side == "c" else ClientRunspacePool)
        q.runspace_pool_id = p.runspace_pool_id
        ms = messages(side, ctx)
        m, ty, pl = ms[ctx.choose(len(ms))]
        pid = suuid("pid", nonzero=True) if pl else None
        x = None
        if pl:
            x = call(ClientPowerShell, p, pipeline_id=pid) if side == "c" else call(ServerPipeline, p, pid)
        t = p.pipeline_table
        n = len(t.log)
        q.prepare_message(m, message_type=ty, pipeline_id=pid)
        named(ctx, message=type(m).__name__)
        try:
            xfer(q, p)
        except (PSRPCoreError, KeyError):
            pass
        ctx.prove("pipelines stay known", p.pipeline_table is t and len(t.log) == n)
        if x is not None and not isinstance(m, T.PipelineState):
            ctx.prove("only a state message changes the state", x.state is IS.NotStarted)
    f.__doc__ = "no received message makes a pool forget a pipeline, and only a state message changes a pipeline's state"
    contract("C17", name="receive_" + side, budget=120)(f)


receive_keeps("c")
receive_keeps("s")


@contract("C17")
def close_frees_pool(ctx):
    """closing the pipelines one by one makes the pool closable, not earlier"""
    opaque_serialization(ctx)
    p = pool(ctx, "cs"[ctx.choose(2)], RS.Opened)
    p.pipeline_table = {}
    mk = ClientPowerShell if isinstance(p, ClientRunspacePool) else ServerPipeline
    pls = [mk(p, pipeline_id=uuid.UUID(int=i)) for i in (1, 2, 3)]
    for x in pls:
        x.state = [IS.NotStarted, IS.Completed, IS.Stopped, IS.Failed][ctx.choose(4)]
    for i, x in enumerate(pls):
        ctx.prove("not yet", raises(PSRPCoreError, call, p.close) is not None and p.state is RS.Opened)
        call(x.close)
        ctx.prove("others stay", list(p.pipeline_table.values()) == pls[i + 1:])
    call(p.close)
    ctx.prove("closed", p.state is RS.Closed)


@contract("C17")
def unknown_refused(ctx):
    """the definition of a pipeline whose id the server does not know is refused and changes nothing; that of a known one is stored there only"""
    wire(ctx)
    c, s = linked(ctx)
    pid, other = suuid("pid", nonzero=True), suuid("other", nonzero=True)
    x = call(ServerPipeline, s, other)
    t = s.pipeline_table
    ctx.assume(z3.Not(t.base_has(pid)))
    if ctx.choose(2):
        pl = call(ClientPowerShell, c, pipeline_id=pid)
        pl.add_command(text("command"))
    else:
        pl = call(ClientGetCommandMetadata, c, [text("name")], pipeline_id=pid)
    call(pl.start)
    known = ctx.branch(same(pid, other))
    n = len(t.log)
    e = raises(PSRPCoreError, xfer, c, s)
    ctx.prove("refused exactly when unknown", (e is None) == known)
    ctx.prove("table unchanged", s.pipeline_table is t and len(t.log) == n)
    ctx.prove("definition stored for a known id only", (x.metadata is not None) == known)
    ctx.prove("nothing sent", call(s.data_to_send) is None)


@contract("C17")
def state_of_unknown_pipeline(ctx):
    """a state message for an id the client does not know (or for no pipeline) changes no pipeline and forgets none; later messages arrive"""
    wire(ctx)
    c, s = linked(ctx)
    if ctx.choose(2):
        c.pipeline_table = {}
        known = [uuid.UUID(int=i) for i in (1, 2)][:ctx.choose(3)]
        pid = uuid.UUID(int=7) if ctx.choose(2) else None
    else:
        pid, known = suuid("pid", nonzero=True), [suuid("known", nonzero=True)]
        ctx.assume(z3.Not(c.pipeline_table.base_has(pid)))
        ctx.assume(z3.Not(same(pid, known[0])))
    pls = [call(ClientPowerShell, c, pipeline_id=k) for k in known]
    old = STATES[ctx.choose(len(STATES))]
    for x in pls:
        x.state = old
    t = c.pipeline_table
    n = list(t.items()) if type(t) is dict else len(t.log)
    s.prepare_message(T.PipelineState(PipelineState=int(STATES[ctx.choose(len(STATES))])), pipeline_id=pid)
    try:
        xfer(s, c)
    except (PSRPCoreError, KeyError):
        pass
    ctx.prove("no pipeline changes", all(x.state is old for x in pls))
    ctx.prove("the same pipelines are known", c.pipeline_table is t and (list(t.items()) if type(t) is dict else len(t.log)) == n)
    ctx.prove("nothing is left over", call(c.next_event) is None)
    s.prepare_message(T.RunspacePoolStateMsg(RunspaceState=RS.Broken.value))
    ctx.prove("the next message arrives", len(xfer(s, c)) == 1 and c.state is RS.Broken)

from contracts.session import *  # noqa


def limits(ctx):
    return SInt(ctx.int("min_runspaces", -2 ** 31, 2 ** 31 - 1)), SInt(ctx.int("max_runspaces", -2 ** 31, 2 ** 31 - 1))


def versions_of(p, ctx, name, field):
    """any protocol, PowerShell and serialization version of one side"""
    kw = {"PSVersion": T.PSVersion("5.1.7"), "protocolversion": T.PSVersion("2.2"), "SerializationVersion": T.PSVersion("1.2.3.4")}
    kw[list(kw)[field]] = version(ctx, name)
    poke(p, "our_capability", call(T.SessionCapability, **kw))


def same_capability(ctx, name, got, want):
    ctx.prove(name + " received", got is not None)
    for f in ("PSVersion", "protocolversion", "SerializationVersion"):
        ctx.prove("%s: %s" % (name, f), eqb(getattr(got, f), getattr(want, f)))


def host_info(ctx, flags):
    """any host information, with and without the default data"""
    i = lambda n: SInt(ctx.int(n, -2 ** 31, 2 ** 31 - 1))
    colors = list(T.ConsoleColor)
    dd = T.HostDefaultData(ForegroundColor=colors[3], BackgroundColor=colors[0 if flags else ctx.choose(len(colors))], CursorPosition=T.Coordinates(X=i("cx"), Y=i("cy")),
                           WindowPosition=T.Coordinates(X=i("wx"), Y=i("wy")), CursorSize=i("cursor"), BufferSize=T.Size(Width=i("bw"), Height=i("bh")),
                           WindowSize=T.Size(Width=i("ww"), Height=i("wh")), MaxWindowSize=T.Size(Width=i("mw"), Height=i("mh")),
                           MaxPhysicalWindowSize=T.Size(Width=i("pw"), Height=i("ph")), WindowTitle=text("title"))
    flag = lambda n: SBool(ctx.bool(n))
    if flags:
        dd = None
        i = lambda n: 7
    else:
        flag = lambda n: n != "null"
    return T.HostInfo(IsHostNull=flag("null"), IsHostUINull=flag("uinull"), IsHostRawUINull=flag("rawnull"), UseRunspaceHost=flag("runspacehost"),
                      HostDefaultData=dd)


def same_host(ctx, got, want):
    for f in ("IsHostNull", "IsHostUINull", "IsHostRawUINull", "UseRunspaceHost"):
        ctx.prove("host " + f, eqb(getattr(got, f), getattr(want, f)))
    a, b = got.HostDefaultData, want.HostDefaultData
    if b is None:
        ctx.prove("no default data", a is None)
        return
    ctx.prove("default data", a is not None)
    for f in ("ForegroundColor", "BackgroundColor"):
        ctx.prove(f, getattr(a, f) == getattr(b, f))
    ctx.prove("CursorSize", eqb(a.CursorSize, b.CursorSize))
    ctx.prove("WindowTitle", eqb(a.WindowTitle, b.WindowTitle))
    for f in ("CursorPosition", "WindowPosition"):
        for g in ("X", "Y"):
            ctx.prove("%s %s" % (f, g), eqb(getattr(getattr(a, f), g), getattr(getattr(b, f), g)))
    for f in ("BufferSize", "WindowSize", "MaxWindowSize", "MaxPhysicalWindowSize"):
        for g in ("Width", "Height"):
            ctx.prove("%s %s" % (f, g), eqb(getattr(getattr(a, f), g), getattr(getattr(b, f), g)))


@contract("C15")
def open_transfers_settings(ctx):
    """open, exchange: both opened, same pool id and limits, each other's versions, arguments and private data"""
    wire(ctx)
    mn, mx = limits(ctx)
    c = call(ClientRunspacePool, min_runspaces=mn, max_runspaces=mx, runspace_pool_id=suuid("rpid"), application_arguments={"a": anyval("arg"), "Some_x0041_ key": anyval("arg2")})
    s = call(ServerRunspacePool, application_private_data={"p": anyval("private")})
    field = ctx.choose(3)
    if ctx.choose(2):
        versions_of(c, ctx, "c", field)
    else:
        versions_of(s, ctx, "s", field)
    sent_private = dict(s.application_private_data)
    call(c.open)
    xfer(c, s)
    xfer(s, c)
    ctx.prove("both opened", c.state is RS.Opened and s.state is RS.Opened)
    ctx.prove("same pool id", eqb(c.runspace_pool_id, s.runspace_pool_id))
    for p in (c, s):
        ctx.prove("minimum", eqb(p.min_runspaces, mn))
        ctx.prove("maximum", eqb(p.max_runspaces, mx))
    same_capability(ctx, "client's capability", s.their_capability, c.our_capability)
    same_capability(ctx, "server's capability", c.their_capability, s.our_capability)
    got = list(s.application_arguments.items())
    want = list(c.application_arguments.items())
    ctx.prove("number of arguments", len(got) == len(want) == 2)
    for (k1, v1), (k2, v2) in zip(got, want):
        ctx.prove("argument name", eqb(k1, k2))
        ctx.prove("argument value", v1 is v2)
    ctx.prove("private data keys", list(c.application_private_data) == list(sent_private))
    ctx.prove("private data", c.application_private_data["p"] is sent_private["p"])


@contract("C15")
def open_transfers_host(ctx):
    """host information, apartment state and thread options, for every value of each"""
    wire(ctx)
    ap, to = list(T.ApartmentState), list(T.PSThreadOptions)
    which = ctx.choose(3)
    host = host_info(ctx, which == 1) if which else None
    ap = ap[ctx.choose(len(ap))] if not which else ap[0]
    to = to[ctx.choose(len(to))] if not which else to[1]
    mn, mx = (1, 2) if which else limits(ctx)
    c = call(ClientRunspacePool, apartment_state=ap, thread_options=to, host=host, min_runspaces=mn, max_runspaces=mx, runspace_pool_id=suuid("rpid"))
    s = call(ServerRunspacePool)
    call(c.open)
    xfer(c, s)
    ctx.prove("apartment state", s.apartment_state is ap)
    ctx.prove("thread options", s.thread_options is to)
    ctx.prove("host received", s.host is not None)
    same_host(ctx, s.host, host if host is not None else T.HostInfo())
    xfer(s, c)
    ctx.prove("both opened", c.state is RS.Opened and s.state is RS.Opened)


@contract("C15")
def connect_again(ctx):
    """a disconnected pool with any history is connected to by the same or a fresh client: both opened, client has the server's limits"""
    wire(ctx)
    fresh = ctx.choose(2)
    s = pool(ctx, "s", state=RS.Opened, buffer=False)
    s.their_capability = capability(ctx)[1]
    s.application_private_data = {"p": anyval("private")}
    mn, mx = s.min_runspaces, s.max_runspaces
    if fresh:
        c = call(ClientRunspacePool, runspace_pool_id=s.runspace_pool_id)
    else:
        c = pool(ctx, "c", state=RS.Opened, buffer=False)
        c.runspace_pool_id = s.runspace_pool_id
        c.application_private_data = {"p": anyval("earlier"), "gone": anyval("gone")}
        call(c.disconnect)
    call(s.disconnect)
    ctx.prove("disconnect sends nothing", call(s.data_to_send) is None)
    call(s.connect)
    call(c.connect)
    xfer(c, s)
    xfer(s, c)
    ctx.prove("both opened", c.state is RS.Opened and s.state is RS.Opened)
    ctx.prove("same pool id", eqb(c.runspace_pool_id, s.runspace_pool_id))
    for p in (c, s):
        ctx.prove("minimum", eqb(p.min_runspaces, mn))
        ctx.prove("maximum", eqb(p.max_runspaces, mx))
    same_capability(ctx, "client's capability", s.their_capability, c.our_capability)
    ctx.prove("private data keys", list(c.application_private_data) == list(s.application_private_data))
    ctx.prove("private data", c.application_private_data["p"] is s.application_private_data["p"])


@contract("C15")
def other_pool_refused(ctx):
    """a connection for another pool id is refused: an error, nothing sent, not opened"""
    wire(ctx)
    s = pool(ctx, "s", state=RS.Disconnected, buffer=False)
    c = call(ClientRunspacePool, runspace_pool_id=suuid("other"))
    ctx.assume(z3.Not(eqb(c.runspace_pool_id, s.runspace_pool_id)))
    mine = s.runspace_pool_id
    call(s.connect)
    call(c.connect)
    e = raises(PSRPCoreError, xfer, c, s)
    ctx.prove("refused", e is not None)
    ctx.prove("pool id kept", s.runspace_pool_id is mine)
    ctx.prove("not opened", s.state is not RS.Opened)
    ctx.prove("nothing sent", call(s.data_to_send) is None)


@contract("C15")
def same_pool_accepted(ctx):
    """the capability exchange of the right pool is accepted while connecting and is not answered twice"""
    wire(ctx)
    s = pool(ctx, "s", state=RS.Disconnected, buffer=False)
    c = call(ClientRunspacePool, runspace_pool_id=s.runspace_pool_id)
    call(s.connect)
    call(c.connect)
    e = raises(PSRPCoreError, xfer, c, s)
    ctx.prove("accepted", e is None)
    ctx.prove("opened", s.state is RS.Opened)


@contract("C15")
def connect_with_limits(ctx):
    """limits that come with a connection are the limits of the pool afterwards, on both sides; a missing one stays as it was"""
    wire(ctx)
    s = pool(ctx, "s", state=RS.Opened, buffer=False)
    s.their_capability = capability(ctx)[1]
    mn, mx = s.min_runspaces, s.max_runspaces
    kw = {}
    which = 1 + ctx.choose(3)
    if which & 1:
        mn = kw["MinRunspaces"] = SInt(ctx.int("asked_min", 1, 2 ** 31 - 1))
    if which & 2:
        mx = kw["MaxRunspaces"] = SInt(ctx.int("asked_max", 1, 2 ** 31 - 1))
    c = call(ClientRunspacePool, runspace_pool_id=s.runspace_pool_id)
    call(s.disconnect)
    call(s.connect)
    c.state = RS.Connecting
    call(c.prepare_message, c.our_capability)
    call(c.prepare_message, call(T.ConnectRunspacePool, **kw))
    xfer(c, s)
    xfer(s, c)
    ctx.prove("both opened", c.state is RS.Opened and s.state is RS.Opened)
    for p in (c, s):
        ctx.prove("minimum", eqb(p.min_runspaces, mn))
        ctx.prove("maximum", eqb(p.max_runspaces, mx))

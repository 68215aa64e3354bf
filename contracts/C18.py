from contracts.session import *  # noqa
from contracts.C15 import host_info, same_host
from contracts.C16 import same
from psrpcore import Command
PRT = T.PipelineResultTypes


def session(ctx, ver="2.3"):
    wire(ctx)
    c, s = linked(ctx)
    if ver is not None:
        c.their_capability = T.SessionCapability(PSVersion=T.PSVersion("2.0"), protocolversion=T.PSVersion(ver), SerializationVersion=T.PSVersion("1.1.0.1"))
    pid = suuid("pid", nonzero=True)
    return c, s, pid


def send(ctx, c, s, pid, pl):
    x = call(ServerPipeline, s, pid)
    call(pl.start)
    ev = xfer(c, s)
    ctx.prove("one event", len(ev) == 1)
    ctx.prove("target", same(ev[0].pipeline_id, pid))
    ctx.prove("stored with the pipeline", x.metadata is not None)
    return ev[0], x.metadata


def truth(x):
    """the truth of a received or sent flag (None stays None)"""
    x = payload(x)
    if x is None:
        return None
    if type(x) is SBool:
        return x.expr
    if isinstance_proxy(x):
        e = as_int(x)
        return e != 0 if not isinstance(e, int) else bool(e)
    return bool(x)


def flag_same(ctx, name, got, want):
    g, w = truth(got), truth(want)
    if g is None or w is None:
        ctx.prove(name, g is None and w is None)
    else:
        ctx.prove(name, (z3.BoolVal(g) if isinstance(g, bool) else g) == (z3.BoolVal(w) if isinstance(w, bool) else w))


def same_command(ctx, got, want, last):
    ctx.prove("text", same(got.command_text, want.command_text))
    flag_same(ctx, "script flag", got.is_script, want.is_script)
    flag_same(ctx, "scope", got.use_local_scope, want.use_local_scope)
    flag_same(ctx, "end of statement", got.end_of_statement, want.end_of_statement if not last else True)
    flag_same(ctx, "merge unclaimed", got.merge_unclaimed, want.merge_unclaimed)
    ctx.prove("number of parameters", len(got.parameters) == len(want.parameters))
    for (n1, v1), (n2, v2) in zip(got.parameters, want.parameters):
        ctx.prove("parameter name", n1 is None if n2 is None else n1 is not None and same(n1, n2))
        ctx.prove("parameter value", v1 is v2 if type(v2) is Opaque else same(v1, v2))


def nonempty(ctx, name):
    t = text(name)
    ctx.assume(t.zlen() > 0)
    return t


def param(ctx, c, i):
    k = ctx.choose(3)
    v = anyval("value%d" % i) if i == 0 else Opaque("value%d" % i, truth=True)
    if k == 0:
        c.add_argument(v)
    elif k == 1:
        c.add_parameter(text("name%d" % i), v)
    else:
        c.add_parameter("Switch_x0041_")


@contract("C18", bounded="1 to 4 commands with one parameter each")
def commands_in_order(ctx):
    """any non-empty text (empty text: see command_fields), every placement of statement ends: same commands, order, parameters and statement ends"""
    c, s, pid = session(ctx)
    pl = call(ClientPowerShell, c, pipeline_id=pid)
    n = 1 + ctx.choose(4)
    for i in range(n):
        (pl.add_script if i % 2 else pl.add_command)(nonempty(ctx, "cmd%d" % i))
        pl.add_parameter(nonempty(ctx, "p%d" % i), Opaque("v%d" % i, truth=True))
        if ctx.choose(2):
            pl.add_statement()
    want = list(pl.metadata.commands)
    e, got = send(ctx, c, s, pid, pl)
    ctx.prove("number of commands", len(got.commands) == n)
    for i, (a, b) in enumerate(zip(got.commands, want)):
        same_command(ctx, a, b, i == n - 1)


@contract("C18", bounded="up to 3 parameters")
def command_fields(ctx):
    """one command: any text, script flag, scope setting, named parameters, switches and positional arguments in any order"""
    c, s, pid = session(ctx)
    pl = call(ClientPowerShell, c, pipeline_id=pid)
    which = ctx.choose(2)
    scope = [None, True, False, SBool(ctx.bool("scope"))][0 if which else ctx.choose(4)]
    script = True if which else [True, False, SBool(ctx.bool("script"))][ctx.choose(3)]
    cmd = call(Command, text("cmd"), script, use_local_scope=scope)
    if which:
        for i in range(ctx.choose(4)):
            param(ctx, cmd, i)
    elif ctx.choose(2):
        cmd.merge_unclaimed = True
    pl.add_command(cmd)
    e, got = send(ctx, c, s, pid, pl)
    ctx.prove("one command", len(got.commands) == 1)
    same_command(ctx, got.commands[0], cmd, True)


@contract("C18")
def redirections(ctx):
    """stream redirections, to every stream, for every peer version: unchanged when supported, left out otherwise"""
    c, s, pid = session(ctx, None)
    known = ctx.choose(2)
    if known:
        v, c.their_capability = capability(ctx)
        M, m = as_int(v.major), as_int(v.minor)
        at = lambda k: z3.Or(M > 2, z3.And(M == 2, m >= k))
        v3, v5 = ctx.branch(at(2)), ctx.branch(at(3))
    else:
        v3 = v5 = False
    pl = call(ClientPowerShell, c, pipeline_id=pid)
    cmd = Command("x")
    names = ["error", "warning", "verbose", "debug", "information"]
    to = [PRT.none, PRT.Output, PRT.Null][ctx.choose(3)]
    i = ctx.choose(6)
    named(ctx, stream=to.name, which=(names + ["all"])[i])
    if i == 5:
        cmd.redirect_all(to)
    else:
        getattr(cmd, "redirect_" + names[i])(to)
    pl.add_command(cmd)
    e, got = send(ctx, c, s, pid, pl)
    got = got.commands[0]
    raw = peek(e, "_ps_object").PowerShell.Cmds[0]
    for n in names:
        sup = v5 if n == "information" else v3
        there = hasattr(raw, "Merge" + n.capitalize())
        ctx.prove("%s sent exactly when supported" % n, there == sup)
        ctx.prove("redirection of " + n, getattr(got, "merge_" + n) == (getattr(cmd, "merge_" + n) if sup else PRT.none))
    ctx.prove("merge my", got.merge_my == cmd.merge_my)
    ctx.prove("merge to", got.merge_to == cmd.merge_to)
    if i == 0 or i == 5:
        if to is PRT.Output:
            ctx.prove("error to output is known to every peer", got.merge_my == PRT.Error and got.merge_to == PRT.Output)
    else:
        ctx.prove("nothing else merged", got.merge_my == PRT.none and got.merge_to == PRT.none)


def options(name, values):
    def f(ctx):
        c, s, pid = session(ctx)
        v = values(ctx)
        if "apartment_state" in v:
            c.apartment_state = list(T.ApartmentState)[ctx.choose(len(T.ApartmentState))]
        pl = call(ClientPowerShell, c, pipeline_id=pid, **v)
        pl.add_command("x")
        e, got = send(ctx, c, s, pid, pl)
        for f in ("add_to_history", "is_nested", "no_input", "redirect_shell_error_to_out"):
            flag_same(ctx, f, getattr(got, f), v.get(f, f in ("no_input", "redirect_shell_error_to_out")))
        ctx.prove("apartment state", got.apartment_state is (c.apartment_state if v.get("apartment_state") is None else v["apartment_state"]))
        ctx.prove("stream options", got.remote_stream_options == v.get("remote_stream_options", T.RemoteStreamOptions.none))
        h = v.get("history")
        ctx.prove("history", got.history is None if h is None else same(got.history, h))
        same_host(ctx, got.host, v.get("host") or T.HostInfo())
    f.__doc__ = "pipeline options: " + name
    contract("C18", name="options_" + name, budget=120)(f)


options("flags", lambda ctx: {n: SBool(ctx.bool(n)) for n in ("add_to_history", "is_nested", "no_input", "redirect_shell_error_to_out")})
options("apartment_state", lambda ctx: {"apartment_state": (list(T.ApartmentState) + [None])[ctx.choose(len(T.ApartmentState) + 1)]})
options("history", lambda ctx: {"history": text("history") if ctx.choose(2) else None})
options("stream_options", lambda ctx: {"remote_stream_options": T.RemoteStreamOptions(ctx.choose(16))})
options("host", lambda ctx: {"host": host_info(ctx, bool(ctx.choose(2)))})


@contract("C18")
def empty_pipeline_refused(ctx):
    """a pipeline without commands is refused with a ValueError and sends nothing"""
    c, s, pid = session(ctx)
    pl = call(ClientPowerShell, c, pipeline_id=pid)
    ctx.prove("refused", raises(ValueError, call, pl.start) is not None)
    ctx.prove("nothing sent", call(c.data_to_send) is None)


@contract("C18", bounded="up to 2 names, namespaces and arguments")
def command_metadata(ctx):
    """metadata queries: any names, every command type and combination, namespaces and arguments, absent ones too"""
    c, s, pid = session(ctx)
    which = ctx.choose(2)
    names = [text("n%d" % i) for i in range(1 + (0 if which else ctx.choose(2)))]
    if ctx.choose(2) and len(names) == 1:
        given = names[0]
    else:
        given = names
    kw = {}
    if which:
        ct = list(T.CommandTypes) + [T.CommandTypes(3), T.CommandTypes(0x21)]
        kw["command_type"] = ct[ctx.choose(len(ct))]
    else:
        k = ctx.choose(3)
        kw["namespace"] = None if k == 0 else [text("ns%d" % i) for i in range(k)]
        k = ctx.choose(3)
        kw["arguments"] = None if k == 0 else [anyval("arg%d" % i) for i in range(k)]
    pl = call(ClientGetCommandMetadata, c, given, pipeline_id=pid, **kw)
    e, got = send(ctx, c, s, pid, pl)
    ctx.prove("names", len(got.name) == len(names) and all(ctx.valid(same(a, b)) for a, b in zip(got.name, names)))
    ctx.prove("command type", got.command_type == kw.get("command_type", T.CommandTypes.All))
    for f in ("namespace", "arguments"):
        a, b = getattr(got, f), kw.get(f)
        if b is None:
            ctx.prove("no " + f, a is None)
        else:
            ctx.prove(f, a is not None and len(a) == len(b) and all(x is y if type(y) is Opaque else ctx.valid(same(x, y)) for x, y in zip(a, b)))

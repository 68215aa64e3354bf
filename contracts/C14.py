from contracts.session import *  # noqa

RSN = {s.name: s for s in RS}
# operation -> (call, states in which it is accepted, states in which it does nothing)
CLIENT = {
    "open": (lambda p, a: p.open(), "BeforeOpen", "Opened"),
    "connect": (lambda p, a: p.connect(), "BeforeOpen Disconnected", "Opened"),
    "get_available_runspaces": (lambda p, a: p.get_available_runspaces(), "Opened", ""),
    "exchange_key": (lambda p, a: p.exchange_key(), "Opened", ""),
    "host_response": (lambda p, a: p.host_response(a.ci), "Opened", ""),
    "host_response_value": (lambda p, a: p.host_response(a.ci, return_value=a.value), "Opened", ""),
    "host_response_error": (lambda p, a: p.host_response(a.ci, error_record=a.err), "Opened", ""),
    "reset_runspace_state": (lambda p, a: p.reset_runspace_state(), "Opened", ""),
    "close": (lambda p, a: p.close(), "Opened Closing Closed", ""),
    "disconnect": (lambda p, a: p.disconnect(), "Opened Disconnecting Disconnected", ""),
    "reconnect": (lambda p, a: p.reconnect(), "Opened Disconnected", ""),
}
SERVER = {
    "connect": (lambda p, a: p.connect(), "Disconnected", "Opened"),
    "send_event": (lambda p, a: p.send_event(a.ci, a.text, time_generated=WHEN, computer=a.text), "Opened", ""),
    "set_broken": (lambda p, a: p.set_broken(a.err), "Opened Broken", ""),
    "host_call": (lambda p, a: p.host_call(a.method, a.args), "Opened", ""),
    "request_key": (lambda p, a: p.request_key(), "Opened", ""),
    "close": (lambda p, a: p.close(), "Opened Closing Closed", ""),
    "disconnect": (lambda p, a: p.disconnect(), "Opened Disconnecting Disconnected", ""),
    "reconnect": (lambda p, a: p.reconnect(), "Opened Disconnected", ""),
}
START, CLOSE = "NotStarted Stopped Completed", "NotStarted Stopped Stopping Completed Failed"
CLIENT_PIPE = {
    "start": (lambda p, a: p.start(), START, ""),
    "send": (lambda p, a: p.send(a.value), "Running", ""),
    "send_eof": (lambda p, a: p.send_eof(), "Running", ""),
    "host_response": (lambda p, a: p.host_response(a.ci, a.value), "Running", ""),
    "begin_stop": (lambda p, a: p.begin_stop(), "Running Stopping", ""),
    "close": (lambda p, a: p.close(), CLOSE, ""),
}
SERVER_PIPE = {
    "start": (lambda p, a: p.start(), START, ""),
    "stop": (lambda p, a: p.stop(), "Running Stopping", "Stopped"),
    "begin_stop": (lambda p, a: p.begin_stop(), "Running Stopping", ""),
    "close": (lambda p, a: p.close(), CLOSE, ""),
    "host_call": (lambda p, a: p.host_call(a.method, a.args), "Running", ""),
    "write_output": (lambda p, a: p.write_output(a.value), "Running", ""),
    "write_error": (lambda p, a: p.write_error(a.exc, category_info=T.ErrorCategoryInfo()), "Running", ""),
    "write_debug": (lambda p, a: p.write_debug(a.text), "Running", ""),
    "write_verbose": (lambda p, a: p.write_verbose(a.text), "Running", ""),
    "write_warning": (lambda p, a: p.write_warning(a.text), "Running", ""),
    "write_progress": (lambda p, a: p.write_progress(a.text, a.ci, a.text), "Running", ""),
    "write_information": (lambda p, a: p.write_information(a.value, a.text, time_generated=WHEN, user="u", computer="c", process_id=1, native_thread_id=2, managed_thread_id=3), "Running", ""),
}
WHEN = T.PSDateTime(2020, 1, 2, 3, 4, 5)


class Args:
    pass


def arguments(ctx, op):
    a = Args()
    a.ci = SInt(ctx.int("ci", -2 ** 31, 2 ** 31 - 1))
    a.value = Opaque("value", truth=True, cls=T.PSObject)
    a.text = text("text")
    a.args = []
    a.exc = T.NETException(Message=a.text)
    a.err = T.ErrorRecord(Exception=a.exc, CategoryInfo=T.ErrorCategoryInfo())
    if op == "host_call":
        ms = list(T.HostMethodIdentifier)
        a.method = ms[ctx.choose(len(ms))]
    return a


def guard(ctx, side, table, op, p, target, state, err, a):
    fn, allowed, noop = table[op]
    allowed, noop = allowed.split(), noop.split()
    named(ctx, op=op)
    p.their_capability = None
    low = None
    if op in ("reset_runspace_state", "write_information"):
        if ctx.choose(2):
            v, p.their_capability = capability(ctx)
            low = z3.Or(as_int(v.major) < 2, z3.And(as_int(v.major) == 2, as_int(v.minor) < 3))
        else:
            low = z3.BoolVal(True)
    key = peek(p, "_key_requested") if op in ("exchange_key", "request_key") else None
    before = frame((p, target))
    n = len(sent(p))
    e = None
    try:
        fn(target, a)
    except (InvalidRunspacePoolState, InvalidPipelineState, InvalidProtocolVersion) as x:
        e = x
    except KeyError as x:
        # no such call to answer
        if not op.startswith("host_response"):
            raise
        ctx.prove("unknown-call-changes-nothing", before == frame((p, target)))
        ctx.prove("unknown-call-only-in-allowed-state", state.name in allowed)
        return
    except PSRPCoreError as x:
        if op != "close" or state not in (RS.Opened, RS.Closing, RS.Closed) and isinstance(state, RS) and not isinstance(x, PSRPCoreError):
            raise
        ctx.prove("pending-pipelines-change-nothing", before == frame((p, target)))
        return
    accepted = state.name in allowed or state.name in noop
    if key is not None:
        key = to_bool(key)
    if isinstance(e, InvalidProtocolVersion):
        ctx.prove("version-error-only-when-older", low if low is not None else False)
        ctx.prove("rejected-changes-nothing", before == frame((p, target)))
        return
    if e is not None:
        ctx.prove("rejected-only-in-other-state", z3.BoolVal(not accepted) if low is None else z3.And(z3.Not(low), z3.BoolVal(not accepted)))
        ctx.prove("error-class", isinstance(e, err))
        ctx.prove("error-names-state", e.current_state is state and str(state) in str(e))
        ctx.prove("rejected-changes-nothing", before == frame((p, target)))
        return
    if key is not None:
        # a second request of the same kind does nothing in every state
        ctx.prove("accepted-only-in-allowed-state", z3.Or(z3.BoolVal(accepted), key))
        return
    ctx.prove("accepted-only-in-allowed-state", z3.BoolVal(accepted) if low is None else z3.And(z3.Not(low), z3.BoolVal(accepted)))
    if state.name in noop:
        ctx.prove("no-op-queues-nothing", len(sent(p)) == n and before == frame((p, target)))


def pool_guard(side, table, op):
    def f(ctx):
        opaque_serialization(ctx)
        RT.stub(sys.modules["psrpcore._crypto"].create_keypair, lambda fn, a, k: (Opaque("private"), blob("public", 1)))
        p = pool(ctx, side, key=bool(ctx.choose(2)) if op in ("exchange_key", "request_key") else None)
        guard(ctx, side, table, op, p, p, p.state, InvalidRunspacePoolState, arguments(ctx, op))
    f.__doc__ = "%s pool: %s is accepted in its documented states only, raises the state error naming the state otherwise, and then changes nothing" % (
        {"c": "client", "s": "server"}[side], op)
    contract("C14", name="%s_%s" % ({"c": "client", "s": "server"}[side], op), budget=60)(f)


def pipe_guard(side, table, op):
    def f(ctx):
        opaque_serialization(ctx)
        p = pool(ctx, side, RS.Opened)
        pid, pl = pipeline(ctx, p, side)
        guard(ctx, side, table, op, p, pl, pl.state, InvalidPipelineState, arguments(ctx, op))
    f.__doc__ = "%s pipeline: %s is accepted in its documented states only, raises the state error naming the state otherwise, and then changes nothing" % (
        {"c": "client", "s": "server"}[side], op)
    contract("C14", name="%s_pipeline_%s" % ({"c": "client", "s": "server"}[side], op), budget=60)(f)


for _op in CLIENT:
    pool_guard("c", CLIENT, _op)
for _op in SERVER:
    pool_guard("s", SERVER, _op)
for _op in CLIENT_PIPE:
    pipe_guard("c", CLIENT_PIPE, _op)
for _op in SERVER_PIPE:
    pipe_guard("s", SERVER_PIPE, _op)

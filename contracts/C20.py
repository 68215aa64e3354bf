from contracts.session import *  # noqa
from contracts.C16 import same
from contracts.C18 import flag_same, nonempty
from contracts.C19 import match, G
import collections
CommandInfo = collections.namedtuple("CommandInfo", ["CommandType", "Name", "Definition", "Visibility"])
WHEN = T.PSDateTime(2020, 1, 2, 3, 4, 5, 678901, nanosecond=200)
EVENT = {"output": "PipelineOutputEvent", "error": "ErrorRecordEvent", "debug": "DebugRecordEvent", "verbose": "VerboseRecordEvent", "warning": "WarningRecordEvent",
         "progress": "ProgressRecordEvent", "information": "InformationRecordEvent"}


def running(ctx):
    wire(ctx)
    c, s = linked(ctx)
    for p in (c, s):
        p.their_capability = T.SessionCapability(PSVersion=T.PSVersion("2.0"), protocolversion=T.PSVersion("2.3"), SerializationVersion=T.PSVersion("1.1.0.1"))
    pid = suuid("pid", nonzero=True)
    cp, sp = call(ClientPowerShell, c, pipeline_id=pid), call(ServerPipeline, s, pid)
    cp.state = sp.state = IS.Running
    return c, s, pid, cp, sp


def one(ctx, s, c, pid, kind):
    ev = xfer(s, c)
    ctx.prove("one event", len(ev) == 1)
    ctx.prove("kind of event", type(ev[0]).__name__ == EVENT[kind])
    ctx.prove("pipeline", same(ev[0].pipeline_id, pid))
    ctx.prove("pool", same(ev[0].runspace_pool_id, c.runspace_pool_id))
    return ev[0]


def opt(g, name):
    """absent, empty or any other text, decided later"""
    return g.pick([None, g.t0(name)])


def textm(ctx, name, got, want):
    """optional text: an absent one stays absent, an empty one arrives"""
    match(ctx, name, got, want)


@contract("C20")
def output(ctx):
    """any output object, null included, arrives as that object"""
    c, s, pid, cp, sp = running(ctx)
    v = [None, Opaque("value", truth=True, cls=T.PSObject), text("text"), SInt(ctx.int("n", -2 ** 31, 2 ** 31 - 1)), SBool(ctx.bool("b"))][ctx.choose(5)]
    call(sp.write_output, v)
    e = one(ctx, s, c, pid, "output")
    match(ctx, "value", e.data, v)


def line(g):
    """a text no longer than an Int32 can count"""
    t = g.t0("line")
    g.ctx.assume(t.zlen() < 2 ** 31 - 1)
    return t


def pos(g, name):
    """a line or column number"""
    return SInt(g.ctx.int(name, -2 ** 31, 2 ** 31 - 1))


def invocation(g, part):
    """invocation information, one group of fields varied (symbolic) at a time, the others distinct"""
    kw = dict(BoundParameters=T.PSDict({"a": 1}), CommandOrigin=T.CommandOrigin.Internal, ExpectingInput=True, HistoryId=77, InvocationName="name", Line="line", OffsetInLine=11,
              PipelineLength=12, PipelinePosition=13, ScriptLineNumber=14, ScriptName="script", UnboundArguments=T.PSList([1, "a"]))
    if part == 0:
        kw.update(HistoryId=SInt(g.ctx.int("history", -2 ** 63, 2 ** 63 - 1)), OffsetInLine=g.i("offset"), PipelineLength=g.i("length"), PipelinePosition=g.i("position"), ScriptLineNumber=g.i("line"))
    elif part == 1:
        kw.update(InvocationName=g.t0("name"), Line=line(g), ScriptName=g.t0("script"))
    elif part == 2:
        kw.update(CommandOrigin=g.pick(T.CommandOrigin), ExpectingInput=g.flag("expecting"))
    elif part == 3:
        kw.update(BoundParameters=T.PSDict({"a": anyval("pa"), "b": anyval("pb")}), UnboundArguments=T.PSList([anyval("ua"), Opaque("ub", truth=True)]))
    elif part == 4:
        fn = nonempty(g.ctx, "file")
        kw["DisplayScriptPosition"] = T.ScriptExtent(T.ScriptPosition(fn, pos(g, "sl"), pos(g, "sc"), ""), T.ScriptPosition(fn, pos(g, "el"), pos(g, "ec"), ""))
    elif part == 5:
        kw["MyCommand"] = CommandInfo(g.pick(T.CommandTypes), nonempty(g.ctx, "cmdname"), nonempty(g.ctx, "definition"), T.SessionStateEntryVisibility.Private)
    return T.InvocationInfo(**kw), kw


def same_invocation(ctx, got, kw):
    ctx.prove("invocation information present", got is not None)
    for k in ("CommandOrigin", "ExpectingInput", "HistoryId", "OffsetInLine", "PipelineLength", "PipelinePosition", "ScriptLineNumber"):
        match(ctx, "invocation " + k, getattr(got, k), kw[k])
    for k in ("InvocationName", "Line", "ScriptName"):
        match(ctx, "invocation " + k, getattr(got, k), kw[k])
    ctx.prove("bound parameter names", list(got.BoundParameters) == list(kw["BoundParameters"]))
    for k, v in kw["BoundParameters"].items():
        match(ctx, "bound parameter", got.BoundParameters[k], v)
    ctx.prove("number of unbound arguments", len(got.UnboundArguments) == len(kw["UnboundArguments"]))
    for a, b in zip(got.UnboundArguments, kw["UnboundArguments"]):
        match(ctx, "unbound argument", a, b)
    if "DisplayScriptPosition" in kw:
        a, b = got.DisplayScriptPosition, kw["DisplayScriptPosition"]
        ctx.prove("script position present", a is not None)
        for k in ("StartLineNumber", "StartColumnNumber", "EndLineNumber", "EndColumnNumber", "File"):
            match(ctx, "position " + k, getattr(a, k), getattr(b, k))
    if "MyCommand" in kw:
        for k in ("CommandType", "Name", "Definition", "Visibility"):
            match(ctx, "command " + k, getattr(got.MyCommand, k), getattr(kw["MyCommand"], k))


def simple(kind):
    def f(ctx):
        c, s, pid, cp, sp = running(ctx)
        g = G(ctx)
        m = g.t0("message")
        part = ctx.choose(7)
        if part == 6:
            call(getattr(sp, "write_" + kind), m)
        else:
            ii, kw = invocation(g, part)
            pii = T.PSList([1, 2])
            call(getattr(sp, "write_" + kind), m, invocation_info=ii, pipeline_iteration_info=pii)
        e = one(ctx, s, c, pid, kind)
        match(ctx, "message", e.record.Message, m)
        if part == 6:
            ctx.prove("no invocation information", e.record.InvocationInfo is None)
        else:
            same_invocation(ctx, e.record.InvocationInfo, kw)
            ctx.prove("pipeline iteration", list(e.record.PipelineIterationInfo) == [1, 2])
    f.__doc__ = "%s record: any message, with and without invocation information" % kind
    contract("C20", name=kind, budget=120)(f)


for _k in ("debug", "verbose", "warning"):
    simple(_k)


@contract("C20", budget=120)
def error(ctx):
    """error record: exception, category, target, id, stack trace and details, absent and empty ones too"""
    c, s, pid, cp, sp = running(ctx)
    g = G(ctx)
    part = ctx.choose(6)
    ekw = dict(Message="m", HResult=5)
    ckw = dict(Category=T.ErrorCategory.ReadError, Activity="act", Reason="reason", TargetName="tn", TargetType="tt")
    kw = dict(target_object=None, fully_qualified_error_id="fqid", script_stack_trace="stack")
    dkw = None
    if part == 0:
        ekw = dict(Message=g.t0("message"), HResult=g.i("hresult"), StackTrace=g.t0("trace"))
    elif part == 1:
        ckw["Category"] = g.pick(T.ErrorCategory)
    elif part == 2:
        f = g.pick(["Activity", "Reason", "TargetName", "TargetType"])
        ckw[f] = opt(g, f)
    elif part == 3:
        kw["target_object"] = Opaque("target", truth=True, cls=T.PSObject)
        kw["fully_qualified_error_id"] = opt(g, "fqid")
        kw["script_stack_trace"] = opt(g, "stack")
    elif part == 4:
        dkw = dict(Message=g.t0("dm"), RecommendedAction=opt(g, "ra"))
    ii = None
    if part == 5:
        ii, ikw = invocation(g, ctx.choose(6))
    exc = T.NETException(**ekw)
    ci = T.ErrorCategoryInfo(**ckw) if part else None
    if ci is None:
        ckw = dict(Category=T.ErrorCategory.NotSpecified, Activity=None, Reason=None, TargetName=None, TargetType=None)
    call(sp.write_error, exc, category_info=ci, error_details=T.ErrorDetails(**dkw) if dkw else None, invocation_info=ii, **kw)
    e = one(ctx, s, c, pid, "error")
    r = e.record
    match(ctx, "exception message", r.Exception.Message, ekw["Message"])
    match(ctx, "HResult", r.Exception.HResult, ekw["HResult"])
    if "StackTrace" in ekw:
        match(ctx, "StackTrace", r.Exception.StackTrace, ekw["StackTrace"])
    for k, v in ckw.items():
        match(ctx, "category " + k, getattr(r.CategoryInfo, k), v)
    match(ctx, "target", r.TargetObject, kw["target_object"])
    match(ctx, "error id", r.FullyQualifiedErrorId, kw["fully_qualified_error_id"])
    match(ctx, "stack trace", r.ScriptStackTrace, kw["script_stack_trace"])
    if dkw is None:
        ctx.prove("no details", r.ErrorDetails is None)
    else:
        ctx.prove("details", r.ErrorDetails is not None)
        for k, v in dkw.items():
            match(ctx, "details " + k, getattr(r.ErrorDetails, k), v)
    if ii is None:
        ctx.prove("no invocation information", r.InvocationInfo is None)
    else:
        same_invocation(ctx, r.InvocationInfo, ikw)


@contract("C20", budget=120)
def progress(ctx):
    """progress record: all fields, defaults included"""
    c, s, pid, cp, sp = running(ctx)
    g = G(ctx)
    kw = dict(activity=g.t0("activity"), activity_id=g.i(), status_description=g.t0("status"))
    full = ctx.choose(2)
    if full:
        kw.update(current_operation=opt(g, "operation"), parent_activity_id=g.i("parent"), percent_complete=g.i("percent"), record_type=g.pick(T.ProgressRecordType), seconds_remaining=g.i("seconds"))
    call(sp.write_progress, **kw)
    r = one(ctx, s, c, pid, "progress").record
    for a, b, d in (("activity", "Activity", 0), ("activity_id", "ActivityId", 0), ("status_description", "StatusDescription", 0), ("current_operation", "CurrentOperation", None),
                    ("parent_activity_id", "ParentActivityId", -1), ("percent_complete", "PercentComplete", -1), ("seconds_remaining", "SecondsRemaining", -1),
                    ("record_type", "RecordType", T.ProgressRecordType.Processing)):
        match(ctx, a, getattr(r, b), kw.get(a, d))


@contract("C20", budget=120)
def progress_object(ctx):
    """a progress record written as an output object arrives with all its fields, empty and absent texts too"""
    c, s, pid, cp, sp = running(ctx)
    g = G(ctx)
    v = T.ProgressRecord(Activity=g.t0("activity"), ActivityId=g.i(), StatusDescription=g.t0("status"), CurrentOperation=opt(g, "operation"), ParentActivityId=g.i("parent"), PercentComplete=g.i("percent"),
                         RecordType=g.pick(T.ProgressRecordType), SecondsRemaining=g.i("seconds"))
    want = {k: getattr(v, k) for k in ("Activity", "ActivityId", "StatusDescription", "CurrentOperation", "ParentActivityId", "PercentComplete", "RecordType", "SecondsRemaining")}
    call(sp.write_output, v)
    r = one(ctx, s, c, pid, "output").data
    ctx.prove("is a progress record", type(r) is T.ProgressRecord)
    for k, x in want.items():
        match(ctx, k, getattr(r, k), x)


@contract("C20", budget=120)
def information(ctx):
    """information record: all fields, absent and empty ones too"""
    c, s, pid, cp, sp = running(ctx)
    g = G(ctx)
    part = ctx.choose(3)
    kw = dict(message_data=anyval("data"), source="src", time_generated=WHEN, tags=["t"], user="user", computer="comp", process_id=4, native_thread_id=5, managed_thread_id=6)
    if part == 0:
        kw.update(source=g.t0("source"), user=g.t0("user"), computer=g.t0("computer"))
    elif part == 1:
        u = lambda n: SInt(ctx.int(n, 0, 2 ** 32 - 1))
        kw.update(process_id=u("pid_"), native_thread_id=u("ntid"), managed_thread_id=u("mtid"))
    else:
        kw.update(message_data=g.pick([None, g.t0("data")]), tags=[None, [], [g.t0("tag")], [g.t0("tag1"), g.t0("tag2")]][ctx.choose(4)])
    call(sp.write_information, **kw)
    r = one(ctx, s, c, pid, "information").record
    match(ctx, "message data", r.MessageData, kw["message_data"])
    for a, b in (("source", "Source"), ("user", "User"), ("computer", "Computer"), ("process_id", "ProcessId"), ("native_thread_id", "NativeThreadId"), ("managed_thread_id", "ManagedThreadId")):
        match(ctx, a, getattr(r, b), kw[a])
    tags = kw["tags"] or []
    ctx.prove("number of tags", len(r.Tags) == len(tags))
    for a, b in zip(r.Tags, tags):
        match(ctx, "tag", a, b)
    ctx.prove("time", r.TimeGenerated == WHEN and r.TimeGenerated.nanosecond == 200)


@contract("C20", bounded="up to 3 records of two pipelines")
def order(ctx):
    """records of any kinds, written to two pipelines in any interleaving, arrive in the order written, each for its own pipeline"""
    c, s, pid, cp, sp = running(ctx)
    pid2 = suuid("pid2", nonzero=True)
    ctx.assume(z3.Not(same(pid, pid2)))
    sp2 = call(ServerPipeline, s, pid2)
    call(ClientPowerShell, c, pipeline_id=pid2)
    sp2.state = IS.Running
    kinds = ["output", "debug", "verbose", "warning", "progress", "information", "error"]
    want = []
    for i in range(3):
        k = kinds[ctx.choose(len(kinds))] if i == 0 else kinds[ctx.choose(2)] if i == 1 else "warning"
        q = ctx.choose(2)
        t = nonempty(ctx, "t%d" % i)
        x = sp2 if q else sp
        if k == "progress":
            call(x.write_progress, t, 1, "s")
        elif k == "information":
            call(x.write_information, t, "s", time_generated=WHEN, user="u", computer="c", process_id=1, native_thread_id=1)
        elif k == "error":
            call(x.write_error, T.NETException(Message=t))
        else:
            call(getattr(x, "write_" + k), t)
        want.append((k, pid2 if q else pid, t))
    ev = xfer(s, c)
    ctx.prove("one event each", len(ev) == 3)
    for e, (k, p, t) in zip(ev, want):
        ctx.prove("kind", type(e).__name__ == EVENT[k])
        ctx.prove("pipeline", same(e.pipeline_id, p))
        got = e.data if k == "output" else e.record.Activity if k == "progress" else e.record.MessageData if k == "information" else e.record.Exception.Message if k == "error" else e.record.Message
        ctx.prove("content", same(got, t))


@contract("C20")
def user_event(ctx):
    """an event a server pool sends arrives with its fields"""
    wire(ctx)
    c, s = linked(ctx)
    g = G(ctx)
    kw = dict(event_identifier=g.i("id"), source_identifier=g.t0("source"), sender=[None, anyval("sender")][ctx.choose(2)], source_args=[[], [Opaque("a1", truth=True), Opaque("a2", truth=True)]][ctx.choose(2)],
              message_data=[None, anyval("data")][ctx.choose(2)], time_generated=WHEN, computer=g.t0("computer"))
    call(s.send_event, **kw)
    ev = xfer(s, c)
    ctx.prove("one event", len(ev) == 1 and type(ev[0]).__name__ == "UserEventEvent")
    e = ev[0].event
    match(ctx, "id", e.EventIdentifier, kw["event_identifier"])
    match(ctx, "source", e.SourceIdentifier, kw["source_identifier"])
    match(ctx, "sender", e.Sender, kw["sender"])
    match(ctx, "data", e.MessageData, kw["message_data"])
    match(ctx, "computer", e.ComputerName, kw["computer"])
    match(ctx, "arguments", list(e.SourceArgs), kw["source_args"])
    ctx.prove("runspace", same(e.RunspaceId, c.runspace_pool_id))
    ctx.prove("time", e.TimeGenerated == WHEN and e.TimeGenerated.nanosecond == 200)

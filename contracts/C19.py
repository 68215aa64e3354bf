from contracts.session import *  # noqa
from contracts.C16 import same
from contracts.C18 import flag_same, nonempty
from psrpcore import ServerHostRequestor, ClientHostResponder
HM = T.HostMethodIdentifier

PARTS = {
    T.Coordinates: ("X", "Y"), T.Size: ("Width", "Height"), T.Rectangle: ("Left", "Top", "Right", "Bottom"),
    T.BufferCell: ("Character", "ForegroundColor", "BackgroundColor", "BufferCellType"), T.KeyInfo: ("VirtualKeyCode", "Character", "ControlKeyState", "KeyDown"),
    T.ChoiceDescription: ("Label", "HelpMessage"),
    T.FieldDescription: ("Name", "ParameterTypeName", "ParameterTypeFullName", "ParameterAssemblyFullName", "Label", "HelpMessage", "IsMandatory"),
    T.ProgressRecord: ("Activity", "ActivityId", "StatusDescription", "CurrentOperation", "ParentActivityId", "PercentComplete", "RecordType", "SecondsRemaining"),
}


def kind(v):
    p = payload(v)
    return type(p) if isinstance_proxy(p) else None


def match(ctx, name, got, want):
    """got is equal to want, part by part"""
    if want is None:
        ctx.prove(name + " is absent", got is None)
        return
    if type(want) is Opaque:
        ctx.prove(name, got is want)
        return
    if kind(want) in (SBool,) or isinstance(want, bool) and not isinstance_proxy(want):
        ctx.prove(name + " present", got is not None)
        flag_same(ctx, name, got, want)
        return
    if not isinstance_proxy(want):
        for c, fs in PARTS.items():
            if isinstance(want, c):
                ctx.prove("%s is a %s" % (name, c.__name__), type(got) is c)
                for f in fs:
                    match(ctx, "%s.%s" % (name, f), getattr(got, f), getattr(want, f))
                return
        if isinstance(want, (list, tuple)):
            ctx.prove(name + " is a list", isinstance(got, list) and not isinstance_proxy(got))
            ctx.prove(name + " length", len(got) == len(want))
            for i, (a, b) in enumerate(zip(got, want)):
                match(ctx, "%s[]" % name, a, b)
            return
        if isinstance(want, (T.PSEnumBase, T.PSFlagBase)):
            ctx.prove(name + " type", type(got) is type(want))
            ctx.prove(name, got == want)
            return
    ctx.prove(name + " present", got is not None)
    ctx.prove(name, same(got, want))


class G:
    """symbolic arguments"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0

    def i(self, name="i"):
        self.n += 1
        return SInt(self.ctx.int("%s%d" % (name, self.n), -2 ** 31, 2 ** 31 - 1))

    def t(self, name="t"):
        self.n += 1
        return nonempty(self.ctx, "%s%d" % (name, self.n))

    def t0(self, name="t"):
        """text that can be empty"""
        self.n += 1
        return text("%s%d" % (name, self.n))

    def ch(self):
        self.n += 1
        return call(T.PSChar, SInt(self.ctx.int("char%d" % self.n, 0, 65535)))

    def pick(self, xs):
        xs = list(xs)
        return xs[self.ctx.choose(len(xs))]

    def color(self):
        return self.pick(T.ConsoleColor)

    def colors(self, k):
        """any colour of each, one of the two varied when both are given"""
        if k == 3:
            return (self.color(), T.ConsoleColor.Red) if self.ctx.choose(2) else (T.ConsoleColor.Red, self.color())
        return (self.color() if k & 1 else None), (self.color() if k & 2 else None)

    def flag(self, name="flag"):
        self.n += 1
        return SBool(self.ctx.bool("%s%d" % (name, self.n)))

    def rect(self):
        r = [self.i("r") for _ in range(4)]
        return r, T.Rectangle(Left=r[0], Top=r[1], Right=r[2], Bottom=r[3])

    def cell(self, fg=None, bg=None):
        return T.BufferCell(Character=self.ch(), ForegroundColor=fg if fg is not None else T.ConsoleColor.DarkCyan, BackgroundColor=bg if bg is not None else T.ConsoleColor.Gray,
                            BufferCellType=T.BufferCellType.Trailing)


def session19(ctx):
    """an opened session, the call made on the pool or on a running pipeline"""
    wire(ctx)
    c, s = linked(ctx)
    if ctx.choose(2):
        pid = suuid("pid", nonzero=True)
        cp, sp = call(ClientPowerShell, c, pipeline_id=pid), call(ServerPipeline, s, pid)
        cp.state = sp.state = IS.Running
    else:
        pid, cp, sp = None, c, s
    return c, s, pid, cp, sp


def one(ctx, a, b, pid, which):
    ev = xfer(a, b)
    ctx.prove("one event", len(ev) == 1)
    e = ev[0]
    ctx.prove("kind of event", type(e).__name__ == ("Pipeline" if pid is not None else "RunspacePool") + which)
    ctx.prove("target", e.pipeline_id is None if pid is None else same(e.pipeline_id, pid))
    return e


def asks(name, build, bounded=None):
    """build(g) -> args, kwargs, method, decoded parameters"""
    def f(ctx):
        c, s, pid, cp, sp = session19(ctx)
        args, kw, method, want = build(G(ctx))
        call(getattr(ServerHostRequestor(sp), name), *args, **kw)
        e = one(ctx, s, c, pid, "HostCallEvent")
        ctx.prove("method", e.method_identifier is getattr(HM, method))
        got = e.method_parameters
        ctx.prove("number of parameters", len(got) == len(want))
        raw = getattr(getattr(e, "_ps_object", None), "mp", None)
        if isinstance(raw, list):
            ctx.prove("number of parameters on the wire", len(raw) == len(want))
        for i, (a, b) in enumerate(zip(got, want)):
            match(ctx, "parameter %d" % i, a, b)
    f.__doc__ = "host call %s: arrives as its method with equal parameters in order" % name
    n = "call_" + name
    from vc.api import REGISTRY
    k = 1
    while n in REGISTRY.get("C19", {}):
        k += 1
        n = "call_%s_%d" % (name, k)
    contract("C19", name=n, bounded=bounded, budget=120)(f)


for _n, _m in (("get_name", "GetName"), ("get_version", "GetVersion"), ("get_instance_id", "GetInstanceId"), ("get_current_culture", "GetCurrentCulture"), ("get_current_ui_culture", "GetCurrentUICulture"),
               ("enter_nested_prompt", "EnterNestedPrompt"), ("exit_nested_prompt", "ExitNestedPrompt"), ("notify_begin_application", "NotifyBeginApplication"), ("notify_end_application", "NotifyEndApplication"),
               ("pop_runspace", "PopRunspace"), ("get_is_runspace_pushed", "GetIsRunspacePushed"), ("read_line", "ReadLine"), ("read_line_as_secure_string", "ReadLineAsSecureString"),
               ("get_foreground_color", "GetForegroundColor"), ("get_background_color", "GetBackgroundColor"), ("get_cursor_position", "GetCursorPosition"), ("get_window_position", "GetWindowPosition"),
               ("get_cursor_size", "GetCursorSize"), ("get_buffer_size", "GetBufferSize"), ("get_window_size", "GetWindowSize"), ("get_window_title", "GetWindowTitle"), ("get_max_window_size", "GetMaxWindowSize"),
               ("get_max_physical_window_size", "GetMaxPhysicalWindowSize"), ("get_key_available", "GetKeyAvailable"), ("flush_input_buffer", "FlushInputBuffer")):
    SIMPLE = globals().setdefault("SIMPLE", [])
    SIMPLE.append((_n, _m))


@contract("C19")
def calls_without_parameters(ctx):
    """every host call without parameters arrives as its method, without parameters"""
    c, s, pid, cp, sp = session19(ctx)
    n, m = SIMPLE[ctx.choose(len(SIMPLE))]
    named(ctx, call=n)
    call(getattr(ServerHostRequestor(sp), n))
    e = one(ctx, s, c, pid, "HostCallEvent")
    ctx.prove("method", e.method_identifier is getattr(HM, m))
    ctx.prove("no parameters", len(e.method_parameters) == 0)


def b_write(g):
    t = g.t0()
    k = g.ctx.choose(4)
    f, b = g.colors(k)
    kw = {}
    if f is not None:
        kw["foreground_color"] = f
    if b is not None:
        kw["background_color"] = b
    z = lambda x: x if x is not None else T.ConsoleColor.Black
    return [t], kw, ("Write2", [z(f), z(b), t]) if k else ("Write1", [t])


asks("write", lambda g: (lambda r: (r[0], r[1], r[2][0], r[2][1]))(b_write(g)))


def b_write_line(g):
    k = g.ctx.choose(4)
    line = [None, g.t0()][g.ctx.choose(2)]
    f, b = g.colors(k)
    kw = {"foreground_color": f, "background_color": b}
    z = lambda x: x if x is not None else T.ConsoleColor.Black
    if k:
        return [line], kw, "WriteLine3", [z(f), z(b), "" if line is None else line]
    return [line], kw, "WriteLine1" if line is None else "WriteLine2", [] if line is None else [line]


asks("write_line", b_write_line)
for _n, _m in (("write_error_line", "WriteErrorLine"), ("write_debug_line", "WriteDebugLine"), ("write_verbose_line", "WriteVerboseLine"), ("write_warning_line", "WriteWarningLine"),
               ("set_window_title", "SetWindowTitle")):
    asks(_n, lambda g, m=_m: (lambda t: ([t], {}, m, [t]))(g.t0()))
for _n, _m in (("set_should_exit", "SetShouldExit"), ("set_cursor_size", "SetCursorSize")):
    asks(_n, lambda g, m=_m: (lambda t: ([t], {}, m, [t]))(g.i()))
for _n, _m in (("set_foreground_color", "SetForegroundColor"), ("set_background_color", "SetBackgroundColor")):
    asks(_n, lambda g, m=_m: (lambda t: ([t], {}, m, [t]))(g.color()))
for _n, _m in (("set_cursor_position", "SetCursorPosition"), ("set_window_position", "SetWindowPosition")):
    asks(_n, lambda g, m=_m: (lambda x, y: ([x, y], {}, m, [T.Coordinates(X=x, Y=y)]))(g.i("x"), g.i("y")))
for _n, _m in (("set_buffer_size", "SetBufferSize"), ("set_window_size", "SetWindowSize")):
    asks(_n, lambda g, m=_m: (lambda x, y: ([x, y], {}, m, [T.Size(Width=x, Height=y)]))(g.i("w"), g.i("h")))


def b_progress(g):
    t, d = g.t("activity"), g.t0("status")
    op = g.pick([None, g.t0("operation")])
    kw = dict(source_id=SInt(g.ctx.int("source", -2 ** 63, 2 ** 63 - 1)), activity_id=g.i(), activity=t, status_description=d, current_operation=op, parent_activity_id=g.i(),
              percent_complete=g.i(), record_type=g.pick(T.ProgressRecordType), seconds_remaining=g.i())
    r = T.ProgressRecord(Activity=t, ActivityId=kw["activity_id"], StatusDescription=d, CurrentOperation=op, ParentActivityId=kw["parent_activity_id"], PercentComplete=kw["percent_complete"],
                         RecordType=kw["record_type"], SecondsRemaining=kw["seconds_remaining"])
    return [], kw, "WriteProgress", [kw["source_id"], r]


asks("write_progress", b_progress)


def b_field(g):
    kw = {}
    for k in ("ParameterTypeName", "ParameterTypeFullName", "ParameterAssemblyFullName", "Label", "HelpMessage"):
        kw[k] = g.t(k)
    k = g.ctx.choose(6)
    if k:
        del kw[list(kw)[k - 1]]
    return T.FieldDescription(Name=g.t0("name"), IsMandatory=g.flag("mandatory"), **kw)


asks("prompt", lambda g: (lambda a, b, f: ([a, b, f], {}, "Prompt", [a, b, f]))(g.t0("caption"), g.t0("message"), [b_field(g)]))
asks("prompt", lambda g: (lambda a, b, f: ([a, b, f], {}, "Prompt", [a, b, f]))(g.t("caption"), g.t("message"),
     [T.FieldDescription(Name=g.t("n%d" % i), Label=g.t("l%d" % i), IsMandatory=bool(i % 2)) for i in range(g.ctx.choose(4))]), bounded="0 to 3 fields")


def b_choices(g, n):
    out = []
    for i in range(n):
        out.append(T.ChoiceDescription(Label=g.t("l%d" % i), HelpMessage=g.t("h%d" % i)) if g.ctx.choose(2) else T.ChoiceDescription(Label=g.t("l%d" % i)))
    return out


def b_choice(g):
    a, b, ch = g.t("caption"), g.t("message"), b_choices(g, g.ctx.choose(4))
    if g.ctx.choose(2):
        return [a, b, ch], {}, "PromptForChoice", [a, b, ch, -1]
    d = g.i("default")
    return [a, b, ch, d], {}, "PromptForChoice", [a, b, ch, d]


def b_mchoice(g):
    a, b, ch = g.t("caption"), g.t("message"), b_choices(g, g.ctx.choose(3))
    k = g.ctx.choose(4)
    d = None if k == 0 else [g.i("d") for _ in range(k - 1)]
    return [a, b, ch, d], {}, "PromptForChoiceMultipleSelection", [a, b, ch, d or []]


asks("prompt_for_choice", b_choice, bounded="0 to 3 choices")
asks("prompt_for_multiple_choice", b_mchoice, bounded="0 to 2 choices and defaults")


def b_cred(g):
    a, b = g.t0("caption"), g.t0("message")
    u = g.pick([None, g.t("user"), ""])
    t = g.pick([None, g.t("target"), ""])
    base = [a, b, u, t if t is not None else ""]
    k = g.ctx.choose(4)
    ct = g.pick(T.PSCredentialTypes) if k & 1 else None
    co = g.pick(T.PSCredentialUIOptions) if k & 2 else None
    if not k:
        return [a, b, u, t], {}, "PromptForCredential1", base
    return [a, b, u, t, ct, co], {}, "PromptForCredential2", base + [ct if ct is not None else T.PSCredentialTypes.Default, co if co is not None else T.PSCredentialUIOptions.Default]


asks("prompt_for_credential", b_cred)


def b_readkey(g):
    k = g.ctx.choose(16)
    if k == 0:
        return [], {}, "ReadKey", [T.ReadKeyOptions.IncludeKeyDown]
    o = T.ReadKeyOptions(k)
    return [o], {}, "ReadKey", [o]


asks("read_key", b_readkey)


def b_cells(g):
    r, R = g.rect()
    ch = g.ch()
    f, b = (g.color(), T.ConsoleColor.Red) if g.ctx.choose(2) else (T.ConsoleColor.Red, g.color())
    return r + [ch, f, b], {}, "SetBufferContents1", [R, T.BufferCell(Character=ch, ForegroundColor=f, BackgroundColor=b, BufferCellType=T.BufferCellType.Complete)]


def b_scroll(g):
    r, R = g.rect()
    r2, R2 = g.rect()
    x, y = g.i("x"), g.i("y")
    ch = g.ch()
    return (r + [x, y] + r2 + [ch, T.ConsoleColor.Red, T.ConsoleColor.Blue], {}, "ScrollBufferContents",
            [R, T.Coordinates(X=x, Y=y), R2, T.BufferCell(Character=ch, ForegroundColor=T.ConsoleColor.Red, BackgroundColor=T.ConsoleColor.Blue, BufferCellType=T.BufferCellType.Complete)])


def b_array(g):
    r, c = 1 + g.ctx.choose(3), 1 + g.ctx.choose(3)
    return [[g.cell() for _ in range(c)] for _ in range(r)]


asks("set_buffer_cells", b_cells)
asks("scroll_buffer_contents", b_scroll)
asks("get_buffer_contents", lambda g: (lambda r: (r[0], {}, "GetBufferContents", [r[1]]))(g.rect()))
asks("set_buffer_contents", lambda g: (lambda x, y, a: ([x, y, a], {}, "SetBufferContents2", [T.Coordinates(X=x, Y=y), a]))(g.i("x"), g.i("y"), b_array(g)), bounded="1 to 3 rows and columns")


def b_onecell(g):
    c = T.BufferCell(Character=g.ch(), ForegroundColor=T.ConsoleColor.Red, BackgroundColor=T.ConsoleColor.Green, BufferCellType=g.pick(T.BufferCellType))
    return [0, 0, [[c]]], {}, "SetBufferContents2", [T.Coordinates(X=0, Y=0), [[c]]]


asks("set_buffer_contents", b_onecell)

# ------------------------------------------------------------------ answers
ASK = {"prompt": ["c", "m", []], "prompt_for_choice": ["c", "m", []], "prompt_for_multiple_choice": ["c", "m", []], "get_buffer_contents": [0, 0, 1, 1]}


def answers(name, build, bounded=None):
    """build(g) -> args, decoded result"""
    def f(ctx):
        c, s, pid, cp, sp = session19(ctx)
        ci = call(getattr(ServerHostRequestor(sp), name), *ASK.get(name, []))
        xfer(s, c)
        args, want = build(G(ctx))
        call(getattr(ClientHostResponder(cp), name), ci, *args)
        e = one(ctx, c, s, pid, "HostResponseEvent")
        ctx.prove("id", same(e.ci, ci))
        ctx.prove("no error", e.error is None)
        match(ctx, "result", e.result, want)
    f.__doc__ = "answer of %s: arrives as an equal result" % name
    contract("C19", name="answer_" + name, bounded=bounded, budget=120)(f)


same1 = lambda v: ([v], v)
for _n in ("get_name", "get_current_culture", "get_current_ui_culture", "read_line", "get_window_title"):
    answers(_n, lambda g: same1(g.t0()))
for _n in ("get_is_runspace_pushed", "get_key_available"):
    answers(_n, lambda g: same1(g.flag()))
for _n in ("get_cursor_size", "prompt_for_choice"):
    answers(_n, lambda g: same1(g.i()))
for _n in ("get_foreground_color", "get_background_color"):
    answers(_n, lambda g: same1(g.color()))
for _n in ("get_cursor_position", "get_window_position"):
    answers(_n, lambda g: (lambda x, y: ([x, y], T.Coordinates(X=x, Y=y)))(g.i("x"), g.i("y")))
for _n in ("get_buffer_size", "get_window_size", "get_max_window_size", "get_max_physical_window_size"):
    answers(_n, lambda g: (lambda x, y: ([x, y], T.Size(Width=x, Height=y)))(g.i("w"), g.i("h")))
answers("get_instance_id", lambda g: same1(suuid("id")))
answers("get_version", lambda g: same1(version(g.ctx, "v")))


def b_key(g):
    k = g.ctx.choose(10)
    st = list(T.ControlKeyStates)[k] if k < len(T.ControlKeyStates) else T.ControlKeyStates.ShiftPressed | T.ControlKeyStates.NumLockOn
    ch, down, code = g.ch(), g.flag("down"), g.i("code")
    return [ch, down, st, code], T.KeyInfo(VirtualKeyCode=code, Character=ch, ControlKeyState=st, KeyDown=down)


answers("read_key", b_key)
answers("get_buffer_contents", lambda g: same1(b_array(g)), bounded="1 to 3 rows and columns")
answers("prompt_for_multiple_choice", lambda g: (lambda v: ([v], v if isinstance(v, list) and not isinstance_proxy(v) else [v]))([g.i("c"), [g.i("c") for _ in range(g.ctx.choose(4))]][g.ctx.choose(2)]),
        bounded="up to 3 choices")


@contract("C19")
def answer_prompt(ctx):
    """a prompt's answers arrive as a dictionary with the same keys and values"""
    c, s, pid, cp, sp = session19(ctx)
    ci = call(ServerHostRequestor(sp).prompt, "c", "m", [])
    xfer(s, c)
    v = {"a": anyval("va"), "B_x0041_": anyval("vb")}
    call(ClientHostResponder(cp).prompt, ci, v)
    e = one(ctx, c, s, pid, "HostResponseEvent")
    ctx.prove("keys", list(e.result) == list(v))
    for k in v:
        ctx.prove("value", e.result[k] is v[k])


@contract("C19")
def answer_error(ctx):
    """an error given as answer, with or without a value, arrives as an error record with its message and id, and the value"""
    c, s, pid, cp, sp = session19(ctx)
    ci = call(ServerHostRequestor(sp).read_line)
    xfer(s, c)
    msg, fid = nonempty(ctx, "message"), nonempty(ctx, "id")
    er = T.ErrorRecord(Exception=T.NETException(Message=msg), CategoryInfo=T.ErrorCategoryInfo(), FullyQualifiedErrorId=fid)
    v = G(ctx).t0() if ctx.choose(2) else None
    call(cp.host_response, ci, v, error_record=er)
    e = one(ctx, c, s, pid, "HostResponseEvent")
    ctx.prove("id", same(e.ci, ci))
    ctx.prove("result", e.result is None if v is None else same(e.result, v))
    ctx.prove("error record", isinstance(e.error, T.ErrorRecord))
    ctx.prove("message", same(e.error.Exception.Message, msg))
    ctx.prove("error id", same(e.error.FullyQualifiedErrorId, fid))

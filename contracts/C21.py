"""C21: CLIXML documents, the CLIXML shell and its reader."""
from contracts.lib import *  # noqa
from contracts.C10 import is_
from contracts.C16 import same
import psrpcore._clixml_shell as SH
import psrpcore.types._serializer as S

Stream = S.ClixmlStream
STREAMS = list(Stream)
PREFIX = ["", "#< CLIXML\n", "#< CLIXML\r\n", "#< CLIXML", "#< CLIXML\r\n\r\n"]


def opq(n, cls=None):
    return Opaque(n, cls=cls or T.PSObject)


def entry_stream(ctx, i):
    k = ctx.choose(len(STREAMS) + 1)
    return None if k == len(STREAMS) else STREAMS[k]


def check_entries(ctx, back, xs, tags):
    ctx.prove("number of entries", isinstance(back, list) and len(back) == len(xs))
    for (v, st), x, t in zip(back, xs, tags):
        is_(ctx, "value", v, x)
        ctx.prove("stream", st is (t or Stream.OUTPUT))


@contract("C21", bounded="up to 2 entries")
def document(ctx):
    """serialize_clixml then deserialize_clixml: values, order and streams, with and without the marker"""
    wire(ctx)
    n = ctx.choose(3)
    xs = [opq("x%d" % i) for i in range(n)]
    tags = [entry_stream(ctx, i) for i in range(n)]
    doc = call(T.serialize_clixml, [x if t is None else (x, t) for x, t in zip(xs, tags)], None)
    doc = PREFIX[ctx.choose(len(PREFIX))] + doc
    check_entries(ctx, call(T.deserialize_clixml, doc, None, preserve_streams=True), xs, tags)
    back = call(T.deserialize_clixml, doc, None)
    ctx.prove("entries without streams", len(back) == n and all(b is x for b, x in zip(back, xs)))


@contract("C21", bounded="3 entries")
def document_order(ctx):
    """three entries, each untagged or of one of two streams"""
    wire(ctx)
    xs = [opq("x%d" % i) for i in range(3)]
    tags = [[None, Stream.ERROR, Stream.OUTPUT][ctx.choose(3)] for _ in range(3)]
    doc = call(T.serialize_clixml, [x if t is None else (x, t) for x, t in zip(xs, tags)], None)
    check_entries(ctx, call(T.deserialize_clixml, doc, None, preserve_streams=True), xs, tags)


@contract("C21")
def single(ctx):
    """one value that is not a list, tagged or not"""
    wire(ctx)
    x = opq("x")
    t = entry_stream(ctx, 0)
    doc = call(T.serialize_clixml, x if t is None else (x, t), None)
    check_entries(ctx, call(T.deserialize_clixml, doc, None, preserve_streams=True), [x], [t])


WRITES = [("write_output", Stream.OUTPUT), ("write_error", Stream.ERROR), ("write_debug", Stream.DEBUG), ("write_verbose", Stream.VERBOSE), ("write_warning", Stream.WARNING),
          ("write_information", Stream.INFORMATION)]


def shell(ctx, n):
    """a shell in any state with n entries pending"""
    sh = call(SH.ClixmlShell)
    marker = SBool(ctx.bool("marker_written"))
    poke(sh, "_written_marker", marker, False)
    xs = [opq("p%d" % i) for i in range(n)]
    tags = [STREAMS[ctx.choose(len(STREAMS))] for _ in range(n)]
    poke(sh, "_stdout", [], [])
    for x, t in zip(xs, tags):
        sh._stdout.append((x, t))
    return sh, marker, xs, tags


def emitted(ctx, sh, marker, xs, tags):
    """reads the shell and checks what it gives: exactly the pending entries in order"""
    first = not ctx.branch(marker.expr) if type(marker) is SBool else not marker
    t = call(sh.data_to_send)
    if not xs:
        ctx.prove("nothing is emitted", isinstance(t, str) and not isinstance_proxy(t) and t == "")
        return first
    p = payload(t)
    head = p.segs[0] if type(p) is SStr else p
    ctx.prove("marker in front of the first text only", head.startswith("#< CLIXML") == first)
    doc = t if first else call(t.lstrip, "\r\n")
    check_entries(ctx, call(T.deserialize_clixml, doc, None, preserve_streams=True), xs, tags)
    return False


@contract("C21", bounded="up to 2 entries pending before the write")
def shell_step(ctx):
    """from any state: a write adds one entry at the end, reading emits all pending entries once, in order"""
    wire(ctx)
    sh, marker, xs, tags = shell(ctx, ctx.choose(3))
    k = ctx.choose(len(WRITES) + 1)
    if k < len(WRITES):
        name, st = WRITES[k]
        x = opq("new")
        call(getattr(sh, name), x)
        xs, tags = xs + [x], tags + [st]
    first = emitted(ctx, sh, marker, xs, tags)
    first2 = emitted(ctx, sh, not first, [], [])  # nothing a second time
    x = opq("later")
    call(sh.write_error, x)
    emitted(ctx, sh, not first2, [x], [Stream.ERROR])


@contract("C21")
def shell_progress(ctx):
    """a progress record is emitted as its own entry with the source id"""
    wire(ctx)
    sh, marker, xs, tags = shell(ctx, 0)
    x = opq("record")
    sid = SInt(ctx.int("source", -2 ** 63, 2 ** 63 - 1))
    call(sh.write_progress, sid, x)
    doc = call(sh.data_to_send)
    back = call(T.deserialize_clixml, call(doc.lstrip, "\r\n"), None, preserve_streams=True)
    ctx.prove("one entry", len(back) == 1)
    ctx.prove("stream", back[0][1] is Stream.PROGRESS)
    is_(ctx, "record", back[0][0].Record, x)
    ctx.prove("source", eqb(back[0][0].SourceId, sid))


class Boom(Exception):
    pass


@contract("C21", bounded="up to 2 entries pending")
def shell_failure(ctx):
    """a value that cannot be serialized: nothing is lost, the marker is still to come"""
    wire(ctx)
    sh, marker, xs, tags = shell(ctx, ctx.choose(2) + 1)
    before = list(sh._stdout)
    ok = S.serialize_clixml
    fails = [True]

    def f(fn, a, k):
        if fails[0]:
            raise Boom()
        return fn(*a, **k)
    RT.stub(ok, f)
    ctx.prove("the failure is passed on", raises(Boom, lambda: call(sh.data_to_send)) is not None)
    fails[0] = False
    emitted(ctx, sh, marker, xs, tags)


@contract("C21", bounded="up to 2 documents of up to 2 entries, an empty text among them")
def reader(ctx):
    """ClixmlOutput.from_clixml sorts the entries of all documents into their streams, in order"""
    wire(ctx)
    docs, ents = [], []
    for i in range(ctx.choose(3)):
        es = []
        for j in range(ctx.choose(2) + 1):
            st = STREAMS[ctx.choose(len(STREAMS))] if i + j == 0 else STREAMS[ctx.choose(2)]
            if st is Stream.ERROR and ctx.choose(2):
                x = opq("e", T.ErrorRecord)
            elif st is Stream.PROGRESS:
                x = opq("p")
                x.attrs["Record"] = opq("record")
            elif st in (Stream.OUTPUT, Stream.INFORMATION):
                x = opq("o")
            else:
                x = text("message")
            es.append((x, st))
        d = text("doc")
        ctx.assume(d.zlen() >= 1)
        docs.append(d)
        ents.append(es)
    given = list(docs)
    if ctx.choose(2):
        given.insert(ctx.choose(len(docs) + 1), "")
    seen = []

    def des(fn, a, k):
        for d, es in zip(docs, ents):
            if payload(a[0]) is payload(d):
                if not (len(a) > 2 and a[2] or k.get("preserve_streams")):
                    raise Unsupported("streams are not asked for")
                seen.append(d)
                return list(es)
        raise Unsupported("another document")
    RT.stub(T.deserialize_clixml, des)
    out = call(SH.ClixmlOutput.from_clixml, given[0] if len(given) == 1 and ctx.choose(2) else given)
    flat = [e for es in ents for e in es]
    for st in STREAMS:
        got = getattr(out, st.value)
        exp = [x for x, s in flat if s is st]
        ctx.prove("number of entries", len(got) == len(exp))
        for g, x in zip(got, exp):
            if st in (Stream.OUTPUT, Stream.INFORMATION) or st is Stream.ERROR and type(x) is Opaque:
                is_(ctx, "entry", g, x)
            elif st is Stream.PROGRESS:
                is_(ctx, "record", g, x.attrs["Record"])
            elif st is Stream.ERROR:
                ctx.prove("error message", isinstance(g, T.ErrorRecord) and same(g.Exception.Message, x))
            else:
                ctx.prove("message", type(g) is {Stream.DEBUG: T.DebugRecord, Stream.VERBOSE: T.VerboseRecord, Stream.WARNING: T.WarningRecord}[st])
                ctx.prove("text", same(g.Message, x))


@contract("C21")
def secure_text(ctx):
    """a secure string in a document or written to a shell decrypts to its text at the reader"""
    wire(ctx)
    x = text("x")
    v = call(T.PSSecureString, x)
    if ctx.choose(2):
        doc = call(T.serialize_clixml, [v], call(SH.LocalCryptoProvider))
    else:
        sh = call(SH.ClixmlShell)
        call(sh.write_output, v)
        doc = call(sh.data_to_send)
    back = call(SH.ClixmlOutput.from_clixml, [doc]).output
    ctx.prove("one entry", len(back) == 1 and type(back[0]) is T.PSSecureString)
    ctx.prove("text", same(call(back[0].decrypt), x))


@contract("C21")
def secure_text_lower(ctx):
    """the hexadecimal digits of a secure string may be lower case, as PowerShell writes them"""
    wire(ctx)
    x = text("x")
    v = call(call(SH.LocalCryptoProvider).encrypt, x)
    low = RT.models.str_method(payload(v), "lower", (), {})
    ctx.prove("text", same(call(call(SH.LocalCryptoProvider).decrypt, low), x))


@contract("C21")
def document_any(ctx):
    """documents of any length: any number of untagged entries, one entry, any number of entries of one stream"""
    from vc.runs import Run
    wire(ctx)
    t, u = entry_stream(ctx, 0), STREAMS[ctx.choose(len(STREAMS))]
    a = Run(ctx, lambda a: a.opaque("a", cls=T.PSObject)).elem
    b = Run(ctx, lambda a: (a.opaque("b", cls=T.PSObject), u)).elem
    x = opq("x")
    doc = call(T.serialize_clixml, [a, x if t is None else (x, t), b], None)
    back = call(T.deserialize_clixml, doc, None, preserve_streams=True)
    ctx.prove("number of entries", type(back) is list and len(back) == 3)
    ctx.prove("untagged entries, in order", back[0][0] is a and back[0][1] is Stream.OUTPUT)
    ctx.prove("entry", back[1][0] is x and back[1][1] is (t or Stream.OUTPUT))
    ctx.prove("tagged entries, in order", back[2][0] is b[0] and back[2][1] is u)


@contract("C21")
def shell_any(ctx):
    """any number of pending entries: a write adds one at the end, reading emits all of them once, in order"""
    from vc.runs import Run
    wire(ctx)
    sh, marker, _, _ = shell(ctx, 0)
    u, v = STREAMS[ctx.choose(len(STREAMS))], STREAMS[ctx.choose(2)]
    a = Run(ctx, lambda a: (a.opaque("a", cls=T.PSObject), u)).elem
    b = Run(ctx, lambda a: (a.opaque("b", cls=T.PSObject), v)).elem
    x, y = opq("x"), opq("y")
    sh._stdout.extend([a, (x, Stream.WARNING), b])
    call(sh.write_verbose, y)
    first = not ctx.branch(marker.expr)
    t = call(sh.data_to_send)
    ctx.prove("marker in front of the first text only", payload(t).segs[0].startswith("#< CLIXML") == first)
    back = call(T.deserialize_clixml, t if first else call(t.lstrip, "\r\n"), None, preserve_streams=True)
    want = [(a[0], u), (x, Stream.WARNING), (b[0], v), (y, Stream.VERBOSE)]
    ctx.prove("all entries in order", type(back) is list and len(back) == 4 and all(g[0] is w[0] and g[1] is w[1] for g, w in zip(back, want)))
    emitted(ctx, sh, True, [], [])


@contract("C21")
def reader_any(ctx):
    """any number of documents with any number of entries are sorted into their streams, in order"""
    from vc.runs import Run
    wire(ctx)
    st = STREAMS[ctx.choose(len(STREAMS))]
    other = Stream.OUTPUT if st is not Stream.OUTPUT else Stream.INFORMATION
    kind = [T.ErrorRecord, T.PSObject][ctx.choose(2)] if st is Stream.ERROR else T.PSObject

    def entry(a):
        if st in (Stream.OUTPUT, Stream.INFORMATION) or st is Stream.ERROR and kind is T.ErrorRecord:
            return a.opaque("e", cls=kind), st
        if st is Stream.PROGRESS:
            p = T.PSObject()
            p.PSObject.extended_properties.append(T.PSNoteProperty("Record", a.opaque("record")))
            return p, st
        return a.text("message"), st
    many = Run(ctx, entry).elem
    x, d, empty = opq("x"), text("doc"), ""
    ctx.assume(d.zlen() >= 1)
    docs = Run(ctx, lambda a: a.text("docs")).elem

    def des(fn, a, k):
        if not (len(a) > 2 and a[2] or k.get("preserve_streams")):
            raise Unsupported("streams are not asked for")
        p = payload(a[0])
        if p is payload(d):
            return [many, (x, other)]
        return [(SStr([Txt("entry", src=("entry", p))]), Stream.OUTPUT)]
    RT.stub(T.deserialize_clixml, des)
    out = call(SH.ClixmlOutput.from_clixml, [docs, empty, d])
    exp = {s: 0 for s in STREAMS}
    exp[st] += 1
    exp[other] += 1
    exp[Stream.OUTPUT] += 1
    for s in STREAMS:
        ctx.prove("number of entries", len(getattr(out, s.value)) == exp[s])
    o = payload(out.output[0])
    ctx.prove("entries of the documents, in order", type(o) is SStr and len(o.segs) == 1 and o.segs[0].src is not None and o.segs[0].src[0] == "entry" and o.segs[0].src[1] is payload(docs))
    ctx.prove("entry", getattr(out, other.value)[-1] is x)
    g = getattr(out, st.value)[-1 if st is not Stream.OUTPUT else 1]
    if st in (Stream.OUTPUT, Stream.INFORMATION) or st is Stream.ERROR and kind is T.ErrorRecord:
        ctx.prove("entries", g is many[0])
    elif st is Stream.PROGRESS:
        ctx.prove("records", g is many[0].Record)
    elif st is Stream.ERROR:
        ctx.prove("error messages", isinstance(g, T.ErrorRecord) and same(g.Exception.Message, many[0]))
    else:
        ctx.prove("messages", type(g) is {Stream.DEBUG: T.DebugRecord, Stream.VERBOSE: T.VerboseRecord, Stream.WARNING: T.WarningRecord}[st] and same(g.Message, many[0]))

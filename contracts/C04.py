"""C04: reassembly.  next_event from any state: any buffered bytes, any partly received messages (any number of fragments each) and any
messages waiting; the loop over the buffered fragments is cut: one arbitrary iteration is checked from an arbitrary state."""
from contracts.session import *  # noqa
from contracts.C16 import same
from contracts.C02 import layout
from contracts import C01
import collections
LOOP = "_base:RunspacePool.next_event#while1"
U64 = 2 ** 64 - 1
PSRPCoreError = psrpcore.PSRPCoreError


class Frags(Proxy):
    """the data of the fragments received so far of one message: `n` of them, together `data`"""
    _kind = "list of fragments"
    __class__ = property(lambda s: list)

    def __init__(self, oid):
        c = ctx_()
        self.oid = oid
        self.n = c.int("received", 1, U64)
        self.data = blob("joined")
        self.added = []

    def sym_len(self):
        return SInt(self.n + len(self.added)) if self.added else SInt(self.n)

    def sym_items(self):
        return [self.data] + self.added

    def append(self, x):
        self.added.append(x)

    def __bool__(self):
        return True

    def __getattr__(self, k):
        if k.startswith("__") or k.startswith("_vc"):
            raise AttributeError(k)
        raise Unsupported("list.%s of the fragments" % k)


class Waiting(Proxy):
    """complete messages that are not reported yet, in order of completion: none, or a first one and any others"""
    _kind = "waiting messages"
    __class__ = property(lambda s: dict)
    sym_iter = True

    def __init__(self, ctx):
        self.first = (SInt(ctx.int("waiting_oid", 0, U64)), Opaque("waiting", truth=True)) if ctx.choose(2) else None
        self.taken = False
        self.added = []

    def __iter__(self):
        if self.taken or self.added:
            raise Unsupported("iteration over the waiting messages after a change")
        if self.first:
            yield self.first[0]
            raise Unsupported("iteration over the waiting messages")

    def keys(self):
        return Keys(self)

    def sym_to_list(self):
        return Keys(self)

    def _is(self, k):
        if self.first is None or self.taken or self.added or k is not self.first[0]:
            raise Unsupported("access to other waiting messages")

    def sym_getitem(self, k):
        self._is(k)
        return self.first[1]

    def sym_setitem(self, k, v):
        self.added.append((k, v))

    def sym_delitem(self, k):
        self._is(k)
        self.taken = True

    __getitem__ = sym_getitem
    __setitem__ = sym_setitem
    __delitem__ = sym_delitem

    def pop(self, k, *d):
        self._is(k)
        self.taken = True
        return self.first[1]

    def __bool__(self):
        if self.taken or self.added:
            raise Unsupported("truth of the waiting messages after a change")
        return self.first is not None


class Keys(Proxy):
    _kind = "ids of the waiting messages"
    __class__ = property(lambda s: list)
    __slots__ = ("w",)
    sym_iter = True

    def __init__(self, w):
        self.w = w

    def __iter__(self):
        return iter(self.w)

    def sym_to_list(self):
        return self

    def __bool__(self):
        return bool(self.w)


class State:
    """the loop specification: any state at the head, one iteration"""

    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p
        self.seen = False
        self.unpacked = []

    def enter(self, loc):
        if self.seen:
            raise Unsupported("the loop is entered twice")
        self.seen = True

    def havoc(self, loc):
        ctx, p = self.ctx, self.p
        self.kind = ctx.choose(3)
        self.end = SBool(ctx.bool("end"))
        self.oid, self.fid = SInt(ctx.int("oid", 0, U64)), SInt(ctx.int("fid", 0, U64))
        self.data, self.rest = blob("data"), blob("rest")
        ctx.assume(self.data.zlen() < 2 ** 32)
        whole = layout(self.oid, self.fid, self.end, self.data).segs
        if self.kind == 0:
            b = blob("short")
            ctx.assume(b.zlen() < 21)
            segs = list(b.segs)
        elif self.kind == 1:
            b = blob("partial")
            ctx.assume(b.zlen() < self.data.zlen())
            segs = whole[:4] + b.segs
        else:
            segs = whole + self.rest.segs
        self.segs = segs
        self.buffer = SBytes(list(segs), True)
        self.frags = SMap("fragments", "int", Frags)
        self.waiting = Waiting(ctx)
        p._receive_buffer, p._incoming_fragments, p._incoming_messages = self.buffer, self.frags, self.waiting
        self.before = frame([v for k, v in sorted(p.__dict__.items()) if k not in ("_receive_buffer", "_incoming_fragments", "_incoming_messages")][:], 4)[2]
        named(ctx, oid=self.oid, fid=self.fid, end=self.end, kind=self.kind)
        return {}

    def others(self):
        """nothing else of the pool changed"""
        now = frame([v for k, v in sorted(self.p.__dict__.items()) if k not in ("_receive_buffer", "_incoming_fragments", "_incoming_messages")][:], 4)[2]
        self.ctx.prove("the rest of the pool is as before", now == self.before)

    def expected(self):
        """was the fragment the next one of its message (decided on the path)"""
        had = self.frags.memo
        base = [v for u, v in had if self.ctx.valid(u == self.oid.expr)]
        return base[0] if base else None

    def buffered(self, want):
        b = self.p._receive_buffer
        self.ctx.prove("exactly the fragment is consumed" if want is self.rest.segs else "incomplete data stays", same(bytesof(b), SBytes(list(want))))

    def preserve(self, loc):
        ctx, p = self.ctx, self.p
        ctx.eng.cover("fragment")
        ctx.prove("only a whole fragment is taken", self.kind == 2)
        self.others()
        self.buffered(self.rest.segs)
        f = self.expected()
        n = z3.IntVal(0) if f is None else f.n
        ctx.prove("only the next fragment is taken", self.fid.expr == n)
        if p._incoming_fragments is not self.frags or p._incoming_messages is not self.waiting:
            raise Unsupported("the tables are replaced")
        log = self.frags.log
        joined = SBytes((f.data.segs if f is not None else []) + self.data.segs)
        for t, v in log:
            ctx.prove("no other message is touched", t == self.oid.expr)
        if ctx.branch(to_bool(self.end)):
            ctx.prove("one message complete", len(self.waiting.added) == 1 and not self.waiting.taken)
            oid, m = self.waiting.added[0]
            ctx.prove("object id", same(oid, self.oid))
            ctx.prove("unpacked once", len(self.unpacked) == 1)
            arg, r = self.unpacked[0]
            ctx.prove("all bytes in order", same(arg, joined))
            for k, v in (("message_type", r.message_type), ("runspace_pool_id", r.rpid), ("pipeline_id", r.pid)):
                got = getattr(m, k)
                ctx.prove(k, got is v or v is not None and same(got, v))
            ctx.prove("data", same(bytesof(m.data), bytesof(r.data)))
            from vc.colls import DEL
            ctx.prove("its fragments are gone", bool(log) and log[-1][1] is DEL if f is not None or log else True)
        else:
            ctx.prove("no message complete", not self.waiting.added and not self.waiting.taken and not self.unpacked)
            if f is not None:
                ctx.prove("kept with the others", not log and len(f.added) == 1 and same(f.added[0], self.data))
            else:
                v = log[-1][1] if log else None
                if type(v) is not list:
                    raise Unsupported("fragments are kept in another way")
                ctx.prove("kept as the first", len(v) == 1 and same(v[0], self.data))


def bytesof(x):
    x = payload(x)
    return SBytes(x.segs) if type(x) is SBytes else bytes(x)


def start(ctx):
    p = pool(ctx, "cs"[ctx.choose(2)], state=RS.Opened, key=False)
    for n, v in (("_receive_buffer", bytearray()), ("_incoming_fragments", {}), ("_incoming_messages", {})):
        d = p.__dict__.get(n)
        if d is None or len(d) if type(d) is dict else cint_len(d):
            raise Unsupported("representation of %s" % n)
    st = State(ctx, p)
    RT.loopspecs[LOOP] = lambda: st
    Message = type(call(P.unpack_message, bytearray(P.create_message(True, T.PSRPMessageType.PipelineOutput, b"", __import__("uuid").uuid4()))))
    types = list(T.PSRPMessageType)

    def unpack(fn, a, k):
        r = Message(SInt(ctx.int("destination", 0)), types[0], suuid("rpid"), suuid("pid") if ctx.choose(2) else None, blob("content"))
        st.unpacked.append((bytesof(a[0]), r))
        return r
    RT.stub(P.unpack_message, unpack)
    st.processed = []

    st.refused = None

    def process(fn, a, k):
        st.processed.append(a[1])
        if ctx.choose(2):
            st.refused = PSRPCoreError("refused by its handler")
            raise st.refused
        return Opaque("event", truth=True)
    base = [c for c in type(p).__mro__ if "_process_message" in c.__dict__]
    if not base:
        raise Unsupported("no _process_message")
    RT.stub(base[0].__dict__["_process_message"], process)
    return p, st


def cint_len(d):
    return len(d) if type(d) in (bytes, bytearray) else z3.simplify(zlen_(d)).as_long()


def zlen_(d):
    return z3.IntVal(0) + d.zlen()


@contract("C04", budget=120, covers=("fragment", "rejected", "refused", "reported", "nothing"))
def step(ctx):
    """one step from any state: an incomplete fragment is left alone; the next fragment of its message is kept; the last one completes
    the message with all its bytes in order, behind the messages already waiting; any other fragment id is refused; then the message
    that has waited longest is reported, once, also when its handler refuses it"""
    p, st = start(ctx)
    try:
        r = call(p.next_event)
    except PSRPCoreError as e:
        if st.refused is not None:
            # the handler of the message refuses it: it is not given to its handler again and keeps no other message from being reported
            ctx.eng.cover("refused")
            ctx.prove("refused: the error of the handler", e is st.refused)
            ctx.prove("refused: the message that waited longest", len(st.processed) == 1 and st.waiting.first is not None and st.processed[0] is st.waiting.first[1])
            ctx.prove("refused: it waits no longer", st.waiting.taken)
            st.buffered(st.segs)
            st.others()
            return
        ctx.eng.cover("rejected")
        if not st.seen:
            raise Unsupported("no loop over the received fragments")
        ctx.prove("rejected only a whole fragment", st.kind == 2)
        f = st.expected()
        ctx.prove("rejected only another fragment id", st.fid.expr != (z3.IntVal(0) if f is None else f.n))
        ctx.prove("not merged", (f is None or not f.added) and not st.waiting.added and not st.unpacked)
        ctx.prove("nothing reported", not st.processed and not st.waiting.taken)
        st.others()
        return
    if not st.seen:
        raise Unsupported("no loop over the received fragments")
    ctx.prove("stops only at an incomplete fragment", st.kind != 2)
    st.buffered(st.segs)
    ctx.prove("no fragment taken", not st.frags.log and not st.unpacked and not st.waiting.added)
    st.others()
    if st.waiting.first is None:
        ctx.eng.cover("nothing")
        ctx.prove("nothing reported", r is None and not st.processed)
    else:
        ctx.eng.cover("reported")
        ctx.prove("an error of the handler is not hidden", st.refused is None)
        ctx.prove("the message that waited longest is reported once", len(st.processed) == 1 and st.processed[0] is st.waiting.first[1])
        ctx.prove("its event is returned", r is not None)
        ctx.prove("it waits no longer", st.waiting.taken)


@contract("C04")
def receive(ctx):
    """received bytes are appended to the buffered ones, whatever the chunk"""
    p = pool(ctx, "cs"[ctx.choose(2)], state=RS.Opened, key=False)
    a, b = blob("old"), blob("new")
    if "_receive_buffer" not in p.__dict__:
        raise Unsupported("no receive buffer")
    p._receive_buffer = SBytes(list(a.segs), True)
    before = frame([v for k, v in sorted(p.__dict__.items()) if k != "_receive_buffer"], 4)[2]
    call(p.receive_data, psrpcore.PSRPPayload(b, psrpcore.StreamType.default, None))
    ctx.prove("appended", same(bytesof(p._receive_buffer), SBytes(a.segs + b.segs)))
    ctx.prove("nothing else", frame([v for k, v in sorted(p.__dict__.items()) if k != "_receive_buffer"], 4)[2] == before)


@contract("C04", budget=120)
def event_of_message(ctx):
    """a message of any type becomes one event with its type, pool, pipeline and deserialized content, given once to its handler"""
    import xml.etree.ElementTree as ET
    p = pool(ctx, "cs"[ctx.choose(2)], state=RS.Opened, key=False)
    mt = list(T.PSRPMessageType)[ctx.choose(len(T.PSRPMessageType))]
    content = [b"", blob("content", 1, utf8=True)][ctx.choose(2)]
    if not isinstance_proxy(content) and mt not in (T.PSRPMessageType.PipelineOutput, T.PSRPMessageType.EndOfPipelineInput):
        raise PathEnd()
    pid = suuid("pid") if ctx.choose(2) else None
    m = call(P.PSRPMessage, mt, content, suuid("mrpid"), pid, SInt(ctx.int("oid", 0, U64)))
    obj, made, handled, read, ev = Opaque("object", truth=True), [], [], [], Opaque("event", truth=True)
    E = sys.modules["psrpcore._events"].PSRPEvent
    if type(E.__dict__.get("create")) is not classmethod:
        raise Unsupported("no PSRPEvent.create")

    def fromstring(fn, a, k):
        read.append(a[0])
        return ET.Element("VcDoc")

    def des(fn, a, k):
        return obj
    RT.stub(ET.fromstring, fromstring)
    RT.stub(T.deserialize, des)

    def create(fn, a, k):
        made.append(a[1:] + tuple(k.values()))
        return ev
    RT.stub(E.create, create)
    h = getattr(type(p), "_process_" + mt.name, None)
    if h is not None:
        RT.stub(h, lambda fn, a, k: handled.append(a[1]))
    if not hasattr(p, "_process_message"):
        raise Unsupported("no _process_message")
    r = call(p._process_message, m)
    ctx.prove("its event", r is ev)
    ctx.prove("one event", len(made) == 1 and len(made[0]) == 4)
    ctx.prove("type", made[0][0] is mt)
    if mt == T.PSRPMessageType.EndOfPipelineInput:
        ctx.prove("end of input", made[0][1].__class__.__name__ == "EndOfPipelineInput")
    elif mt == T.PSRPMessageType.PipelineOutput and not isinstance_proxy(content):
        ctx.prove("no content", made[0][1] is None)
    else:
        ctx.prove("content", made[0][1] is obj and len(read) == 1 and same(bytesof(read[0]), bytesof(content)))
    ctx.prove("pool", same(made[0][2], m.runspace_pool_id))
    ctx.prove("pipeline", made[0][3] is None if pid is None else made[0][3] is not None and same(made[0][3], pid))
    ctx.prove("handled once", handled == [ev] if h is not None else not handled)


@contract("C04")
def event_fields(ctx):
    """the event created for a message of any type keeps the content, pool and pipeline it was created with"""
    E = sys.modules["psrpcore._events"].PSRPEvent
    mt = list(T.PSRPMessageType)[ctx.choose(len(T.PSRPMessageType))]
    obj, rpid, pid = Opaque("object", truth=True), suuid("rpid"), suuid("pid") if ctx.choose(2) else None
    if mt == T.PSRPMessageType.RunspaceAvailability:
        obj = T.PSObject()
        obj.PSObject.extended_properties.append(T.PSNoteProperty("SetMinMaxRunspacesResponse", [True, False, T.PSInt64(3)][ctx.choose(3)]))
    e = call(E.create, mt, obj, rpid, pid)
    ctx.prove("content", peek(e, "_ps_object") is obj)
    ctx.prove("pool", same(e.runspace_pool_id, rpid))
    ctx.prove("pipeline", e.pipeline_id is None if pid is None else same(e.pipeline_id, pid))
    ctx.prove("type", e.message_type is mt)


contract("C04", budget=60, covers=("bom", "nobom", "pid", "nopid"))(C01.unpack_message_inverse)

"""C03: outgoing fragmentation.  One call of data_to_send over a queue of any number of messages, each of any remaining length and any
number of fragments already taken, with any size limit; the loop is cut at its invariant.  Together with the contract that a newly
queued message starts at fragment 0 with all its bytes, induction over the calls gives the property."""
from contracts.session import *  # noqa
from contracts.C16 import same
ST = psrpcore.StreamType
HEAD = 21


def zl(x):
    x = payload(x)
    return z3.IntVal(len(x)) if type(x) in (bytes, bytearray) else z3.IntVal(0) + x.zlen()


def message(ctx, name, stream=None, pid=0):
    """a queued message with some bytes left and some fragments taken"""
    m = call(P.PSRPMessage, T.PSRPMessageType.PipelineOutput, b"x", suuid("rpid"), suuid(name + "_pid") if pid == 0 and ctx.choose(2) else None if pid == 0 else pid,
             SInt(ctx.int(name + "_oid", 0, 2 ** 64 - 1)), stream or list(ST)[ctx.choose(len(ST))])
    n = ctx.int(name + "_left", 1, 2 ** 32 - 1)
    d = SBytes([BlobSeg(Blob(name + "_data", n), 0, n)], True)
    k = ctx.int(name + "_taken", 0, 2 ** 64 - 2)
    poke(m, "_data", d)
    poke(m, "_fragment_counter", SInt(k), 0)
    if len(m.__dict__) != 7:
        raise Unsupported("PSRPMessage has other attributes")
    return m, SBytes(list(d.segs)), n, k


class Queue(Proxy):
    """the send buffer; `mode` says what is known about it: None (any), or a Run"""
    _kind = "send buffer"
    __class__ = property(lambda s: list)
    __slots__ = ("run",)

    def __init__(self, run):
        self.run = run

    def sym_to_list(self):
        return Snapshot(self.run)

    def copy(self):
        return Snapshot(self.run)

    def sym_getitem(self, i):
        if isinstance(i, slice) and i == slice(None):
            return Snapshot(self.run)
        raise Unsupported("item of the send buffer")

    def __bool__(self):
        r = self.run
        if r.removed or r.m is None:
            raise Unsupported("truth of the send buffer")
        return True

    def remove(self, m):
        r = self.run
        if m is not r.m or r.removed or r.partial:
            raise Unsupported("removal of another message")
        r.removed = True


class Snapshot(Proxy):
    _kind = "list of queued messages"
    __class__ = property(lambda s: list)
    __slots__ = ("run",)

    def __init__(self, run):
        self.run = run

    def sym_loop(self, lid):
        if self.run.started:
            raise Unsupported("second loop over the send buffer")
        self.run.started = True
        return self.run


class Run:
    """loop specification and ghost state"""

    def __init__(self, ctx, amount):
        self.ctx, self.amount = ctx, amount
        self.started = self.removed = self.partial = self.none_left = False
        self.m = None
        self.g = 0
        self.G = []
        self.label = None

    def get(self, loc, *names):
        for n in names:
            if n not in loc:
                raise Unsupported("no variable %s at the loop" % n)
        return [loc[n] for n in names]

    def enter(self, loc):
        amount, cur, st, pid = self.get(loc, "amount", "current_buffer", "stream_type", "pipeline_id")
        self.ctx.prove("entry: nothing packed", zl(cur) == 0, soft=True)
        self.ctx.prove("entry: whole size", amount is None if self.amount is None else same(amount, self.amount), soft=True)

    def havoc(self, loc, last):
        ctx = self.ctx
        up = {}
        if ctx.choose(2):
            up = {k: loc[k] for k in ("amount", "current_buffer", "stream_type", "pipeline_id")}
            up["current_buffer"] = SBytes([], True)
        else:
            self.g = ctx.int("packed", HEAD)
            self.G = [BlobSeg(Blob("packed_data", self.g), 0, self.g)]
            self.label = (list(ST)[ctx.choose(len(ST))], suuid("label_pid") if ctx.choose(2) else None)
            if self.amount is None:
                am = None
            else:
                ctx.assume(self.g <= self.amount.expr)
                self.partial = bool(ctx.choose(2))
                am = ctx.int("left", None, HEAD - 1) if self.partial else self.amount.expr - self.g
                am = SInt(am)
            up = {"amount": am, "current_buffer": SBytes(list(self.G), True), "stream_type": self.label[0], "pipeline_id": self.label[1]}
        self.none_left = last and not self.partial
        return up

    def element(self):
        self.m, self.d, self.n, self.k = message(self.ctx, "m")
        named(self.ctx, amount=self.amount, packed=self.g, left=self.n, taken=self.k)
        return self.m

    def preserve(self, loc):
        amount, cur, st, pid = self.get(loc, "amount", "current_buffer", "stream_type", "pipeline_id")
        self.step(cur, st, pid)
        if self.amount is not None:
            a = as_int(amount)
            self.ctx.prove("invariant: size left", a == self.amount.expr - zl(cur) if self.removed else a < HEAD, soft=True)

    def step(self, cur, st, pid):
        """at most one more fragment was packed, of the next message and only after all bytes of the ones before"""
        ctx, m = self.ctx, self.m
        left = payload(m.data)
        k = self.n - zl(left)
        if ctx.valid(zl(cur) == self.g) and not self.removed:
            ctx.prove("a message that is not packed keeps its bytes", z3.And(k == 0, as_int(peek(m, "_fragment_counter")) == self.k))
            self.labels(st, pid)
            return
        ctx.prove("only after the message before is complete", not self.partial)
        ctx.prove("number of bytes", z3.And(k >= 0, k <= self.n))
        cur = payload(cur)
        want = call(P.create_fragment, m.object_id, SInt(self.k), self.d.getitem(slice(0, SInt(k))), SBool(k == self.n))
        ctx.prove("packed: what was there and one whole fragment with the next bytes", same(SBytes(cur.segs), SBytes(self.G + payload(want).segs)))
        ctx.prove("the message keeps the other bytes", same(left, self.d.getitem(slice(SInt(k), None))))
        ctx.prove("next fragment id", as_int(peek(m, "_fragment_counter")) == self.k + 1)
        ctx.prove("removed exactly when complete", (k == self.n) == z3.BoolVal(self.removed))
        if self.amount is None:
            ctx.prove("complete without a limit", k == self.n)
        else:
            ctx.prove("within the size", zl(cur) <= self.amount.expr)
        if self.label is None:
            ctx.prove("progress", k > 0)
        else:
            self.labels(m.stream_type, m.pipeline_id)
        self.label = (m.stream_type, m.pipeline_id)
        self.labels(st, pid)

    def labels(self, st, pid):
        if self.label is not None:
            self.ctx.prove("one stream", st == self.label[0])
            self.ctx.prove("one pipeline", pid is None if self.label[1] is None else pid is not None and same(pid, self.label[1]))


def limited(ctx, which):
    p = pool(ctx, "cs"[ctx.choose(2)], state=RS.Opened, buffer=False, key=False)
    amount = SInt(ctx.int("amount", 22)) if which else None
    run = Run(ctx, amount)
    poke(p, "_send_buffer", Queue(run), [])
    before = frame(p, 4)
    r = call(p.data_to_send, amount) if amount is not None or ctx.choose(2) else call(p.data_to_send)
    if not run.started:
        raise Unsupported("no loop over the send buffer")
    ctx.prove("nothing else changed", frame(p, 4) == before)
    if r is None:
        ctx.prove("nothing only when nothing is queued", run.none_left and run.g is 0)
        return
    if run.m is None:
        ctx.prove("exactly what was packed", same(r.data, SBytes(run.G)))
        run.labels(r.stream_type, r.pipeline_id)
    else:
        run.step(r.data, r.stream_type, r.pipeline_id)
    if amount is not None:
        ctx.prove("within the size", zl(r.data) <= amount.expr)
    ctx.prove("bytes", type(payload(r.data)) in (bytes, SBytes) and not getattr(payload(r.data), "mutable", False))


@contract("C03", budget=120)
def payload_limited(ctx):
    """any queue, any size limit from 22"""
    limited(ctx, True)


@contract("C03", budget=120)
def payload_unlimited(ctx):
    """any queue, no size limit"""
    limited(ctx, False)


@contract("C03")
def too_small(ctx):
    """any size below 22 is refused and changes nothing, whatever is queued"""
    p = pool(ctx, "cs"[ctx.choose(2)], state=RS.Opened, buffer=False, key=False)
    run = Run(ctx, None)
    poke(p, "_send_buffer", Queue(run), [])
    before = frame(p, 4)
    ctx.prove("ValueError", raises(ValueError, call, p.data_to_send, SInt(ctx.int("amount", None, 21))) is not None)
    ctx.prove("nothing changed", frame(p, 4) == before and not run.removed)


@contract("C03")
def fragment(ctx):
    """taking a fragment of any length from any message: the next bytes in order, ids count up, the end flag on the last"""
    m, d, n, k = message(ctx, "m")
    length = ctx.int("length", 0)
    f = call(m.fragment, SInt(length))
    took = z3.If(length < n, length, n)
    ctx.prove("object", same(f.object_id, m.object_id))
    ctx.prove("id", as_int(f.fragment_id) == k)
    ctx.prove("start flag on the first", (k == 0) == truth_of(f.start))
    ctx.prove("end flag on the last", (length >= n) == truth_of(f.end))
    ctx.prove("data", same(f.data, d.getitem(slice(0, SInt(took)))))
    ctx.prove("rest", same(m.data, d.getitem(slice(SInt(took), None))))
    ctx.prove("left", as_int(call(len, m)) == n - took)
    ctx.prove("next id", as_int(call(m.fragment, 1).fragment_id) == k + 1 if ctx.valid(length < n) else True)


def truth_of(x):
    return x.expr if type(x) is SBool else z3.BoolVal(bool(x))


@contract("C03")
def queued(ctx):
    """a message is queued whole, behind all others, with a new object id and fragment 0 next"""
    wire(ctx)
    p = pool(ctx, "cs"[ctx.choose(2)], state=RS.Opened, key=False)
    p.their_capability = T.SessionCapability(PSVersion=T.PSVersion("2.0"), protocolversion=T.PSVersion("2.3"), SerializationVersion=T.PSVersion("1.1.0.1"))
    pid = suuid("pid", nonzero=True) if ctx.choose(2) else None
    st = list(ST)[ctx.choose(len(ST))]
    oid = peek(p, "_fragment_count")
    v = [None, text("t")][ctx.choose(2)]
    call(p.prepare_message, v, T.PSRPMessageType.PipelineOutput, pid, st)
    q = sent(p)
    ctx.prove("one message at the end", len(q) == 1)
    m = q[0]
    ctx.prove("stream", m.stream_type == st)
    ctx.prove("pipeline", m.pipeline_id is None if pid is None else same(m.pipeline_id, pid))
    ctx.prove("object id", same(m.object_id, oid))
    ctx.prove("object id not used again", as_int(peek(p, "_fragment_count")) > as_int(oid))
    n = as_int(call(len, m))
    ctx.prove("not empty", n >= 40)
    d = m.data
    f = call(m.fragment, SInt(ctx.int("length", 40)))
    ctx.prove("first fragment", same(f.fragment_id, 0))
    ctx.prove("data first", same(f.data, RT.models.getitem(payload(d), slice(0, SInt(zl(f.data))))))

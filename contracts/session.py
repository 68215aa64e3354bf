"""Pools and pipelines in an arbitrary state, for the contracts of the session properties (C12 to C20)."""
import xml.etree.ElementTree as ET
from contracts.lib import *  # noqa
from vc.colls import SMap, SSeq, frame, DEL
from psrpcore import (ClientRunspacePool, ServerRunspacePool, ClientPowerShell, ClientGetCommandMetadata, ServerPipeline)  # noqa
from psrpcore import InvalidRunspacePoolState, InvalidPipelineState, InvalidProtocolVersion, PSRPCoreError  # noqa

RS, IS = T.RunspacePoolState, T.PSInvocationState
MT = T.PSRPMessageType
METHODS = list(T.HostMethodIdentifier)


class Ser(Proxy):
    """the element serialize returned for `value`, with the properties the value had at that time"""
    _kind = "serialized value"

    def __init__(self, value, args, kw):
        self.value, self.args, self.kw = value, args, kw
        self.props = props_of(value)


def props_of(v):
    if isinstance_proxy(v) or not isinstance(v, T.PSObject):
        return None
    out = {}
    for p in list(v.PSObject.adapted_properties) + list(v.PSObject.extended_properties):
        out[p.name] = p.get_value(v)
    return out


def opaque_serialization(ctx):
    """serialize and ElementTree.tostring by their contract: they read their argument, change nothing, and give some bytes"""
    assumed("serialize-pure", "serialize(value) and ElementTree.tostring change nothing but their result (property C11, bounded there); what they give is "
            "some non empty text that is a function of the value")

    def ser(fn, a, k):
        return Ser(a[0], a[1:], k)

    def tostring(fn, a, k):
        if type(a[0]) is not Ser:
            raise Unsupported("tostring of something else than the result of serialize")
        return blob("xml", 1, src=("ser", a[0]), utf8=True)
    RT.stub(T.serialize, ser)
    RT.stub(ET.tostring, tostring)


def version(ctx, name):
    return call(T.PSVersion, major=SInt(ctx.int(name + "_major", 0)), minor=SInt(ctx.int(name + "_minor", 0)))


def capability(ctx, name="their"):
    v = version(ctx, name)
    return v, call(T.SessionCapability, PSVersion=T.PSVersion("2.0"), protocolversion=v, SerializationVersion=T.PSVersion("1.1.0.1"))


class Call:
    """a pending request or host call of the peer (an arbitrary earlier event)"""

    def __init__(self, ci):
        self.ci = ci
        self.method_identifier = METHODS[ctx_().choose(len(METHODS))]
        self.pipeline_id = suuid("callpid") if ctx_().choose(2) else None
        self.count = SInt(ctx_().int("count"))
        self.ps_object = Opaque("obj")


def ctx_():
    return RT.ctx


def pool(ctx, side, state=None, key=None, events=Call, handlers=None, buffer=True):
    """A pool in any state of its tables, counters and limits."""
    p = call(ClientRunspacePool if side == "c" else ServerRunspacePool)
    if state is None:
        state = list(RS)[ctx.choose(len(RS))]
    p.state = state
    p.runspace_pool_id = suuid("rpid")
    poke(p, "_ci_count", SInt(ctx.int("ci_count", 1, 2 ** 62)), 1)
    poke(p, "_fragment_count", SInt(ctx.int("fragment_count", 1, 2 ** 63)), 1)
    poke(p, "_ci_events", SMap("ci_events", "int", events), {})
    poke(p, "_ci_handlers", SMap("ci_handlers", "int", handlers), {})
    if buffer:
        poke(p, "_send_buffer", SSeq("send_buffer"), [])
    poke(p, "_min_runspaces", SInt(ctx.int("min_runspaces", -2 ** 31, 2 ** 31 - 1)))
    poke(p, "_max_runspaces", SInt(ctx.int("max_runspaces", -2 ** 31, 2 ** 31 - 1)))
    poke(p, "_key_requested", SBool(ctx.bool("key_requested")) if key is None else key, False)
    if key is True and side == "c":
        poke(p, "_exchange_key", Opaque("private key", truth=True))
    if "pipeline_table" not in p.__dict__:
        raise Unsupported("no pipeline table")
    p.pipeline_table = SMap("pipelines", "uuid")
    named(ctx, state=state.name, side=side)
    return p


def pipeline(ctx, p, side, pstate=None):
    """a pipeline of that pool in any state"""
    pid = suuid("pid")
    if side == "c":
        pl = call(ClientPowerShell, p, pipeline_id=pid)
        call(pl.add_command, "x")
    else:
        pl = call(ServerPipeline, p, pid)
    if pstate is None:
        pstate = list(IS)[ctx.choose(len(IS))]
    pl.state = pstate
    named(ctx, pstate=pstate.name)
    return pid, pl


def sent(p):
    """the messages queued since the pool was built"""
    b = peek(p, "_send_buffer")
    if type(b) is not SSeq:
        raise Unsupported("the send buffer was replaced")
    return b.tail


def body(m):
    """what a queued message carries: the Ser of the serialized value, or None for an empty body"""
    d = m.data if not isinstance_proxy(m) else None
    if not isinstance_proxy(d):
        return None
    segs = [s for s in d.segs if isinstance(s, BlobSeg)]
    return segs[0].b.src[1] if segs else None


def xfer(a, b):
    """everything a has queued is sent to b, which processes it; the events"""
    while True:
        d = call(a.data_to_send)
        if d is None:
            break
        call(b.receive_data, d)
    ev = []
    while True:
        e = call(b.next_event)
        if e is None:
            return ev
        ev.append(e)


def linked(ctx, **kw):
    """an opened client and server pool of one session, with any tables, counters and limits, nothing queued"""
    c, s = pool(ctx, "c", state=RS.Opened, buffer=False, **kw), pool(ctx, "s", state=RS.Opened, buffer=False, **kw)
    s.runspace_pool_id = c.runspace_pool_id
    return c, s

"""C12: secure strings."""
from contracts.session import *  # noqa
from contracts.crypto import *  # noqa
from contracts.C16 import same
import xml.etree.ElementTree as ET
Missing = psrpcore.MissingCipherError


def keyed(key):
    c = call(C.PSRemotingCrypto)
    call(c.register_key, key)
    return c


def derived(seg, x, seen=None):
    """does that text or byte segment carry x (or a part of it) in readable form: everything but the cipher text"""
    if isinstance(seg, (str, bytes)):
        return False
    if seg is x:
        return True
    src = seg.src if isinstance(seg, Txt) else seg.b.src if isinstance(seg, BlobSeg) else None
    if isinstance(seg, BlobSeg) and src and src[0] == "aes":
        return False
    if src is None:
        return False
    return any(carries(v, x) for v in src[1:])


def carries(v, x):
    v = payload(v)
    if type(v) in (SStr, SBytes):
        return any(derived(g, x) for g in v.segs)
    if isinstance(v, (Txt, Blob)):
        return v is x or bool(v.src) and v.src[0] != "aes" and any(carries(w, x) for w in v.src[1:])
    if isinstance(v, (tuple, list)):
        return any(carries(w, x) for w in v)
    return False


def parts(e):
    for n in e.iter():
        yield n.text
        yield n.tail
        for v in n.attrib.values():
            yield v


def plain(ctx):
    x = text("x")
    g = x.segs[0]
    if not isinstance(g, Txt):
        raise Unsupported("text")
    return x, g


def put(ctx, v):
    """the secure string on its own and inside other values"""
    k = ctx.choose(5)
    if k == 0:
        return v, lambda r: r
    if k == 1:
        return T.PSList(["a", v]), lambda r: r[1]
    if k == 2:
        return {"k": v}, lambda r: r["k"]
    if k == 3:
        o = T.PSObject()
        o.PSObject.extended_properties.append(T.PSNoteProperty("P", v))
        return o, lambda r: r.P
    return T.PSCredential("user", v), lambda r: r.Password


@contract("C12")
def round_trip(ctx):
    """every text under every session key: only cipher text leaves, the peer with the same key reads the text"""
    crypto(ctx)
    wire(ctx)
    x, g = plain(ctx)
    key = fresh_blob("key", n=32)
    value, get = put(ctx, call(T.PSSecureString, x))
    e = call(T.serialize, value, keyed(key))
    ctx.prove("the plain text is not in the document", not any(carries(p, g) for p in parts(e)))
    ctx.prove("one secure string element", len([n for n in e.iter() if n.tag == "SS"]) == 1)
    e = call(ET.fromstring, call(ET.tostring, e, encoding="unicode"))
    back = get(call(T.deserialize, e, keyed(key)))
    ctx.prove("type", type(back) is T.PSSecureString)
    ctx.prove("text", same(call(back.decrypt), x))
    ctx.prove("text again", same(call(back.decrypt), x))


@contract("C12")
def no_key(ctx):
    """without a session key nothing is serialized"""
    crypto(ctx)
    wire(ctx)
    x, g = plain(ctx)
    v = call(T.PSSecureString, x)
    value, get = put(ctx, v)
    ctx.prove("missing cipher error", raises(Missing, call, T.serialize, value, call(C.PSRemotingCrypto)) is not None)
    ctx.prove("still readable", same(call(v.decrypt), x))
    ctx.prove("missing cipher error again", raises(Missing, call, T.serialize, value, call(C.PSRemotingCrypto)) is not None)


@contract("C12")
def passed_on(ctx):
    """an encrypted value is passed on unchanged, also without a key"""
    crypto(ctx)
    wire(ctx)
    x, g = plain(ctx)
    key = fresh_blob("key", n=32)
    e = call(T.serialize, call(T.PSSecureString, x), keyed(key))
    enc = e.text
    back = call(T.deserialize, call(ET.fromstring, call(ET.tostring, e, encoding="unicode")), keyed(key))
    other = [call(C.PSRemotingCrypto), keyed(fresh_blob("other", n=32))][ctx.choose(2)]
    value, get = put(ctx, back)
    e2 = call(T.serialize, value, other)
    ss = [n for n in e2.iter() if n.tag == "SS"]
    ctx.prove("one element", len(ss) == 1)
    ctx.prove("cipher text unchanged", same(ss[0].text, enc))
    last = get(call(T.deserialize, call(ET.fromstring, call(ET.tostring, e2, encoding="unicode")), keyed(key)))
    ctx.prove("text", same(call(last.decrypt), x))


@contract("C12")
def nothing_queued(ctx):
    """a pool without the session key queues nothing for a secure string, whatever the operation"""
    crypto(ctx)
    wire(ctx)
    x, g = plain(ctx)
    c = call(ClientRunspacePool)
    c.state = RS.Opened
    c.their_capability = T.SessionCapability(PSVersion=T.PSVersion("2.0"), protocolversion=T.PSVersion("2.3"), SerializationVersion=T.PSVersion("1.1.0.1"))
    v, get = put(ctx, call(T.PSSecureString, x))
    pl = call(ClientPowerShell, c)
    call(pl.add_command, "cmd")
    op = ctx.choose(3)
    if op == 0:
        call(pl.add_parameter, "p", v)
        ctx.prove("missing cipher error", raises(Missing, call, pl.start) is not None)
        ctx.prove("not started", pl.state == IS.NotStarted)
    elif op == 1:
        pl.state = IS.Running
        c.pipeline_table[pl.pipeline_id] = pl
        ctx.prove("missing cipher error", raises(Missing, call, pl.send, v) is not None)
    else:
        c2 = call(ClientRunspacePool, application_arguments={"a": v})
        ctx.prove("missing cipher error", raises(Missing, call, c2.open) is not None)
        ctx.prove("not opening", c2.state == RS.BeforeOpen)
        ctx.prove("nothing queued", call(c2.data_to_send) is None)
    ctx.prove("nothing queued", call(c.data_to_send) is None)


@contract("C12")
def password_text(ctx):
    """the password of a credential is a secure string, also when it is given or set as plain text"""
    crypto(ctx)
    wire(ctx)
    x, g = plain(ctx)
    if ctx.choose(2):
        cred = call(T.PSCredential, "user", x) if ctx.choose(2) else call(T.PSCredential, UserName="user", Password=x)
    else:
        cred = call(T.PSCredential, "user", "first")
        call(setattr, cred, "Password", x)
    ctx.prove("secure string", type(call(getattr, cred, "Password")) is T.PSSecureString)
    ctx.prove("missing cipher error", raises(Missing, call, T.serialize, cred, call(C.PSRemotingCrypto)) is not None)
    key = fresh_blob("key", n=32)
    e = call(T.serialize, cred, keyed(key))
    ctx.prove("the plain text is not in the document", not any(carries(p, g) for p in parts(e)))
    back = call(T.deserialize, call(ET.fromstring, call(ET.tostring, e, encoding="unicode")), keyed(key))
    ctx.prove("text", same(call(call(getattr, back, "Password").decrypt), x))


@contract("C12")
def two_keys(ctx):
    """one secure string sent in two sessions: each time it is encrypted under that session's key, and the peer of that session reads the text"""
    crypto(ctx)
    wire(ctx)
    x, g = plain(ctx)
    v = call(T.PSSecureString, x)
    value, get = put(ctx, v)
    for name in ("key", "other"):
        key = fresh_blob(name, n=32)
        e = call(T.serialize, value, keyed(key))
        ctx.prove("the plain text is not in the document", not any(carries(p, g) for p in parts(e)))
        back = get(call(T.deserialize, call(ET.fromstring, call(ET.tostring, e, encoding="unicode")), keyed(key)))
        ctx.prove("text", same(call(back.decrypt), x))
    ctx.prove("missing cipher error without a key", raises(Missing, call, T.serialize, value, call(C.PSRemotingCrypto)) is not None)

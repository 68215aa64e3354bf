"""C07: scalar values through serialize, the XML text and deserialize."""
from contracts.lib import *  # noqa
from contracts.C16 import same
import decimal
import xml.etree.ElementTree as ET

CIPHER = sys.modules["psrpcore._crypto"].PSRemotingCrypto()
INTS = ("PSSByte", "PSByte", "PSInt16", "PSUInt16", "PSInt", "PSUInt", "PSInt64", "PSUInt64")


def cls_of(v):
    return v._vc_cls if type(v) is SymObj else v.__class__


def trip(v, nested=0):
    e = call(T.serialize, v, CIPHER)
    e = call(ET.fromstring, call(ET.tostring, e, encoding="unicode"))
    return call(T.deserialize, e, CIPHER)


def places(ctx, v):
    """the value on its own, as list element, as dictionary value and as note property, each time through the XML text"""
    k = ctx.choose(4)
    if k == 0:
        return trip(v)
    if k == 1:
        r = trip(T.PSList([1, v, "z"]))
        ctx.prove("list length", len(r) == 3)
        return r[1]
    if k == 2:
        return trip(T.PSDict({"a": 1, "k": v}))["k"]
    o = T.PSObject()
    o.PSObject.extended_properties.append(T.PSNoteProperty("P", v))
    return trip(o).P


def typed(ctx, back, cls):
    ctx.prove("type", cls_of(back) is cls)


def _ints(n):
    cls = getattr(T, n)

    def f(ctx):
        wire(ctx)
        x = SInt(ctx.int("x", cls.MinValue, cls.MaxValue))
        named(ctx, x=x)
        b = places(ctx, call(cls, x))
        typed(ctx, b, cls)
        ctx.prove("value", eqb(b, x))
    f.__doc__ = "every %s" % n
    contract("C07", name="int_" + n)(f)


for _n in INTS:
    _ints(_n)


@contract("C07")
def plain_int(ctx):
    """every plain integer of 64 signed bits: 32 bits when it fits, else 64"""
    wire(ctx)
    x = SInt(ctx.int("x", -2 ** 63, 2 ** 63 - 1))
    named(ctx, x=x)
    b = places(ctx, x)
    small = z3.And(x.expr >= -2 ** 31, x.expr < 2 ** 31)
    ctx.prove("type", z3.If(small, z3.BoolVal(cls_of(b) is T.PSInt), z3.BoolVal(cls_of(b) is T.PSInt64)))
    ctx.prove("value", eqb(b, x))


@contract("C07")
def boolean_null(ctx):
    """true, false and null"""
    wire(ctx)
    if ctx.choose(2):
        ctx.prove("null", places(ctx, None) is None)
        return
    x = SBool(ctx.bool("x"))
    b = places(ctx, x)
    ctx.prove("type", type(b) in (bool, SBool))
    ctx.prove("value", eqb(b, x))


@contract("C07")
def char(ctx):
    """every UTF-16 code unit"""
    wire(ctx)
    x = SInt(ctx.int("x", 0, 65535))
    named(ctx, x=x)
    v = call(T.PSChar, x)
    b = places(ctx, v)
    typed(ctx, b, T.PSChar)
    ctx.prove("value", eqb(call(int, b), x))


@contract("C07")
def byte_string(ctx):
    """every byte string"""
    wire(ctx)
    x = blob("x", 0)
    v = x if ctx.choose(2) else call(T.PSByteArray, x)
    b = places(ctx, v)
    typed(ctx, b, T.PSByteArray)
    ctx.prove("value", same(b, x))


@contract("C07")
def guid(ctx):
    """every GUID"""
    wire(ctx)
    u = suuid("u")
    v = [u, call(T.PSGuid, u)][ctx.choose(2)]
    b = places(ctx, v)
    typed(ctx, b, T.PSGuid)
    ctx.prove("value", eqb(b.int, u.int))


@contract("C07")
def version(ctx):
    """every version of two, three or four parts"""
    wire(ctx)
    n = ctx.choose(3) + 2
    xs = [SInt(ctx.int("v%d" % i, 0, 2 ** 31 - 1)) for i in range(n)]
    b = places(ctx, call(T.PSVersion, **dict(zip(("major", "minor", "build", "revision"), xs))))
    typed(ctx, b, T.PSVersion)
    for i, k in enumerate(("major", "minor", "build", "revision")):
        got = getattr(b, k)
        ctx.prove(k, eqb(got, xs[i]) if i < n else got is None)


@contract("C07")
def floating(ctx):
    """every finite floating point number"""
    wire(ctx, opaque=False)
    x = Opaque("x", cls=float)
    i = ctx.choose(3)
    v = x if i == 0 else call((T.PSSingle, T.PSDouble)[i - 1], x)
    b = places(ctx, v)
    typed(ctx, b, (T.PSSingle, T.PSSingle, T.PSDouble)[i])
    ctx.prove("value", payload(b) is x)


@contract("C07")
def decimals(ctx):
    """every finite decimal number"""
    wire(ctx, opaque=False)
    x = Opaque("x", cls=decimal.Decimal)
    v = x if ctx.choose(2) else call(T.PSDecimal, x)
    b = places(ctx, v)
    typed(ctx, b, T.PSDecimal)
    ctx.prove("value", payload(b) is x)


def _texts(n):
    cls = getattr(T, n)

    def f(ctx):
        wire(ctx)
        x = text("x")
        b = places(ctx, call(cls, x))
        typed(ctx, b, cls)
        ctx.prove("value", same(b, x))
    f.__doc__ = "every %s" % n
    contract("C07", name="text_" + n)(f)


for _n in ("PSString", "PSUri", "PSXml", "PSScriptBlock"):
    _texts(_n)


@contract("C07")
def plain_text(ctx):
    """every plain string comes back as a string value"""
    wire(ctx)
    x = text("x")
    b = places(ctx, x)
    typed(ctx, b, T.PSString)
    ctx.prove("value", same(b, x))

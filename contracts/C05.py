"""C05: escaping of text."""
from contracts.lib import *  # noqa
from vc import stream

S = sys.modules["psrpcore.types._serializer"]
PARTS = 8


def safe(c):
    """XML 1.0 carries it unchanged in an element and in an attribute, written as it is or as a reference to & < > and quotes"""
    return "\x20" <= c <= "\ud7ff" or "\ue000" <= c <= "\ufffd" or c >= "\U00010000"


def _escape(part):
    def f(ctx):
        x = stream.fresh()
        e = call(S._serialize_string, x)
        b = call(S._deserialize_string, e)
        if type(e) is not stream.Stream or type(b) is not stream.Stream:
            raise Unsupported("the text left the stream: %s" % type(b).__name__)
        try:
            n = stream.decide(b, len(e.stages), safe, part, PARTS)
        except stream.Bad as ex:
            ctx.inputs["text"] = [ord(c) for c in ex.text]
            ctx.prove("serialized text is safe for XML", not ex.what.startswith("character"))
            ctx.prove("code units unchanged", False)
            return
        ctx.eng.log.append("%d states, %d transitions, %d characters" % n)
        ctx.prove("serialized text is safe for XML", True)
        ctx.prove("code units unchanged", True)
    f.__doc__ = "every string of every length; part %d of %d of the enumerated characters" % (part + 1, PARTS)
    contract("C05", name="escape_%d" % part, budget=120)(f)


for _i in range(PARTS):
    _escape(_i)


def back(ctx, v):
    from contracts.C07 import trip
    return trip(v)


def _place(f):
    contract("C05", name="place_" + f.__name__)(f)


@_place
def value(ctx):
    """text as a value: on its own, in a list, queue or stack, as dictionary key and value, as a property"""
    from contracts.C16 import same
    wire(ctx)
    x = text("x")
    v = [x, call(T.PSString, x)][ctx.choose(2)]
    k = ctx.choose(5)
    if k == 0:
        b = back(ctx, v)
    elif k == 1:
        b = back(ctx, [T.PSList, T.PSStack][ctx.choose(2)]([v]))[0]
    elif k == 2:
        b = back(ctx, T.PSDict({"k": v}))["k"]
    elif k == 3:
        d = call(T.PSDict)
        call(d.__setitem__, v, 1)
        b = list(call(back(ctx, d).keys))[0]
    else:
        o = T.PSObject()
        o.PSObject.extended_properties.append(T.PSNoteProperty("P", v))
        b = back(ctx, o).P
    ctx.prove("text", same(b, x))


@_place
def property_name(ctx):
    """names of extended and adapted properties"""
    from contracts.C16 import same
    wire(ctx)
    x = text("x")
    o = T.PSCustomObject()
    where = ["extended_properties", "adapted_properties"][ctx.choose(2)]
    getattr(o.PSObject, where).append(T.PSNoteProperty(x, 1))
    b = getattr(back(ctx, o).PSObject, where)
    ctx.prove("one property", len(b) == 1)
    ctx.prove("name", same(b[0].name, x))


@_place
def string_representation(ctx):
    """ToString of an object"""
    from contracts.C16 import same
    wire(ctx)
    x = text("x")
    ctx.assume(x.zlen() >= 1)
    o = T.PSObject()
    o.PSObject.to_string = x
    ctx.prove("string representation", same(back(ctx, o).PSObject.to_string, x))


@_place
def attribute_name(ctx):
    """the names of the attributes of a plain Python object"""
    from contracts.C16 import same
    wire(ctx)
    x = text("x")

    class Plain:
        pass
    v = Plain()
    v.a_name = 1
    RT.stub(dir, lambda fn, a, k: [x] if a[0] is v else fn(*a))
    RT.stub(getattr, lambda fn, a, k: 1 if a[0] is v and a[1] is x else fn(*a))
    b = back(ctx, v).PSObject.extended_properties
    if x == "PSObject" or x.startswith("__") or x.startswith("_Plain__"):  # not part of the object
        return
    ctx.prove("name", len(b) == 1 and same(b[0].name, x))


def _typed(n):
    def f(ctx):
        from contracts.C16 import same
        wire(ctx)
        x = text("x")
        ctx.prove("text", same(back(ctx, call(getattr(T, n), x)), x))
    f.__doc__ = "the text of a " + n
    contract("C05", name="place_" + n)(f)


for _n in ("PSUri", "PSXml", "PSScriptBlock"):
    _typed(_n)


@_place
def progress(ctx):
    """the texts of a progress record"""
    from contracts.C16 import same
    wire(ctx)
    xs = {k: text(k) for k in ("Activity", "CurrentOperation", "StatusDescription")}
    b = back(ctx, call(T.ProgressRecord, ActivityId=1, ParentActivityId=2, **xs))
    for k, x in xs.items():
        ctx.prove(k, same(getattr(b, k), x))

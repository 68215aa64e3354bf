"""Shared by the contract files."""
import sys
import uuid
import z3
from vc.api import contract
from vc.core import Unsupported, PathEnd
from vc.values import *  # noqa
from vc.values import lindiv, IntSeg, UuidSeg, BlobSeg, Blob, Txt, Fix, Dec, td_us, mktd
from vc.rt import RT, HOOKS
from vc.models import assumed, fmt
import psrpcore
import psrpcore.types as T

P = sys.modules["psrpcore._payload"]
call = HOOKS.call


def named(ctx, **kw):
    """remember symbolic inputs for the replay"""
    ctx.inputs.update(kw)


def raises(exc, f, *a, **k):
    """the exception of class exc raised by f(*a), or None"""
    try:
        f(*a, **k)
    except exc as e:
        return e
    return None


def eqb(a, b):
    """equality as formula or bool, both sides symbolic or not"""
    r = a == b
    if r is NotImplemented:
        return False
    return r.expr if type(r) is SBool else bool(r)


def poke(obj, name, value, start=None):
    """Sets internal state the contract quantifies over.  The attribute has to exist and (when given) to hold the documented start
    value, otherwise the representation is not the one the contract was written for and the contract is undecided."""
    d = getattr(obj, "__dict__", {})
    if name not in d:
        raise Unsupported("no attribute %s on %s (representation changed)" % (name, type(obj).__name__))
    if start is not None and (type(d[name]) is not type(start) or d[name] != start):
        raise Unsupported("attribute %s of %s starts as %r (representation changed)" % (name, type(obj).__name__, d[name]))
    setattr(obj, name, value)


def peek(obj, name):
    d = getattr(obj, "__dict__", {})
    if name not in d:
        raise Unsupported("no attribute %s on %s (representation changed)" % (name, type(obj).__name__))
    return d[name]


def wire(ctx, strings=True, opaque=True, ints=True):
    """Callee contracts of the serializer: strings are escaped and unescaped (property C05), a nested value about which nothing is
    known is written as some element that reads back as that value (the induction hypothesis of property C10)."""
    import xml.etree.ElementTree as ET
    RT.lazy_int_text = ints  # str(int) is kept as a whole; int(str(n)) == n
    S = sys.modules["psrpcore.types._serializer"]

    def esc(fn, a, k):
        x = payload(a[0])
        if type(x) is not SStr:
            return fn(*a, **k)
        if all(isinstance(s, Txt) and s.xmlsafe == "ascii" or isinstance(s, (Dec, Fix)) for s in x.segs):
            return x
        t = Txt("escaped", src=("esc", x), xmlsafe=True)
        try:
            ctx_of().assume(t.len >= x.zlen())
            ctx_of().assume((t.len == 0) == (z3.IntVal(0) + x.zlen() == 0))
        except Unsupported:
            ctx_of().assume(t.len >= 1)
        return SStr([t])

    def unesc(fn, a, k):
        x = payload(a[0])
        if type(x) is not SStr:
            return fn(*a, **k)
        if len(x.segs) == 1 and isinstance(x.segs[0], Txt) and x.segs[0].src and x.segs[0].src[0] == "esc":
            return x.segs[0].src[1]
        if not x.segs:
            return ""
        return SStr([Txt("unescaped", src=("unesc", x))])
    if strings:
        for n, f in (("_serialize_string", esc), ("_deserialize_string", unesc)):
            if not callable(getattr(S, n, None)):
                raise Unsupported("no %s in the serializer" % n)
            RT.stub(getattr(S, n), f)
        assumed("escaping", "_deserialize_string(_serialize_string(s)) == s and the escaped text is XML safe (property C05)")
    if opaque:
        cls = getattr(S, "_Serializer", None)
        if cls is None:
            raise Unsupported("no _Serializer")

        def ser(fn, a, k):
            if len(a) > 1 and type(a[1]) is Opaque:
                e = ET.Element("VcOpaque")
                e.text = a[1]
                return e
            return fn(*a, **k)

        def des(fn, a, k):
            if len(a) > 1 and isinstance(a[1], ET.Element) and a[1].tag == "VcOpaque":
                return a[1].text
            return fn(*a, **k)
        RT.stub(cls.serialize, ser)
        RT.stub(cls.deserialize, des)


def ctx_of():
    return RT.ctx

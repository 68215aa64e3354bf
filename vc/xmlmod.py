"""ElementTree on trees that carry symbolic text.

Real Element objects are used; symbolic text sits in .text and .attrib.  tostring gives opaque bytes/text that remember the tree,
fromstring of exactly those gives the tree back as an XML parser would (assumed: ElementTree's writer and parser are inverse on trees
whose text is XML safe; text that is not known to be XML safe comes back as an unrelated text).
"""
import re
import xml.etree.ElementTree as ET
import z3
from .core import Unsupported
from . import runs
from .values import (Proxy, SBytes, SStr, SymObj, Opaque, Txt, Dec, Fix, Blob, BlobSeg, blob, ctx, isinstance_proxy, mkstr, payload)
from .models import func, NATIVE, assumed, deep_sym

UNSAFE = re.compile("[\x00-\x1f\ud800-\udfff\ufffe\uffff]")


def has_proxy(el):
    for e in el.iter():
        if isinstance_proxy(e.text) or any(isinstance_proxy(v) for v in e.attrib.values()):
            return True
    return False


def parsed_text(t):
    """the text an XML parser reads back"""
    t = payload(t)
    if t is None:
        return None
    if not isinstance_proxy(t) and isinstance(t, str):
        t = str.__str__(t)
        if UNSAFE.search(t):
            raise Unsupported("text that XML cannot carry")
        return t or None
    if type(t) is Opaque:
        return t
    if type(t) is SStr:
        out = []
        for s in t.segs:
            if isinstance(s, str):
                if UNSAFE.search(s):
                    raise Unsupported("text that XML cannot carry")
            elif isinstance(s, Txt) and not s.xmlsafe:
                s = Txt("raw", src=("xmlraw", s))
            out.append(s)
        r = mkstr(out)
        return r if r else None
    raise Unsupported("text of type %s in an element" % type(t).__name__)


def parse_copy(el):
    new = ET.Element(el.tag)
    for k, v in el.attrib.items():
        p = parsed_text(v)
        new.attrib[k] = "" if p is None else p
    new.text = parsed_text(el.text)
    for c in el:
        new.append(parse_copy(c))
    runs.copied(el, new)
    return new


def has_own_proxy(el):
    return isinstance_proxy(el.text) or any(isinstance_proxy(v) for v in el.attrib.values())


class Tree:
    """what tostring was given, as it was at that time"""

    def __init__(self, el):
        self.el = copy(el)


def copy(el):
    new = ET.Element(el.tag)
    for k, v in el.attrib.items():
        new.attrib[k] = v
    new.text = el.text
    for c in el:
        new.append(copy(c))
    runs.copied(el, new)
    return new


@func(ET.tostring)
def _tostring(f, a, k):
    el = a[0]
    if not isinstance(el, ET.Element):
        return NATIVE
    if not has_proxy(el):
        return NATIVE
    enc = a[1] if len(a) > 1 else k.get("encoding")
    assumed("xml", "xml.etree.ElementTree: fromstring(tostring(tree)) is the tree, for trees whose text is XML safe (CPython / expat)")
    if enc == "unicode" and len(el) and not el.text and not has_own_proxy(el):
        # <tag attributes> as real text, the children as one opaque text, </tag>
        shell = ET.Element(el.tag, dict(el.attrib))
        head = ET.tostring(shell, encoding="unicode", short_empty_elements=False)
        close = "</%s>" % el.tag
        if head.endswith(close):
            t = Txt("xmlbody", src=("xmlbody", Tree(el)))
            ctx().assume(t.len >= 4)
            return SStr([head[:-len(close)], t, close])
    if enc == "unicode":
        t = Txt("xml", src=("xml", Tree(el)))
        ctx().assume(t.len >= 4)
        return SStr([t])
    assumed("message-size", "the XML of one message is shorter than 2 GiB")
    b = blob("xml", 4, 2 ** 31, src=("xml", Tree(el)), utf8=True)
    ctx().assume(b.segs[0].b.fn(0) == 0x3c)
    return b


@func(ET.fromstring)
def _fromstring(f, a, k):
    x = payload(a[0])
    if not isinstance_proxy(x):
        return NATIVE
    src = None
    if type(x) is SBytes and len(x.segs) == 1 and isinstance(x.segs[0], BlobSeg):
        s = x.segs[0]
        if s.b.src and s.b.src[0] == "xml" and ctx().valid(z3.And(z3.IntVal(0) + s.s == 0, z3.IntVal(0) + s.n == s.b.len)):
            src = s.b.src
    elif type(x) is SStr and len(x.segs) == 1 and isinstance(x.segs[0], Txt) and x.segs[0].src and x.segs[0].src[0] == "xml":
        src = x.segs[0].src
    elif type(x) is SStr and len(x.segs) == 3 and isinstance(x.segs[0], str) and isinstance(x.segs[2], str) and isinstance(x.segs[1], Txt) \
            and x.segs[1].src and x.segs[1].src[0] == "xmlbody":
        try:
            root = ET.fromstring(x.segs[0] + x.segs[2])
        except ET.ParseError:
            raise Unsupported("parsing of symbolic XML with a broken start")
        if root.text or len(root):
            raise Unsupported("parsing of symbolic XML with more in front")
        if root.tag.startswith("{"):
            raise Unsupported("namespaces")
        for c in x.segs[1].src[1].el:
            root.append(parse_copy(c))
        return root
    if src is None:
        if type(x) is SBytes and all(isinstance(s, bytes) for s in x.segs):
            return ET.fromstring(b"".join(x.segs))
        raise Unsupported("parsing of symbolic XML")
    return parse_copy(src[1].el)

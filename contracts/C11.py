"""C11: serialization leaves the value alone."""
from contracts.lib import *  # noqa
from contracts.C10 import opq, items
import collections
import enum
import queue
import types as pytypes
import xml.etree.ElementTree as ET

S = sys.modules["psrpcore.types._serializer"]


class Cipher(T.PSCryptoProvider):
    """some provider: the text it gives depends on the value only"""
    def encrypt(self, value):
        return "ENC"


CIPHER = Cipher()


class Boom(Exception):
    pass


def bad(n="bad"):
    return Opaque(n, src="raise")


def deep(x, memo=None):
    """everything reachable from the value: changes when anything in it is replaced, added, removed or reordered"""
    memo = {} if memo is None else memo
    if isinstance_proxy(x):
        if type(x) is SymObj:
            if id(x) in memo:
                return ("seen", memo[id(x)])
            memo[id(x)] = len(memo)
            return ("sym", id(x), deep(x._vc_payload, memo), deep(x._vc_dict, memo))
        if type(x) in (SStr, SBytes):
            return ("segs", tuple((s if isinstance(s, (str, bytes)) else id(s)) for s in x.segs))
        return ("term", x.expr.get_id()) if type(x) in (SInt, SBool) else ("proxy", id(x))
    if x is None or type(x) in (int, str, bytes, float, bool) or issubclass(type(x), (type, pytypes.FunctionType, enum.Enum)):
        return (type(x).__name__, x if type(x) in (int, str, bytes, bool) else id(x))
    if id(x) in memo:
        return ("seen", memo[id(x)])
    memo[id(x)] = len(memo)
    if issubclass(type(x), collections.deque):
        return ("deque", id(x), tuple(deep(y, memo) for y in x))
    if issubclass(type(x), queue.Queue):
        out = ["queue", id(x), deep(x.queue, memo), x.unfinished_tasks if False else 0, x.maxsize]
    elif issubclass(type(x), list):
        out = ["list", id(x), tuple(deep(y, memo) for y in list.__iter__(x))]
    elif issubclass(type(x), tuple):
        out = ["tuple", tuple(deep(y, memo) for y in tuple.__iter__(x))]
    elif issubclass(type(x), dict):
        out = ["dict", id(x), tuple((deep(k, memo), deep(v, memo)) for k, v in dict.items(x))]
    elif type(x).__module__ in ("_thread", "threading"):
        return ("lock",)
    else:
        out = [type(x).__name__, id(x)]
    try:
        d = object.__getattribute__(x, "__dict__")
    except AttributeError:
        d = {}
    out.append(tuple((k, deep(v, memo)) for k, v in sorted(d.items()) if not issubclass(type(x), queue.Queue) or k in ("PSObject",)))
    return tuple(out)


def tree(e):
    """a serialized tree as a value"""
    def arg(y):
        return tuple(arg(z) for z in y) if type(y) in (tuple, list) else t(y) if isinstance_proxy(y) or isinstance(y, (str, int, bytes)) else id(y)

    def t(x):
        x = payload(x)
        if isinstance_proxy(x):
            if type(x) in (SStr, SBytes):
                out = []
                for s in x.segs:
                    if isinstance(s, Txt) and s.src:  # a function of what it was made from
                        out.append((s.src[0],) + tuple(arg(y) for y in s.src[1:]))
                    elif isinstance(s, (str, bytes)):
                        out.append(s)
                    elif isinstance(s, Dec):
                        out.append(("dec", z3.simplify(s.v).get_id() if isinstance(s.v, z3.ExprRef) else s.v))
                    else:
                        out.append(id(s))
                return tuple(out)
            return ("t", x.expr.get_id()) if type(x) in (SInt, SBool) else ("p", id(x))
        return x
    return (e.tag, tuple((k, t(v)) for k, v in e.attrib.items()), t(e.text), tuple(tree(c) for c in e))


def stubs(ctx):
    wire(ctx)
    cls = S._Serializer

    def ser(fn, a, k):
        if len(a) > 1 and type(a[1]) is Opaque:
            if a[1].src == "raise":
                raise Boom()
            e = ET.Element("VcOpaque")
            e.text = a[1]
            return e
        return fn(*a, **k)
    RT.stub(cls.serialize, ser)


def unchanged(ctx, v, fails=False):
    before = deep(v)
    res = []
    for i in range(2):
        try:
            res.append(tree(call(T.serialize, v, CIPHER)))
        except Boom:
            res.append("failed")
        ctx.prove("value unchanged", deep(v) == before)
    ctx.prove("the failure is passed on" if fails else "no failure", (res[0] == "failed") == fails)
    ctx.prove("same result again", res[0] == res[1])


def elements(ctx, fails):
    n = ctx.choose(3)
    xs = [opq("x%d" % i) for i in range(n)]
    if fails:
        xs.insert(ctx.choose(n + 1), bad())
    return xs


def _containers(fails):
    def f(ctx):
        stubs(ctx)
        k = ctx.choose(8)
        xs = elements(ctx, fails)
        if k < 3:
            v = [T.PSList, T.PSStack, T.PSIEnumerable][k](xs)
        elif k == 3:
            v = list(xs)
        elif k < 6:
            v = (T.PSQueue if k == 4 else [queue.Queue, queue.LifoQueue][ctx.choose(2)])(maxsize=[0, 5][ctx.choose(2)])
            for x in xs:
                v.queue.append(x)
        else:
            v = [T.PSDict, dict][k - 6]()
            for i, x in enumerate(xs):
                dict.__setitem__(v, "k%d" % i, x)
        if k in (0, 1, 2, 4, 6) and ctx.choose(2):
            v.PSObject.extended_properties.append(T.PSNoteProperty("p", opq("p")))
        unchanged(ctx, v, fails)
    f.__doc__ = "containers of arbitrary values" + (", one of which cannot be serialized" if fails else "")
    contract("C11", name="containers" + ("_failing" if fails else ""), bounded="up to 2 elements" + (" and the failing one" if fails else ""))(f)


_containers(False)
_containers(True)


def _objects(fails):
    def f(ctx):
        stubs(ctx)
        o = [lambda: T.PSObject(), lambda: T.PSCustomObject(), lambda: T.PSString("s"), lambda: T.PSInt(3), lambda: T.PSQueue(), lambda: T.PSList([1])][ctx.choose(6)]()
        if isinstance(o, queue.Queue):
            o.queue.append(1)
        names = [["T.A", "T.B"], ["T.A", "T.A", "T.B", "T.A"], ["Deserialized.T.A", "T.A"]][ctx.choose(3)]
        if ctx.choose(2):
            o.PSObject.type_names = names
            o.PSObject.to_string = text("to_string")
        x = bad() if fails else opq("x")
        props = [T.PSNoteProperty("N", opq("y")), T.PSNoteProperty("P", x), T.PSAliasProperty("A", "P"), T.PSScriptProperty("Q", lambda s: s.P)]
        w = [o.PSObject.adapted_properties, o.PSObject.extended_properties][ctx.choose(2)]
        for p in props:
            w.append(p)
        unchanged(ctx, T.PSList([o, o]), fails)
    f.__doc__ = "objects with note, alias and script properties, type names and a string representation" + (", one value cannot be serialized" if fails else "")
    contract("C11", name="objects" + ("_failing" if fails else ""), bounded="4 properties")(f)


_objects(False)
_objects(True)


RANGE = {T.PSInt: (-(1 << 31), (1 << 31) - 1), T.PSUInt: (0, (1 << 32) - 1), T.PSInt64: (-(1 << 63), (1 << 63) - 1), T.PSUInt64: (0, (1 << 64) - 1),
         T.PSInt16: (-(1 << 15), (1 << 15) - 1), T.PSUInt16: (0, (1 << 16) - 1), T.PSByte: (0, 255), T.PSSByte: (-128, 127)}


def some(ctx, name):
    """any non-empty sequence of values"""
    from vc.runs import Run
    return Run(ctx, lambda a: a.opaque(name)).elem


def sample(ctx, ps_type, depth=0, name="v"):
    """an arbitrary value of a declared property type"""
    if ps_type is None or ps_type is T.PSObject:
        return Opaque(name, truth=ctx.bool("truth_" + name))
    if issubclass(ps_type, enum.Enum):
        m = list(ps_type)
        v = ctx.c11_vary
        return m[ctx.choose(len(m))] if depth == 0 and (v is None or v == name) else m[0]
    if ps_type in RANGE:
        return SInt(ctx.int(name, *RANGE[ps_type]))
    if ps_type in (T.PSString, T.PSUri, T.PSScriptBlock):
        return text(name) if depth == 0 else "text of " + name
    if ps_type is T.PSChar:
        return SInt(ctx.int(name, 0, 65535))
    if ps_type is T.PSGuid:
        return suuid(name)
    if ps_type is T.PSVersion:
        return T.PSVersion("1.2") if depth else call(T.PSVersion, major=SInt(ctx.int(name + "_major", 0)), minor=SInt(ctx.int(name + "_minor", 0)))
    if ps_type is T.PSDateTime:
        return T.PSDateTime(2020, 1, 2)
    if ps_type is T.PSSecureString:
        return call(T.PSSecureString, text(name)) if depth == 0 else T.PSSecureString("s")
    if ps_type is T.PSByteArray:
        return T.PSByteArray(b"ab") if depth else call(T.PSByteArray, blob(name, 0))
    if issubclass(ps_type, dict):
        from vc.runs import Run
        d = ps_type()
        k, x = Run(ctx, lambda a: (a.opaque("key", src="key"), a.opaque(name))).elem
        RT.ctx.run_segs[id(k)] = k  # the key stands for the entry
        dict.__setitem__(d, k, x)
        return d
    if issubclass(ps_type, list):
        return ps_type([some(ctx, name)])
    if issubclass(ps_type, queue.Queue):
        from vc.runs import RunDeque
        q = ps_type()
        if type(q.queue) is not collections.deque:
            raise Unsupported("a queue that is no deque")
        q.queue = RunDeque([some(ctx, name)])
        return q
    if ps_type is bool:
        return SBool(ctx.bool(name)) if depth == 0 else True
    return build(ctx, ps_type, depth + 1)


def enums(cls):
    """{property: number of members}"""
    return {p.name: len(list(p.ps_type)) for p in list(cls.PSObject.adapted_properties) + list(cls.PSObject.extended_properties)
            if isinstance(p.ps_type, type) and issubclass(p.ps_type, enum.Enum)}


def product(e):
    n = 1
    for k in e.values():
        n *= k
    return n <= 70


def limits(cls, depth=0):
    """what the sample of the class leaves out"""
    out = set()
    if depth > 4:
        return out
    if enums(cls):
        if depth:
            out.add("first members of enumerations in nested objects")
        elif not product(enums(cls)):
            out.add("one enumeration varies at a time")
    for p in list(cls.PSObject.adapted_properties) + list(cls.PSObject.extended_properties):
        t = p.ps_type
        if p.name == "Exception":
            t = T.NETException
        if not isinstance(t, type) or p.getter is not None and p.setter is None:
            continue
        if t is T.PSDateTime:
            out.add("one date")
        elif depth and (t is bool or t in (T.PSString, T.PSUri, T.PSScriptBlock, T.PSSecureString, T.PSVersion)):
            out.add("text, truth values and versions in nested objects are fixed")
        elif t is T.PSByteArray and depth:
            out.add("one byte string")
        elif issubclass(t, enum.Flag):
            out.add("single flags")
        elif issubclass(t, T.PSObject) and not issubclass(t, (enum.Enum, str, int, list, dict, queue.Queue)) and t is not T.PSObject and t is not cls:
            out |= limits(t, depth + 1)
    return out


def build(ctx, cls, depth=0):
    if depth > 4:
        return None
    if cls is T.ScriptExtent:
        fn = text("file")
        return call(cls, call(T.ScriptPosition, fn, 1, 2, "some text"), call(T.ScriptPosition, fn, 1, 5, ""))
    kw = {}
    for p in list(cls.PSObject.adapted_properties) + list(cls.PSObject.extended_properties):
        if p.getter is None or p.setter is not None:
            if p.name == "Exception":
                kw[p.name] = build(ctx, T.NETException, depth + 1)
                continue
            if p.name == "MyCommand":
                kw[p.name] = T.PSCustomObject(CommandType=1, Definition=text("definition"), Name=text("name"), Visibility=0) if ctx.choose(2) else None
                continue
            kw[p.name] = sample(ctx, p.ps_type, depth, p.name)
    return call(cls, **kw)


def package_classes():
    out = []
    for n in sorted(dir(T)):
        c = getattr(T, n)
        if isinstance(c, type) and issubclass(c, T.PSObject) and not issubclass(c, enum.Enum) and (c.PSObject.adapted_properties or c.PSObject.extended_properties) \
                and type(c).__name__ != "abc" and n not in ("PSObject",):
            out.append(n)
    return out


def _class(n):
    def f(ctx):
        stubs(ctx)
        e = enums(getattr(T, n))
        ctx.c11_vary = None if product(e) else list(e)[ctx.choose(len(e))]
        v = build(ctx, getattr(T, n))
        if hasattr(v, "serialize_extended_info"):
            v.serialize_extended_info = bool(ctx.choose(2))
        several = len(e) and product(e) and max(e.values()) > 20  # many paths: the list shape only
        unchanged(ctx, T.PSList([v, v]) if several or ctx.choose(2) else v)
    f.__doc__ = "every %s with arbitrary field values" % n
    contract("C11", name="class_" + n, bounded=", ".join(sorted(limits(getattr(T, n)))) or None)(f)


for _n in package_classes():
    _class(_n)


def _pipeline(ctx, fails):
    stubs(ctx)
    from psrpcore import PowerShell, Command
    from psrpcore._pipeline import GetMetadata
    if ctx.choose(3) == 0:
        v = call(GetMetadata, name=text("name"), arguments=[bad() if fails else opq("a"), opq("b")])
    else:
        v = call(PowerShell, history=text("h"))
        for i in range(ctx.choose(2) + 1):
            c = call(Command, text("cmd"))
            call(c.add_parameter, text("p"), opq("v"))
            call(c.add_argument, bad() if fails else opq("w"))
            c.end_of_statement = bool(ctx.choose(2))
            v.commands.append(c)
    unchanged(ctx, v, fails)


@contract("C11", bounded="up to 2 commands of 2 parameters")
def pipelines(ctx):
    """PowerShell and command metadata pipelines"""
    _pipeline(ctx, False)


@contract("C11", bounded="up to 2 commands of 2 parameters")
def pipelines_failing(ctx):
    """pipelines with an argument that cannot be serialized"""
    _pipeline(ctx, True)


def _any(fails):
    def f(ctx):
        from vc.runs import Run, RunDeque
        stubs(ctx)
        k = ctx.choose(8)
        r = Run(ctx, lambda a: (a.opaque("key", src="key"), a.opaque("x"))) if k >= 6 else Run(ctx, lambda a: a.opaque("x"))
        s = Run(ctx, lambda a: a.opaque("y")).elem
        xs = [r.elem, bad() if fails else opq("z"), s]
        if k < 3:
            v = [T.PSList, T.PSStack, T.PSIEnumerable][k](xs)
        elif k == 3:
            v = list(xs)
        elif k < 6:
            v = [T.PSQueue, queue.Queue][k - 4](maxsize=[0, 5][ctx.choose(2)])
            if type(v.queue) is not collections.deque:
                raise Unsupported("a queue that is no deque")
            v.queue = RunDeque(xs)
        else:
            v = [T.PSDict, dict][k - 6]()
            RT.ctx.run_segs[id(r.elem[0])] = r.elem[0]  # the key stands for the entry
            dict.__setitem__(v, r.elem[0], r.elem[1])
            dict.__setitem__(v, "k", xs[1])
        if k in (0, 1, 2, 4, 6) and ctx.choose(2):
            v.PSObject.extended_properties.append(T.PSNoteProperty("p", opq("p")))
        unchanged(ctx, v, fails)
    f.__doc__ = "containers with any number of arbitrary values" + (", one of which cannot be serialized" if fails else "")
    contract("C11", name="containers_any" + ("_failing" if fails else ""))(f)


_any(False)
_any(True)


@contract("C11")
def objects_any(ctx):
    """objects with any number of properties and type names"""
    from vc.runs import Run
    stubs(ctx)
    o = [lambda: T.PSObject(), lambda: T.PSCustomObject(), lambda: T.PSString("s"), lambda: T.PSInt(3)][ctx.choose(4)]()
    tn = Run(ctx, lambda a: a.text("tn")).elem
    o.PSObject.type_names = ["T.A", tn]
    for w in (o.PSObject.adapted_properties, o.PSObject.extended_properties):
        w.append(Run(ctx, lambda a: T.PSNoteProperty(a.text("name", distinct=True), a.opaque("value"))).elem)
    unchanged(ctx, o)

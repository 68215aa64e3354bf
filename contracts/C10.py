"""C10: structure, order, properties and references of object graphs."""
from contracts.lib import *  # noqa
from contracts.C07 import trip, cls_of
from contracts.C16 import same
import collections
import enum
import queue

S = sys.modules["psrpcore.types._serializer"]
SEQS = ("PSList", "PSStack", "PSIEnumerable")


def opq(n):
    return Opaque(n)


def is_(ctx, name, a, b):
    ctx.prove(name, payload(a) is payload(b) if isinstance_proxy(b) else a is b)


def items(v):
    """the elements of a restored container, read without the code under test"""
    if isinstance(v, queue.Queue):
        return list(v.queue)
    return list(list.__iter__(v)) if isinstance(v, list) else None


def empty_props(ctx, o):
    ctx.prove("no properties", not o.PSObject.adapted_properties and not o.PSObject.extended_properties)


@contract("C10")
def ref_id(ctx):
    """_get_ref_id, any earlier references: a known object gets its reference, any other a new number no object has"""
    from vc.colls import SMap
    s = S._Serializer(None)
    nxt = SInt(ctx.int("next", 0))
    poke(s, "_obj_ref_id", nxt, 0)
    other = ctx.int("other_ref", 0)
    ctx.assume(other < nxt.expr)
    holder = T.PSObject()
    m = SMap("refs", "int", value=lambda k: (SInt(other), holder))
    if "_obj_ref" not in s.__dict__ or type(s._obj_ref) is not dict or s._obj_ref:
        raise Unsupported("reference table (representation changed)")
    s._obj_ref = m
    v = T.PSObject()
    known = ctx.branch(m.base_has(id(v)))
    r, use = call(s._get_ref_id, v)
    ctx.prove("known objects are referred to", (use is True or use == True) == known)  # noqa
    if known:
        ctx.prove("the number of the object", eqb(r, SInt(other)))
    else:
        ctx.prove("a new number", eqb(r, nxt))
        ctx.prove("later numbers are greater", (SInt(z3.IntVal(0)) + s._obj_ref_id).expr > nxt.expr)
        r2, use2 = call(s._get_ref_id, v)
        ctx.prove("the same object again", eqb(r2, nxt) if use2 else False)
        w = T.PSObject()
        if not ctx.branch(m.base_has(id(w))):
            r3, use3 = call(s._get_ref_id, w)
            ctx.prove("another object", z3.And(z3.Not(z3.IntVal(0) + r3.expr == nxt.expr), z3.BoolVal(not use3)))


@contract("C10", bounded="up to 3 elements")
def sequences(ctx):
    """lists, stacks, enumerables and plain lists of arbitrary values"""
    wire(ctx)
    n = ctx.choose(4)
    xs = [opq("x%d" % i) for i in range(n)]
    k = ctx.choose(4)
    v = list(xs) if k == 3 else getattr(T, SEQS[k])(xs)
    b = trip(v)
    ctx.prove("kind", cls_of(b) is getattr(T, SEQS[k % 3]))
    got = items(b)
    ctx.prove("number of elements", len(got) == n)
    for i in range(n):
        is_(ctx, "element", got[i], xs[i])
    empty_props(ctx, b)


@contract("C10", bounded="up to 3 elements")
def queues(ctx):
    """PSQueue and queue.Queue of arbitrary values, of any maximal size"""
    wire(ctx)
    n = ctx.choose(4)
    xs = [opq("x%d" % i) for i in range(n)]
    v = [T.PSQueue, queue.Queue][ctx.choose(2)](maxsize=[0, 3, 10][ctx.choose(3)])
    for x in xs:
        v.queue.append(x)
    b = trip(v)
    ctx.prove("kind", cls_of(b) is T.PSQueue)
    got = items(b)
    ctx.prove("number of elements", len(got) == n)
    for i in range(n):
        is_(ctx, "element", got[i], xs[i])
    empty_props(ctx, b)


@contract("C10", bounded="up to 3 entries")
def dictionaries(ctx):
    """PSDict and dict: keys of text, numbers or objects, arbitrary values"""
    wire(ctx)
    n = ctx.choose(4)
    obj = T.PSCustomObject()
    keys = [["a", 7, obj], [T.PSInt64(3), "_x", T.PSGuid(int=5)], [T.PSString("K"), T.PSChar("c"), T.PSByteArray(b"k")]][ctx.choose(3)][:n]
    xs = [opq("x%d" % i) for i in range(n)]
    v = [T.PSDict, dict][ctx.choose(2)]()
    for k, x in zip(keys, xs):
        dict.__setitem__(v, k, x)
    b = trip(v)
    ctx.prove("kind", cls_of(b) is T.PSDict)
    got = list(dict.items(b))
    ctx.prove("number of entries", len(got) == n)
    for i in range(n):
        ctx.prove("key", type(got[i][0]) is type(keys[i]) and got[i][0] == keys[i] if not isinstance(keys[i], (str, T.PSCustomObject)) and type(keys[i]) is not int
                  else got[i][0] == keys[i] if not isinstance(keys[i], T.PSCustomObject) else isinstance(got[i][0], T.PSCustomObject))
        is_(ctx, "value", got[i][1], xs[i])
    empty_props(ctx, b)


PREFIXES = {"PSObject": ["System.Object"], "custom": None}


@contract("C10", bounded="up to 2 adapted and 2 extended properties")
def properties(ctx):
    """adapted and extended properties with any names and arbitrary values, on objects, containers and values"""
    wire(ctx)
    k = ctx.choose(8)
    o = [lambda: T.PSObject(), lambda: T.PSCustomObject(), lambda: T.PSList([1]), lambda: T.PSDict({"a": 1}), lambda: T.PSQueue(), lambda: T.PSString("s"),
         lambda: T.PSInt64(4), lambda: T.PSStack()][k]()
    na, ne = [(1, 0), (0, 1), (2, 1), (1, 2)][ctx.choose(4)]
    ad = [(text("a%d" % i), opq("av%d" % i)) for i in range(na)]
    ex = [(text("e%d" % i), opq("ev%d" % i)) for i in range(ne)]
    for n, _ in ad + ex:
        ctx.assume(n.zlen() >= 1)  # the empty name: place_property_name of C05
    for l in (ad, ex):
        if len(l) == 2:
            ctx.assume(z3.Not(eqb(l[0][0], l[1][0])))
    for l, w in ((ad, o.PSObject.adapted_properties), (ex, o.PSObject.extended_properties)):
        for n, x in l:
            w.append(T.PSNoteProperty(n, x))
    b = trip(o)
    ctx.prove("kind", cls_of(b) is type(o))
    for l, w, nm in ((ad, b.PSObject.adapted_properties, "adapted"), (ex, b.PSObject.extended_properties, "extended")):
        ctx.prove("number of %s properties" % nm, len(w) == len(l))
        for (n, x), p in zip(l, w):
            ctx.prove("name of %s property" % nm, same(p.name, n))
            is_(ctx, "value of %s property" % nm, call(p.get_value, b), x)
    ctx.prove("content", (items(b) == [1] if k == 2 else dict.items(b) == {"a": 1}.items() if k == 3 else items(b) == [] if k in (4, 7) else b == "s" if k == 5 else b == 4 if k == 6 else True))


def holders():
    """ways an object can hold another: (name, make, put, get, has identity)"""
    return [
        ("list", lambda: T.PSList(), lambda h, x: list.append(h, x), lambda h: items(h)[-1], False),
        ("stack", lambda: T.PSStack(), lambda h, x: list.append(h, x), lambda h: items(h)[-1], False),
        ("queue", lambda: T.PSQueue(), lambda h, x: h.queue.append(x), lambda h: items(h)[-1], True),
        ("dict", lambda: T.PSDict(), lambda h, x: dict.__setitem__(h, "k", x), lambda h: dict.__getitem__(h, "k"), False),
        ("enumerable", lambda: T.PSIEnumerable(), lambda h, x: list.append(h, x), lambda h: items(h)[-1], False),
        ("extended", lambda: T.PSCustomObject(), lambda h, x: h.PSObject.extended_properties.append(T.PSNoteProperty("p", x)), lambda h: prop(h, "extended"), True),
        ("adapted", lambda: T.PSObject(), lambda h, x: h.PSObject.adapted_properties.append(T.PSNoteProperty("p", x)), lambda h: prop(h, "adapted"), True),
        ("property of a list", lambda: T.PSList(), lambda h, x: h.PSObject.extended_properties.append(T.PSNoteProperty("p", x)), lambda h: prop(h, "extended"), False),
        ("property of text", lambda: T.PSString("t"), lambda h, x: h.PSObject.extended_properties.append(T.PSNoteProperty("p", x)), lambda h: prop(h, "extended"), True),
    ]


def prop(h, kind):
    ps = [p for p in getattr(h.PSObject, kind + "_properties") if p.name == "p"]
    return ps[-1].get_value(h)


@contract("C10", bounded="every pair of kinds of holder; one shared object")
def shared(ctx):
    """an object held twice by two different holders comes back as one; equal objects stay two"""
    wire(ctx)
    hs = holders()
    a, b = hs[ctx.choose(len(hs))], hs[ctx.choose(len(hs))]
    x = [lambda: T.PSCustomObject(), lambda: T.PSQueue(), lambda: T.PSObject()][ctx.choose(3)]
    x1 = x()
    one = ctx.choose(2) == 0
    x2 = x1 if one else x()
    if not one:
        ctx.prove("x", True)
    h1, h2 = a[1](), b[1]()
    a[2](h1, x1)
    b[2](h2, x2)
    # mutable holders have their identity too
    r = trip(T.PSList([h1, h2, x1, h1]))
    got = items(r)
    ctx.prove("four elements", len(got) == 4)
    g1, g2 = a[3](got[0]), b[3](got[1])
    ctx.prove("kind", type(g1) is type(x1) and type(g2) is type(x2) and type(got[0]) is type(h1) and type(got[1]) is type(h2))
    ctx.prove("same holder", got[0] is got[3] or not a[4])
    ctx.prove("object seen from its holder a second time", a[3](got[3]) is g1)
    ctx.prove("different holders", got[0] is not got[1])
    ctx.prove("object seen from its holder and directly", g1 is got[2])
    ctx.prove("one object stays one, two stay two", (g1 is g2) == one)


@contract("C10", bounded="cycles of length 1 and 2 through every kind of holder")
def cycles(ctx):
    """an object that holds itself, directly or through another"""
    wire(ctx)
    hs = holders()
    own = [h for h in hs if h[4]]
    a = own[ctx.choose(len(own))]
    h = a[1]()
    if ctx.choose(2):
        a[2](h, h)
        g = trip(h)
        ctx.prove("kind", type(g) is type(h))
        ctx.prove("holds itself", a[3](g) is g)
        return
    b = hs[ctx.choose(len(hs))]
    k = b[1]()
    a[2](h, k)
    b[2](k, h)
    g = trip(h)
    ctx.prove("kind", type(g) is type(h) and type(a[3](g)) is type(k))
    ctx.prove("back to the start", b[3](a[3](g)) is g)


@contract("C10", bounded="up to 2 type names")
def type_names_to_string(ctx):
    """type names and string representation of an object that is restored as a plain object"""
    wire(ctx)
    names = []
    for i in range(ctx.choose(2) + 1):
        names.append("My.Type%d" % i)
    o, p = T.PSCustomObject(), T.PSObject()
    ts = text("to_string")
    ctx.assume(ts.zlen() >= 1)
    o.PSObject.type_names = list(names)
    o.PSObject.to_string = ts
    x = opq("x")
    o.PSObject.extended_properties.append(T.PSNoteProperty("P", x))
    order = ctx.choose(2)
    got = items(trip(T.PSList([o, p] if order == 0 else [p, o])))
    bo, bp = (got[0], got[1]) if order == 0 else (got[1], got[0])
    ctx.prove("type names", list(bo.PSObject.type_names) == ["Deserialized." + n for n in names])
    ctx.prove("string representation", same(bo.PSObject.to_string, ts))
    is_(ctx, "property", bo.PSObject.extended_properties[0].get_value(bo), x)
    ctx.prove("the other object keeps its own", bp.PSObject.to_string is None and list(bp.PSObject.type_names) == ["Deserialized.System.Object"])


@contract("C10", bounded="one element, up to 2 type names")
def foreign_containers(ctx):
    """containers whose type nobody registered: the kind of container, content, properties and marked names, also when referenced twice or from inside"""
    wire(ctx)
    k = ctx.choose(5)
    x, y = opq("x"), opq("y")
    h = [T.PSList, T.PSStack, T.PSIEnumerable, T.PSDict, T.PSQueue][k]()
    names = ["My.Coll"] + (["My.Base"] if ctx.choose(2) else [])
    h.PSObject.type_names = list(names)
    inner = T.PSCustomObject()
    back = k == 4 and ctx.choose(2)
    if back:
        inner.PSObject.extended_properties.append(T.PSNoteProperty("up", h))
    for v in (x, inner):
        h.queue.append(v) if k == 4 else dict.__setitem__(h, "k%d" % len(h), v) if k == 3 else list.append(h, v)
    h.PSObject.extended_properties.append(T.PSNoteProperty("p", y))
    got = items(trip(T.PSList([h, h])))
    g = got[0]
    ctx.prove("kind", type(g) is type(h) and type(got[1]) is type(h))
    ctx.prove("same object", k != 4 or got[1] is g)
    ctx.prove("type names", list(g.PSObject.type_names) == ["Deserialized." + n for n in names])
    c = list(dict.values(g)) if k == 3 else items(g)
    ctx.prove("number of elements", len(c) == 2)
    is_(ctx, "element", c[0], x)
    is_(ctx, "property", prop(g, "extended"), y)
    ctx.prove("object inside", isinstance(c[1], T.PSObject))
    if back:
        ctx.prove("back to the container", c[1].PSObject.extended_properties[0].get_value(c[1]) is g)


def listed(m, b):
    """the known finding: BufferCellType carries the type name of ControlKeyStates"""
    return type(m) is T.BufferCellType and type(b) is T.ControlKeyStates and b.value == m.value


@contract("C10", bounded="every member of every enum of the package, the combinations of two flags")
def enums(ctx):
    """enum and flag values"""
    wire(ctx)
    E = sys.modules["psrpcore.types._enum"]
    import psrpcore.types._complex as X
    ems, fls = [], []
    for n in dir(T):
        c = getattr(T, n)
        if isinstance(c, type) and issubclass(c, E.PSEnumBase) and c is not E.PSEnumBase and len(c):
            ems.append(c)
        elif isinstance(c, type) and issubclass(c, E.PSFlagBase) and c is not E.PSFlagBase and len(c):
            fls.append(c)
    vals = [m for c in ems for m in c] + [m for c in fls for m in c]
    for c in fls:
        ms = list(c)
        vals += [ms[i] | ms[i + 1] for i in range(len(ms) - 1)] + [ms[0] | ms[-1]]
    vals = [m for m in vals if isinstance(m, T.PSObject)]
    k = ctx.choose(2)
    for m in vals:
        if k == 0:
            b = trip(m)
        else:
            got = items(trip(T.PSList([m, m, 1])))
            b = got[0]
            ctx.prove("again", listed(m, got[1]) or got[1] == m and type(got[1]) is type(m))
        ctx.prove("enum value", listed(m, b) or type(b) is type(m) and b == m and b.value == m.value)


@contract("C10", bounded="three attributes")
def plain_objects(ctx):
    """the public attributes of an object of another class become extended properties"""
    wire(ctx)
    x = [opq("x%d" % i) for i in range(3)]

    class Thing:
        pass
    t = Thing()
    t.alpha, t.beta, t._hidden = x[0], x[1], x[2]
    b = trip(t)
    ps = b.PSObject.extended_properties
    got = {p.name: p.get_value(b) for p in ps}
    ctx.prove("kind", cls_of(b) is T.PSCustomObject)
    ctx.prove("attributes", got.get("alpha") is x[0] and got.get("beta") is x[1] and list(got) == sorted(got))


@contract("C10")
def sequences_any(ctx):
    """lists, stacks, enumerables and plain lists of any length with arbitrary values"""
    from vc.runs import Run
    wire(ctx)
    r = Run(ctx, lambda a: a.opaque("x"))
    k = ctx.choose(4)
    v = [r.elem] if k == 3 else getattr(T, SEQS[k])([r.elem])
    b = trip(v)
    ctx.prove("kind", cls_of(b) is getattr(T, SEQS[k % 3]))
    got = items(b)
    ctx.prove("the elements in order", len(got) == 1 and got[0] is r.elem)
    empty_props(ctx, b)


@contract("C10")
def dictionaries_any(ctx):
    """dictionaries with any number of entries: arbitrary different keys, arbitrary values"""
    from vc.runs import Run
    wire(ctx)
    r = Run(ctx, lambda a: (a.opaque("key", src="key"), a.opaque("value")))
    key, val = r.elem
    RT.ctx.run_segs[id(key)] = key  # the key stands for the entry
    v = [T.PSDict, dict][ctx.choose(2)]()
    dict.__setitem__(v, key, val)
    b = trip(v)
    ctx.prove("kind", cls_of(b) is T.PSDict)
    got = list(dict.items(b))
    ctx.prove("the entries in order", len(got) == 1 and got[0][0] is key and got[0][1] is val)
    empty_props(ctx, b)


@contract("C10")
def queues_any(ctx):
    """PSQueue and queue.Queue with any number of arbitrary values"""
    from vc.runs import Run, RunDeque
    wire(ctx)
    r = Run(ctx, lambda a: a.opaque("x"))
    v = [T.PSQueue, queue.Queue][ctx.choose(2)]()
    if type(v.queue) is not collections.deque:
        raise Unsupported("a queue that is no deque")
    v.queue = RunDeque([r.elem])
    b = trip(v)
    ctx.prove("kind", cls_of(b) is T.PSQueue)
    got = items(b)
    ctx.prove("the entries in order", len(got) == 1 and got[0] is r.elem)
    ctx.prove("the queue is as it was", len(v.queue) == 1 and v.queue[0] is r.elem)
    empty_props(ctx, b)


@contract("C10")
def nested_any(ctx):
    """a list of any length around one value, inside a dictionary of any size, inside a list of any length"""
    from vc.runs import Run
    wire(ctx)
    r = Run(ctx, lambda a: a.opaque("x"))
    s = Run(ctx, lambda a: a.opaque("y"))
    x = opq("one")
    v = T.PSList([s.elem, T.PSList([r.elem, x]), x, T.PSDict({"k": [x, r.elem]})])
    b = items(trip(v))
    ctx.prove("outer", len(b) == 4 and b[0] is s.elem and b[2] is x)
    inner = items(b[1])
    ctx.prove("inner list", len(inner) == 2 and inner[0] is r.elem and inner[1] is x)
    d = list(dict.items(b[3]))
    ctx.prove("dictionary", len(d) == 1 and d[0][0] == "k" and [id(y) for y in items(d[0][1])] == [id(x), id(r.elem)])


@contract("C10")
def properties_any(ctx):
    """objects with any number of properties of different names, adapted or extended, arbitrary values"""
    from vc.runs import Run
    wire(ctx)
    B = sys.modules["psrpcore.types._base"]

    def add(fn, a, k):
        o, prop = a[0], a[1]
        o.PSObject.extended_properties.append(prop)
    RT.stub(B.add_member, add)
    assumed("add_member", "add_member appends a property whose name the object does not have (contract adding of property C22); names of the properties of one object are different")
    r = Run(ctx, lambda a: T.PSNoteProperty(a.text("name", distinct=True), a.opaque("value")))
    v = T.PSObject.__new__(T.PSObject)
    ext = bool(ctx.choose(2))
    (v.PSObject.extended_properties if ext else v.PSObject.adapted_properties).append(r.elem)
    names = [SStr([Txt("tn", xmlsafe=True, nopre=("Deserialized.",))])]
    v.PSObject.type_names = ["Vc.Unknown"]
    b = trip(v)
    got, none = b.PSObject.extended_properties, b.PSObject.adapted_properties
    if not ext:
        got, none = none, got
    ctx.prove("no other properties", len(none) == 0)
    ctx.prove("the properties in order", len(got) == 1 and type(got[0]) is T.PSNoteProperty)
    ctx.prove("names", eqb(got[0].name, r.elem.name))
    ctx.prove("values", peek(got[0], "_value") is peek(r.elem, "_value"))


@contract("C10")
def enum_numbers(ctx):
    """every enum member is the number of the protocol and .NET"""
    import json
    import os
    for name, ms in json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "oracle", "enums.json"))).items():
        c = getattr(T, name)
        for k, v in ms.items():
            ctx.prove("%s.%s" % (name, k), k in c.__members__ and c.__members__[k].value == v and (c(v).name == k or k == "Default"))


def reused_ids():
    """id(x) as the language defines it: unique among the objects that exist, and given again as soon as its object is gone"""
    import gc, weakref
    table, free = {}, []

    def model(fn, a, k):
        x = a[0]
        gc.collect()
        for key in [key for key, (r, n) in table.items() if r() is None]:
            free.append(table.pop(key)[1])
        e = table.get(id(x))
        if e is None:
            try:
                r = weakref.ref(x)
            except TypeError:
                r = (lambda y: lambda: y)(x)
            n = free.pop() if free else len(table) + len(free) + 1
            e = table[id(x)] = (r, n)
        return e[1]
    RT.stub(id, model)


@contract("C10")
def temporaries(ctx):
    """objects that exist only while they are serialized (made by a property's function, or the remoting form of a value) stay different objects,
    though the number id() gives may be given again when its object is gone"""
    wire(ctx)
    reused_ids()
    x = [opq("x%d" % i) for i in range(3)]
    made = []
    if ctx.choose(2):
        vs = []
        for y in x:
            o = T.PSCustomObject()

            def getter(s, y=y):
                r = T.PSCustomObject()
                r.PSObject.extended_properties.append(T.PSNoteProperty("v", y))
                return r
            o.PSObject.extended_properties.append(T.PSScriptProperty("p", getter))
            vs.append(o)
        got = [call(getattr, call(getattr, o, "p"), "v") for o in items(trip(T.PSList(vs)))]
    else:
        class Point(T.PSObject):
            @classmethod
            def ToPSObjectForRemoting(cls, instance, **kwargs):
                r = T.PSCustomObject()
                r.PSObject.extended_properties.append(T.PSNoteProperty("v", instance.y))
                return r
        vs = []
        for y in x:
            p = Point.__new__(Point)
            own = object.__getattribute__(p, "__dict__")
            own["y"] = y
            vs.append(p)
        got = [call(getattr, o, "v") for o in items(trip(T.PSList(vs)))]
    ctx.prove("every value in its place", len(got) == 3 and all(a is b for a, b in zip(got, x)))

"""C24: which type an object is restored to, and its type names."""
from contracts.lib import *  # noqa
from contracts.C10 import opq
from contracts.C07 import trip, CIPHER
from contracts.C22 import isinstance_of
from vc.colls import SMap, DEL
import contextlib
import xml.etree.ElementTree as ET

B = sys.modules["psrpcore.types._base"]
S = sys.modules["psrpcore.types._serializer"]
PRE = "Deserialized."


def name(n, pre=True):
    """any type name that does not start with the prefix, or one that does any number of times"""
    k = RT.ctx.choose(3) if pre else 0
    t = Txt(n, xmlsafe=True, nopre=() if k == 2 else (PRE,))
    if k < 2:
        RT.ctx.assume(t.len >= 1)
    return SStr([PRE * k, t])


@contextlib.contextmanager
def registries(types=None, elements=None):
    reg = B.TypeRegistry()
    for a in ("type_registry", "element_registry"):
        if type(reg.__dict__.get(a)) is not dict:
            raise Unsupported("registry (representation changed)")
    old = reg.type_registry, reg.element_registry
    try:
        if types is not None:
            reg.type_registry = types
        if elements is not None:
            reg.element_registry = elements
        yield reg
    finally:
        reg.type_registry, reg.element_registry = old


def plain(n):
    return type(n, (T.PSObject,), {"PSObject": T.PSObject.PSObject.__class__([n, "Vc.Base"])})


def some_enum():
    return T.PSThreadOptions


def text_of(l):
    return [x if isinstance_proxy(x) else str(x) for x in l]


def prefixed(ctx, o, names):
    got = list(o.PSObject.type_names)
    ctx.prove("as many type names", len(got) == len(names))
    for g, n in zip(got, names):
        ctx.prove("type name is prefixed", eqb(g, SStr([PRE] + SStr._segs_of(n))))


@contract("C24", bounded="up to 3 type names; the names and the registered types are arbitrary")
def restoring(ctx):
    """TypeRegistry.rehydrate for any names and any registered types: the first name decides"""
    made = []

    def value(k):
        c = [lambda: plain("Vc.Own"), some_enum][ctx.choose(2)]()
        made.append(c)
        return c
    m = SMap("types", "str", value=value)
    n = ctx.choose(4)
    names = [name("n%d" % i, pre=i == 0) for i in range(n)]
    known = ctx.branch(m.base_has(names[0])) if n else False
    with registries(types=m) as reg:
        o = call(reg.rehydrate, names)
        if known:
            c = m.base_value(names[0])
            if isinstance(c, type) and issubclass(c, T.PSEnumBase):
                ctx.prove("restored type", o is c)
            else:
                ctx.prove("restored type", type(o) is c)
                ctx.prove("type names of its own", o.PSObject.type_names == c.PSObject.type_names and o.PSObject.type_names is not c.PSObject.type_names)
        else:
            ctx.prove("plain object", type(o) is T.PSObject)
            prefixed(ctx, o, names)
        ctx.prove("the registry is unchanged", not m.log)
    ctx.prove("the names given are unchanged", len(names) == n)


@contract("C24")
def registering(ctx):
    """PSType: a free name or element becomes the class's, a taken one stays; with rehydrate off no name is registered"""
    other = plain("Vc.Other")
    owner = {}
    m = SMap("types", "str", value=lambda k: owner.setdefault(id(m), other))
    e = SMap("elements", "str", value=lambda k: owner.setdefault(id(e), plain("Vc.OtherElement")))
    own = [name("n%d" % i) for i in range(ctx.choose(3))]
    reh, has_tag = bool(ctx.choose(2)), bool(ctx.choose(2))
    tag = SStr([Txt("tag", xmlsafe=True)])
    ctx.assume(tag.segs[0].len >= 1)
    skip = bool(ctx.choose(2))
    parent = [T.PSObject, other][ctx.choose(2)]  # a new type, or one derived from the type that may have the name
    inherited = list(parent.PSObject.type_names)
    c = type("Thing", (parent,), {})
    names = list(own)
    with registries(m, e) as reg:
        first = own[0] if own else None if skip else inherited[0]
        taken = ctx.branch(m.base_has(first)) if first is not None else True
        tag_taken = ctx.branch(e.base_has(tag))
        kw = {"tag": tag} if has_tag else {}
        r = call(T.PSType(names, rehydrate=reh, skip_inheritance=skip, **kw), c)
        ctx.prove("the class itself", r is c)
        if first is not None:
            now = m.lookup(first)
            if reh and not taken:
                ctx.prove("registered for the name", now is c)
            else:
                ctx.prove("the name stays as it was", now is (owner[id(m)] if taken else DEL))
        now = e.lookup(tag)
        if has_tag and not tag_taken:
            ctx.prove("registered for the element", now is c)
        else:
            ctx.prove("the element stays as it was", now is (owner[id(e)] if tag_taken else DEL))
        ctx.prove("at most one name and one element", len(m.log) <= (1 if reh and not taken else 0) and len(e.log) <= (1 if has_tag and not tag_taken else 0))
    got = list(c.PSObject.type_names)
    want = own + ([] if skip else inherited)
    ctx.prove("as many type names", len(got) == len(want))
    for g, w in zip(got, want):
        ctx.prove("type names", eqb(g, w))
    ctx.prove("the parent is unchanged", parent.PSObject.type_names == inherited)


@contract("C24", bounded="up to 2 type names of the object and 2 requested ones; the names are arbitrary", max_paths=60000)
def type_test(ctx):
    """ps_isinstance: true exactly when a type name equals a requested one, the prefix ignored only on request"""
    have = [name("h%d" % i) for i in range(ctx.choose(3))]
    want = [name("w%d" % i) for i in range(ctx.choose(3))]
    ign = [None, False, True][ctx.choose(3)]
    o = T.PSCustomObject()
    o.PSObject.type_names = list(have)
    form = ctx.choose(3)
    if form == 0:
        arg = list(want)
    elif form == 1:
        arg = tuple(want)
    else:
        if len(want) != 1:
            return
        arg = want[0]
    kw = {} if ign is None else {"ignore_deserialized": ign}
    r = call(T.ps_isinstance, o, arg, **kw)

    def cut(s):
        g = s.segs
        return SStr([g[0][len(PRE):]] + g[1:]) if ign and isinstance(g[0], str) else s
    any_eq = [eqb(cut(h), cut(w)) for h in have for w in want]
    f = z3.Or(*[x if z3.is_expr(x) else z3.BoolVal(x) for x in any_eq]) if any_eq else z3.BoolVal(False)
    ctx.prove("the answer is a truth value", type(r) in (bool, SBool))
    ctx.prove("true exactly when a name matches", (r.expr if type(r) is SBool else z3.BoolVal(r)) == f)
    ctx.prove("type names unchanged", len(o.PSObject.type_names) == len(have) and all(x is y for x, y in zip(o.PSObject.type_names, have)))
    ctx.prove("request unchanged", form == 2 or len(arg) == len(want) and all(x is y for x, y in zip(arg, want)))


@contract("C24")
def type_test_class(ctx):
    """a class or object stands for its first type name"""
    a, b = name("a"), name("b")
    c = type("K", (T.PSObject,), {"PSObject": T.PSObject.PSObject.__class__([a, b])})
    o = T.PSCustomObject()
    h = name("h")
    o.PSObject.type_names = [h]
    ign = bool(ctx.choose(2))
    arg = [c, [c], call(c.__new__, c)][ctx.choose(3)]
    r = call(T.ps_isinstance, o, arg, ignore_deserialized=ign)

    def cut(s):
        g = s.segs
        return SStr([g[0][len(PRE):]] + g[1:]) if ign and isinstance(g[0], str) else s
    f = eqb(cut(h), cut(a))
    ctx.prove("true exactly when the first name matches", (r.expr if type(r) is SBool else z3.BoolVal(r)) == (f if z3.is_expr(f) else z3.BoolVal(f)))


@contract("C24", bounded="up to 3 type names, one property; the names and values are arbitrary")
def unknown_type(ctx):
    """an object whose first type name no type is registered for, through the whole serializer"""
    wire(ctx)
    n = ctx.choose(4)
    names = [name("n%d" % i, pre=i == 0) for i in range(n)]
    o = T.PSCustomObject()
    o.PSObject.type_names = list(names)
    x = opq("x")
    call(T.add_note_property, o, "p", x)
    where = ctx.choose(2)
    m = SMap("types", "str", value=lambda k: plain("Vc.Own"))
    for g in names[:1]:
        ctx.assume(z3.Not(m.base_has(g)))
    real = B.TypeRegistry().type_registry
    v = o
    if where:
        v = call(T.PSDict)
        dict.__setitem__(v, "k", o)
        for g in names[:1]:
            for k in T.PSDict.PSObject.type_names:
                ctx.assume(z3.Not(z3.BoolVal(False)) if not z3.is_expr(eqb(g, k)) else z3.Not(eqb(g, k)))
    else:
        with registries(types=m):
            b = trip(v)
        ctx.prove("plain object", type(b) is T.PSObject)
        prefixed(ctx, b, names)
        ctx.prove("property", call(getattr, b, "p") is x)
        return
    base = {k: c for k, c in real.items()}
    for g in names[:1]:
        for k in base:
            f = eqb(g, k)
            ctx.assume(z3.Not(f) if z3.is_expr(f) else z3.BoolVal(not f))
    b = trip(v)
    got = dict.__getitem__(b, "k")
    ctx.prove("dictionary", isinstance_of(b, T.PSDict))
    ctx.prove("plain object", type(got) is T.PSObject)
    prefixed(ctx, got, names)
    ctx.prove("property", call(getattr, got, "p") is x)


@contract("C24")
def known_type(ctx):
    """an object of a registered type, any further type names on the wire: restored with the type's own names"""
    wire(ctx)
    a = name("a")
    c = plain("Vc.Own")
    m = SMap("types", "str", value=lambda k: c)
    ctx.assume(m.base_has(a))
    o = T.PSCustomObject()
    more = [name("m", pre=False)][:ctx.choose(2)]
    o.PSObject.type_names = [a] + more
    x = opq("x")
    call(T.add_note_property, o, "p", x)
    with registries(types=m):
        b = trip(o)
    ctx.prove("restored type", type(b) is c)
    ctx.prove("own type names", list(b.PSObject.type_names) == ["Vc.Own", "Vc.Base"])
    ctx.prove("type names not shared", b.PSObject.type_names is not c.PSObject.type_names)
    ctx.prove("property", call(getattr, b, "p") is x)
    ctx.prove("the class got no property", not c.PSObject.extended_properties and not c.PSObject.adapted_properties)


@contract("C24", bounded="three objects with one or two type names each; the names are arbitrary")
def references(ctx):
    """type names written once and referred to: every object gets its own"""
    wire(ctx)
    a, b = name("a", pre=False), name("b", pre=False)
    lists = [[a], [b], [a, b], [b, a]]
    pick = [lists[ctx.choose(4)] for _ in range(3)]
    m = SMap("types", "str", value=lambda k: plain("Vc.Own"))
    for g in (a, b):
        ctx.assume(z3.Not(m.base_has(g)))
        for k in T.PSList.PSObject.type_names:
            ctx.assume(z3.Not(eqb(g, k)))
    ctx.assume(z3.Not(m.base_has(T.PSList.PSObject.type_names[0])))
    objs = []
    for l in pick:
        o = T.PSCustomObject()
        o.PSObject.type_names = list(l)
        objs.append(o)
    with registries(types=m):
        r = trip(T.PSList(objs))
    got = list(list.__iter__(r))
    ctx.prove("as many objects", len(got) == 3)
    for g, l in zip(got, pick):
        ctx.prove("plain object", type(g) is T.PSObject)
        prefixed(ctx, g, l)
    for i in range(3):
        for j in range(i):
            ctx.prove("type names not shared", got[i].PSObject.type_names is not got[j].PSObject.type_names)


@contract("C24", bounded="one element; every kind of container")
def containers(ctx):
    """lists, stacks, queues and dictionaries with type names no type is registered for keep their kind and get the names prefixed"""
    wire(ctx)
    a = name("a", pre=False)
    m = SMap("types", "str", value=lambda k: plain("Vc.Own"))
    ctx.assume(z3.Not(m.base_has(a)))
    x = opq("x")
    k = ctx.choose(5)
    cls = [T.PSList, T.PSStack, T.PSIEnumerable, T.PSQueue, T.PSDict][k]
    v = call(cls)
    if k < 3:
        list.append(v, x)
    elif k == 3:
        v.queue.append(x)
    else:
        dict.__setitem__(v, "k", x)
    v.PSObject.type_names = [a, "Vc.Second"]
    with registries(types=m):
        b = trip(v)
    ctx.prove("kind", isinstance_of(b, cls))
    prefixed(ctx, b, [a, "Vc.Second"])


@contract("C24")
def restoring_any(ctx):
    """TypeRegistry.rehydrate for any number of type names"""
    from vc.runs import Run
    m = SMap("types", "str", value=lambda k: plain("Vc.Own"))
    first = name("n0")
    r = Run(ctx, lambda a: a.text("more", xmlsafe=True))
    known = ctx.branch(m.base_has(first))
    names = [first, r.elem]
    with registries(types=m) as reg:
        o = call(reg.rehydrate, names)
        if known:
            c = m.base_value(first)
            ctx.prove("restored type", type(o) is c)
            ctx.prove("type names of its own", o.PSObject.type_names == c.PSObject.type_names and o.PSObject.type_names is not c.PSObject.type_names)
        else:
            ctx.prove("plain object", type(o) is T.PSObject)
            prefixed(ctx, o, names)
        ctx.prove("the registry is unchanged", not m.log)
    ctx.prove("the names given are unchanged", len(names) == 2 and names[0] is first and names[1] is r.elem)


@contract("C24")
def unknown_type_any(ctx):
    """an object with any number of type names, through the whole serializer"""
    from vc.runs import Run
    wire(ctx)
    first = name("n0")
    r = Run(ctx, lambda a: a.text("more", xmlsafe=True))
    names = [first, r.elem]
    o = T.PSCustomObject()
    o.PSObject.type_names = list(names)
    x = opq("x")
    call(T.add_note_property, o, "p", x)
    m = SMap("types", "str", value=lambda k: plain("Vc.Own"))
    known = ctx.branch(m.base_has(first))
    with registries(types=m):
        b = trip(o)
        if known:
            ctx.prove("restored type", type(b) is m.base_value(first))
            ctx.prove("own type names", list(b.PSObject.type_names) == ["Vc.Own", "Vc.Base"])
        else:
            ctx.prove("plain object", type(b) is T.PSObject)
            prefixed(ctx, b, names)
    ctx.prove("property", call(getattr, b, "p") is x)


@contract("C24")
def registering_any(ctx):
    """PSType with any number of type names: the first is registered, all are the type's"""
    from vc.runs import Run
    m = SMap("types", "str", value=lambda k: plain("Vc.Other"))
    first = name("n0")
    r = Run(ctx, lambda a: a.text("more", xmlsafe=True))
    taken = ctx.branch(m.base_has(first))
    c = type("Thing", (T.PSObject,), {})
    with registries(types=m):
        call(T.PSType([first, r.elem]), c)
        now = m.lookup(first)
        ctx.prove("the first name", now is (m.base_value(first) if taken else c))
        ctx.prove("no other name", len(m.log) == (0 if taken else 1))
    got = list(c.PSObject.type_names)
    ctx.prove("type names", len(got) == 3 and got[0] is first and got[1] is r.elem and got[2] == "System.Object")

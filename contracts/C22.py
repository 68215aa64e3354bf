"""C22: dynamic properties."""
from contracts.lib import *  # noqa
from contracts.C10 import opq
from contracts.C11 import deep

B = sys.modules["psrpcore.types._base"]
NB = "at most two adapted and two extended properties; values, text and numbers unrestricted"
# (names of the adapted, names of the extended properties)
SHAPES = [(("a",), ()), ((), ("a",)), (("a", "b"), ()), ((), ("a", "b")), (("a",), ("b",)), (("a",), ("a",)), (("a", "b"), ("b", "c")),
          (("b", "a"), ("c", "a"))]


def note(name, value=None, **kw):
    p = call(T.PSNoteProperty, name, **kw)
    if value is not None:
        call(p.set_value, value, None)
    return p


def klass(adapted=(), extended=(), base=T.PSObject, names=("Vc.Thing",), **kw):
    c = type("Thing", (base,), {})
    return call(T.PSType(list(names), list(adapted), list(extended), rehydrate=False, **kw), c)


def inst(c):
    """an instance before any property has been set"""
    return call(c.__new__, c)


def props(o):
    m = o.PSObject
    return list(m.adapted_properties), list(m.extended_properties)


def holder(ctx):
    """any object with any values in its properties: {property: value}"""
    ad, ex = SHAPES[ctx.choose(len(SHAPES))]
    c = klass([note(n) for n in ad], [note(n) for n in ex])
    o = inst(c)
    held = {}
    for i, p in enumerate(sum(props(o), [])):
        if bool(ctx.choose(2)):
            x = opq("v%d" % i)
            call(p.set_value, x, o)
            held[id(p)] = x
    return c, o, ad, ex, held


def owner(o, name):
    """the property the name stands for: the extended one first"""
    ad, ex = props(o)
    for p in ex + ad:
        if p.name == name:
            return p
    return None


def reads(ctx, what, o, name, want):
    ctx.prove(what, call(getattr, o, name) is want)
    ctx.prove(what + " by index", call(o.__getitem__, name) is want)


@contract("C22", bounded=NB)
def set_and_get(ctx):
    """from any values: the property set reads back that value, every other one what it had"""
    c, o, ad, ex, held = holder(ctx)
    names = sorted(set(ad + ex))
    before = {n: held.get(id(owner(o, n))) for n in names}
    for n in names:
        reads(ctx, "value held", o, n, before[n])
    n = names[ctx.choose(len(names))]
    x = [opq("new"), None][ctx.choose(2)]
    plist = sum(props(o), [])
    if bool(ctx.choose(2)):
        call(o.__setitem__, n, x)
    else:
        call(setattr, o, n, x)
    ctx.prove("the same properties", all(p is q for p, q in zip(plist, sum(props(o), []))) and len(plist) == len(sum(props(o), [])))
    reads(ctx, "value set", o, n, x)
    for k in names:
        if k != n:
            reads(ctx, "value of the other properties", o, k, before[k])
    for p in plist:
        if p is not owner(o, n):
            ctx.prove("value of a property hidden by name", call(p.get_value, o) is held.get(id(p)))
    d = call(getattr, o, "__dict__")
    for k in names:
        ctx.prove("value in the attribute dictionary", d[k] is (x if k == n else before[k]))
    d.clear()
    reads(ctx, "value set", o, n, x)


@contract("C22", bounded=NB)
def no_property(ctx):
    """a name that is no property: reading fails, setting it makes a plain attribute and leaves the properties alone"""
    c, o, ad, ex, held = holder(ctx)
    e = raises(AttributeError, call, getattr, o, "nothing")
    ctx.prove("no such attribute", e is not None)
    was = deep(o.PSObject.adapted_properties), deep(o.PSObject.extended_properties)
    x = opq("x")
    call(setattr, o, "nothing", x)
    ctx.prove("plain attribute", call(getattr, o, "nothing") is x)
    ctx.prove("properties unchanged", was == (deep(o.PSObject.adapted_properties), deep(o.PSObject.extended_properties)))


TYPED = ["PSInt", "PSInt64", "PSUInt16", "PSString", "PSByte", "PSVersion", "PSDict"]


@contract("C22", bounded=NB)
def conversion(ctx):
    """typed properties hold a value of the declared type; None and values of the type are kept as they are"""
    t = getattr(T, TYPED[ctx.choose(len(TYPED))])
    where = ctx.choose(2)
    c = klass([note("a", ps_type=t)] if where else [], [] if where else [note("a", ps_type=t)])
    o = inst(c)
    k = ctx.choose(3)
    if k == 0:
        call(setattr, o, "a", None)
        reads(ctx, "None", o, "a", None)
        return
    if t is T.PSString:
        raw = SStr([Txt("s")])
    elif t is T.PSVersion:
        raw = "1.%d" % ctx.choose(3)
    elif t is T.PSDict:
        raw = {"k": opq("e")}
    else:
        lo, hi = call(getattr, t, "MinValue"), call(getattr, t, "MaxValue")
        raw = SInt(ctx.int("n", lo, hi))
    if k == 1:
        v = call(t, raw)
        call(setattr, o, "a", v)
        ctx.prove("a value of the type is kept", payload(call(getattr, o, "a")) is payload(v))
        return
    call(setattr, o, "a", raw)
    got = call(getattr, o, "a")
    ctx.prove("declared type", isinstance_of(got, t))
    if t is T.PSDict:
        ctx.prove("value", list(dict.items(got)) == list(raw.items()))
    elif t is T.PSVersion:
        ctx.prove("value", str(got) == raw)
    else:
        ctx.prove("value", eqb(payload(got), raw))


def isinstance_of(x, t):
    c = getattr(x, "_vc_cls", None) or type(x)
    return issubclass(c, t)


class Failed(Exception):
    pass


@contract("C22", bounded=NB)
def script(ctx):
    """script properties: read through the getter with the object, set through the setter with the object and value"""
    x, y = opq("x"), opq("y")
    log = []

    def get(s):
        log.append(("get", s))
        return x

    def put(s, v):
        log.append(("set", s, v))

    def fail(s):
        raise Failed()
    typed = bool(ctx.choose(2))
    has_setter = bool(ctx.choose(2))
    n = SInt(ctx.int("n", -(1 << 31), (1 << 31) - 1))
    getter = (lambda s: n) if typed else get
    p = call(T.PSScriptProperty, "p", getter, setter=put if has_setter else None, ps_type=T.PSInt if typed else None)
    where = ctx.choose(3)
    c = klass([note("a")] + ([p] if where == 0 else []), [p] if where == 1 else [])
    o = inst(c)
    a = opq("a")
    call(setattr, o, "a", a)
    if where == 2:
        call(T.add_member, o, p)
    got = call(getattr, o, "p")
    if typed:
        ctx.prove("result of the getter in the declared type", isinstance_of(got, T.PSInt))
        ctx.prove("result of the getter", eqb(payload(got), n))
    else:
        ctx.prove("result of the getter", got is x)
        ctx.prove("getter is given the object", len(log) == 1 and log[0][1] is o)
    del log[:]
    if has_setter:
        call(setattr, o, "p", y)
        ctx.prove("setter is given the object and the value", len(log) == 1 and log[0][0] == "set" and log[0][1] is o and log[0][2] is y)
    else:
        e = raises(ValueError, call, setattr, o, "p", y)
        ctx.prove("cannot be set", e is not None and not log)
    ctx.prove("other properties", call(getattr, o, "a") is a)
    got = call(getattr, o, "p")
    ctx.prove("reads again through the getter", got is x if not typed else eqb(payload(got), n))


@contract("C22", bounded=NB)
def attribute_first(ctx):
    """an attribute the object already has when a property of that name is added: what is set is what is read"""
    k = ctx.choose(4)
    log = []
    o = inst(klass([note("a")], [note("b")]))
    x, y, w = opq("x"), opq("y"), opq("w")
    call(setattr, o, "p", x)
    reads(ctx, "the attribute", o, "p", x)
    if k == 0:
        p = note("p", w)
    elif k == 1:
        p = call(T.PSScriptProperty, "p", lambda s: w, setter=lambda s, v: log.append(v))
    elif k == 2:
        p = call(T.PSAliasProperty, "p", "a")
    else:
        p = note("p", "w", ps_type=T.PSString)
    call(T.add_member, o, p)
    reads(ctx, "the attribute after the property was added", o, "p", x)
    call(setattr, o, "p", y)
    reads(ctx, "what was set", o, "p", y)
    ctx.prove("the property is not what was set", not log)
    a = opq("a")
    call(setattr, o, "a", a)
    reads(ctx, "another property", o, "a", a)
    reads(ctx, "still what was set", o, "p", y)


@contract("C22", bounded=NB)
def alias(ctx):
    """an alias reads the current value of its target, whatever that is, and cannot be set"""
    kind = ctx.choose(4)
    x, y = opq("x"), opq("y")
    target = [lambda: ([note("t")], []), lambda: ([], [note("t")]), lambda: ([note("t")], [note("t")]),
              lambda: ([note("t")], [call(T.PSAliasProperty, "m", "t")])][kind]
    ad, ex = target()
    al = call(T.PSAliasProperty, "al", "m" if kind == 3 else "t")
    late = bool(ctx.choose(2))
    c = klass(ad, ex + ([] if late else [al]))
    o = inst(c)
    if late:
        call(T.add_alias_property, o, "al", "m" if kind == 3 else "t")
    ctx.prove("of a property without a value", call(getattr, o, "al") is None)
    call(setattr, o, "t", x)
    reads(ctx, "value of the target", o, "al", x)
    call(setattr, o, "t", y)
    reads(ctx, "present value of the target", o, "al", y)
    e = raises(ValueError, call, setattr, o, "al", x)
    ctx.prove("cannot be set", e is not None)
    reads(ctx, "target is unchanged", o, "t", y)
    o2 = inst(c)
    if not late:
        call(setattr, o2, "t", x)
        reads(ctx, "alias of another instance", o2, "al", x)
        reads(ctx, "alias of this instance", o, "al", y)


@contract("C22")
def alias_typed(ctx):
    """an alias with a declared type"""
    n = SInt(ctx.int("n", -(1 << 31), (1 << 31) - 1))
    c = klass([note("t")], [])
    o = inst(c)
    call(setattr, o, "t", n)
    call(T.add_alias_property, o, "al", "t", ps_type=T.PSInt)
    got = call(getattr, o, "al")
    ctx.prove("declared type", isinstance_of(got, T.PSInt))
    ctx.prove("value", eqb(payload(got), n))


@contract("C22", bounded=NB)
def adding(ctx):
    """add_member and the helpers for each kind of property: a taken name is refused and nothing changes unless forced; then the new property is what the name stands for"""
    c, o, ad, ex, held = holder(ctx)
    n = ["a", "b", "c", "d"][ctx.choose(4)]
    force = [None, False, True][ctx.choose(3)]
    a0, e0 = props(o)
    before = {k: call(getattr, o, k) for k in set(ad + ex)}
    vals = {id(p): call(p.get_value, o) for p in a0 + e0}
    x = opq("new")
    kw = {} if force is None else {"force": force}
    how = ctx.choose(4)
    if how == 3:
        call(setattr, o, "zz", x)

    def act():
        if how == 1:
            call(T.add_note_property, o, n, x, **kw)
        elif how == 2:
            call(T.add_script_property, o, n, lambda s: x, **kw)
        elif how == 3:
            call(T.add_alias_property, o, n, "zz", **kw)
        else:
            call(T.add_member, o, call(T.PSNoteProperty, n, x), **kw)
    if n in ad + ex and not force:
        e = raises(RuntimeError, act)
        ctx.prove("refused", e is not None)
        a1, e1 = props(o)
        ctx.prove("nothing changed", [id(p) for p in a0 + [None] + e0] == [id(p) for p in a1 + [None] + e1])
        for p in a0 + e0:
            ctx.prove("values unchanged", call(p.get_value, o) is vals[id(p)])
        return
    act()
    a1, e1 = props(o)
    reads(ctx, "new property", o, n, x)
    ctx.prove("adapted properties are unchanged", [id(p) for p in a0] == [id(p) for p in a1])
    keep = [id(p) for p in e0 if p.name != n]
    ctx.prove("other extended properties keep their order", keep == [id(p) for p in e1 if p.name != n])
    ctx.prove("one extended property of the name", [p.name for p in e1].count(n) == 1)
    if n in ex:
        ctx.prove("replaced in place", [p.name for p in e1] == [p.name for p in e0])
    else:
        ctx.prove("added last", e1[-1].name == n)
    for k, v in before.items():
        if k != n:
            reads(ctx, "other properties", o, k, v)
    for p in a0:
        ctx.prove("adapted values", call(p.get_value, o) is vals[id(p)])
    ctx.prove("class unchanged", [p.name for p in c.PSObject.adapted_properties] == list(ad)
              and [p.name for p in c.PSObject.extended_properties] == list(ex))


@contract("C22", bounded=NB)
def isolation(ctx):
    """nothing done to one instance shows in another, in the class or in its base class"""
    base = klass([note("a"), note("dflt", opq("dflt"))], [note("b")], names=("Vc.Base",))
    inherits = bool(ctx.choose(2))
    c = klass([note("c")], [call(T.PSScriptProperty, "s", lambda s: None, lambda s, v: None)], base=base, names=("Vc.Sub",)) if inherits else base
    o1, o2 = inst(c), inst(c)
    names = [p.name for p in sum(props(o2), [])]
    for o in (o1, o2):
        for n in ("a", "b"):
            call(setattr, o, n, opq("v" + n))
    held = [call(getattr, o2, n) for n in names]
    before = [deep(x.PSObject.__dict__) for x in (o2, c, base, T.PSObject)]
    k = ctx.choose(8)
    if k == 0:
        call(setattr, o1, "a", opq("new"))
    elif k == 1:
        call(setattr, o1, "b", opq("new"))
    elif k == 2:
        call(setattr, o1, "dflt", opq("new"))
    elif k == 3:
        call(T.add_note_property, o1, "z", opq("z"))
    elif k == 4:
        call(T.add_note_property, o1, ["a", "b", "dflt"][ctx.choose(3)], opq("z"), force=True)
    elif k == 5:
        o1.PSObject.type_names.insert(0, "X")
        o1.PSTypeNames.append("Y")
    elif k == 6:
        o1.PSObject.to_string = "t"
        o1.PSObject.adapted_properties[0].name = "renamed"
        o1.PSObject.extended_properties[0].ps_type = T.PSInt
        o1.PSObject.extended_properties[0].mandatory = True
    else:
        o1.PSObject.adapted_properties.pop()
        o1.PSObject.extended_properties.clear()
    after = [deep(x.PSObject.__dict__) for x in (o2, c, base, T.PSObject)]
    for w, x, y in zip(("another instance", "the class", "the base class", "PSObject"), before, after):
        ctx.prove("unchanged: " + w, x == y)
    ctx.prove("values of the other instance", all(call(getattr, o2, n) is v for n, v in zip(names, held)))
    o3 = inst(c)
    ctx.prove("a later instance", [p.name for p in sum(props(o3), [])] == names and call(getattr, o3, "a") is None
              and o3.PSObject.type_names == c.PSObject.type_names)


@contract("C22", bounded=NB)
def instance(ctx):
    """a new instance has the properties of its class in order, of the same kind, name, type and functions, with type names of its own"""
    get, put = (lambda s: 1), (lambda s, v: None)
    x = opq("x")
    c = klass([note("a", mandatory=True), note("b", x), call(T.PSAliasProperty, "c", "b", ps_type=T.PSInt)],
              [call(T.PSScriptProperty, "d", get, put, mandatory=True, ps_type=T.PSInt), call(T.PSScriptProperty, "e", get), note("f", ps_type=T.PSString)])
    o = inst(c)
    for mine, own in ((o.PSObject.adapted_properties, c.PSObject.adapted_properties), (o.PSObject.extended_properties, c.PSObject.extended_properties)):
        ctx.prove("as many properties", len(mine) == len(own))
        for p, q in zip(mine, own):
            ctx.prove("property of its own", p is not q)
            ctx.prove("kind", type(p) is type(q))
            ctx.prove("name, type and need", p.name == q.name and p.ps_type is q.ps_type and p.mandatory is q.mandatory)
            if type(p) is not T.PSAliasProperty:
                ctx.prove("functions", p.getter is q.getter and p.setter is q.setter)
            else:
                ctx.prove("target", p.alias == q.alias)
    ctx.prove("default value", call(getattr, o, "b") is x)
    ctx.prove("type names", o.PSObject.type_names == c.PSObject.type_names and o.PSObject.type_names is not c.PSObject.type_names)
    ctx.prove("type names in order", list(o.PSTypeNames) == ["Vc.Thing", "System.Object"])


@contract("C22", bounded=NB)
def creation(ctx):
    """creating an object: positional and named values, and what is rejected"""
    ad, ex = SHAPES[ctx.choose(len(SHAPES))]
    man = ctx.choose(3)
    c = klass([note(n, mandatory=(man == 1 and n == "a")) for n in ad], [note(n, mandatory=(man == 2 or man == 1 and n == "a")) for n in ex])
    names = list(dict.fromkeys(ad + ex))
    need = {n for n in names if (man == 1 and n == "a") or man == 2 and n in ex}
    npos = ctx.choose(len(names) + 2)
    args = [opq("p%d" % i) for i in range(npos)]
    kw = {}
    for n in names + ["unknown"]:
        if bool(ctx.choose(2)):
            kw[n] = opq("k" + n)
    bad = npos > len(names) or any(n in kw for n in names[:npos]) or "unknown" in kw or any(n not in kw and n not in names[:npos] for n in need)
    if bad:
        e = raises(TypeError, call, c, *args, **kw)
        ctx.prove("rejected", e is not None)
        return
    o = call(c, *args, **kw)
    for i, n in enumerate(names):
        reads(ctx, "value of a property", o, n, args[i] if i < npos else kw.get(n))
    ctx.prove("class is unchanged", all(p.get_value(None) is None for p in c.PSObject.adapted_properties + c.PSObject.extended_properties))


@contract("C22", bounded=NB)
def inheritance(ctx):
    """a subclass has its own properties before those of its base unless told not to inherit"""
    skip = bool(ctx.choose(2))
    base = klass([note("a")], [note("b")], names=("Vc.Base",))
    was = deep(base.PSObject.__dict__)
    c = klass([note("c")], [note("d")], base=base, names=("Vc.Sub", "Vc.Mid"), skip_inheritance=skip)
    o = inst(c)
    ctx.prove("adapted", [p.name for p in o.PSObject.adapted_properties] == (["c"] if skip else ["c", "a"]))
    ctx.prove("extended", [p.name for p in o.PSObject.extended_properties] == (["d"] if skip else ["d", "b"]))
    ctx.prove("type names", list(o.PSTypeNames) == ["Vc.Sub", "Vc.Mid"] + ([] if skip else ["Vc.Base", "System.Object"]))
    ctx.prove("the base is unchanged", was == deep(base.PSObject.__dict__))
    x = opq("x")
    if not skip:
        call(setattr, o, "a", x)
        reads(ctx, "inherited", o, "a", x)
        ctx.prove("the value is not the base's", base.PSObject.adapted_properties[0].get_value(None) is None)


@contract("C22")
def functions(ctx):
    """getters take the object, setters the object and the value: others are refused and leave the property as it was"""
    good_get, good_set = (lambda s: 1), (lambda s, v: None)
    k = ctx.choose(9)
    if k == 0:
        ctx.prove("getter is needed", raises(TypeError, call, T.PSScriptProperty, "p", None) is not None)
    elif k == 1:
        f = [lambda: 1, lambda a, b: 1, "x", lambda *, a: 1][ctx.choose(4)]
        ctx.prove("getter refused", raises(TypeError, call, T.PSScriptProperty, "p", f) is not None)
    elif k == 2:
        f = [lambda a: 1, lambda a, b, c: 1, "x", lambda: 1][ctx.choose(4)]
        ctx.prove("setter refused", raises(TypeError, call, T.PSScriptProperty, "p", good_get, f) is not None)
    elif k == 3:
        g = [lambda a: 1, lambda a, b=2: 1, lambda *a: 1, lambda a, *b: 1, lambda a, *, k=1: 1][ctx.choose(5)]
        s = [lambda a, b: 1, lambda a, b, c=2: 1, lambda *a: 1, lambda a, *b: 1][ctx.choose(4)]
        p = call(T.PSScriptProperty, "p", g, s)
        ctx.prove("accepted", p.getter is g and p.setter is s)
    elif k == 4:
        ctx.prove("mandatory needs a setter", raises(TypeError, call, T.PSScriptProperty, "p", good_get, mandatory=True) is not None)
    elif k == 5:
        x = opq("x")
        p = note("p", x)
        e = raises(ValueError, call, setattr, p, "getter", good_get)
        ctx.prove("no getter over a value", e is not None and p.getter is None and call(p.get_value, None) is x)
    elif k == 6:
        p = note("p")
        e = raises(ValueError, call, setattr, p, "setter", good_set)
        ctx.prove("no setter without a getter", e is not None and p.setter is None)
    elif k == 7:
        p = call(T.PSScriptProperty, "p", good_get, good_set)
        e = raises(ValueError, call, setattr, p, "getter", None)
        ctx.prove("getter cannot be taken away", e is not None and p.getter is good_get and p.setter is good_set)
        call(setattr, p, "setter", None)
        ctx.prove("setter can", p.setter is None)
    else:
        ctx.prove("not an object with properties", raises(ValueError, call, T.add_note_property, [3, "x", object()][ctx.choose(3)], "p", 1) is not None)


def many(ctx, n):
    """any number of properties with names different from each other and from the name used"""
    from vc.runs import Run

    def make(a):
        t = a.text(n, distinct=True)
        ctx.assume(z3.Not(eqb(t, "a")))
        return T.PSNoteProperty(t, a.opaque("v" + n))
    return Run(ctx, make).elem


@contract("C22")
def set_and_get_any(ctx):
    """among any number of other properties before and after it, a property reads back what it was set to and the others are left alone"""
    o = inst(klass())
    where = ctx.choose(3)
    runs = [many(ctx, "r%d" % i) for i in range(4)]
    ad, ex = note("a"), note("a")
    o.PSObject.adapted_properties.extend([runs[0]] + ([ad] if where != 1 else []) + [runs[1]])
    o.PSObject.extended_properties.extend([runs[2]] + ([ex] if where != 0 else []) + [runs[3]])
    old = opq("old")
    if where == 2:
        call(ad.set_value, old, o)
    target = ex if where else ad
    lists = [list(o.PSObject.adapted_properties), list(o.PSObject.extended_properties)]
    held = [(p, peek(p, "_value"), p.name) for p in runs]
    x = opq("x")
    call(setattr, o, "a", x)
    ctx.prove("reads back", call(getattr, o, "a") is x)
    ctx.prove("the property of the name", call(target.get_value, o) is x)
    if where == 2:
        ctx.prove("the hidden property", call(ad.get_value, o) is old)
    ctx.prove("the same properties", all(a is b for p, q in zip(lists, (o.PSObject.adapted_properties, o.PSObject.extended_properties)) for a, b in zip(p, q))
              and [len(p) for p in lists] == [len(o.PSObject.adapted_properties), len(o.PSObject.extended_properties)])
    for p, v, n in held:
        ctx.prove("values of the others", peek(p, "_value") is v and p.name is n)


@contract("C22")
def instance_any(ctx):
    """a new instance has its own copy of any number of declared properties, in order"""
    from vc.runs import Run
    r = Run(ctx, lambda a: T.PSNoteProperty(a.text("n", distinct=True), a.opaque("v"))).elem
    s = Run(ctx, lambda a: T.PSNoteProperty(a.text("m", distinct=True), a.opaque("w"))).elem
    c = klass([r], [s])
    o = inst(c)
    for mine, own in ((o.PSObject.adapted_properties, c.PSObject.adapted_properties), (o.PSObject.extended_properties, c.PSObject.extended_properties)):
        ctx.prove("as declared", len(mine) == 1 and len(own) == 1 and type(mine[0]) is T.PSNoteProperty)
        p, q = mine[0], own[0]
        ctx.prove("property of its own", p is not q)
        ctx.prove("name, type and value", eqb(p.name, q.name) and p.ps_type is q.ps_type and p.mandatory is q.mandatory and peek(p, "_value") is peek(q, "_value"))

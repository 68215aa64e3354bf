"""C10 object graphs, C11 no side effects, C21 CLIXML, C22 dynamic properties, C24 type restoring."""
import datetime
import decimal
import enum
import gc
import json
import os
import queue

from .common import *
from .common import ET
from psrpcore import ClixmlOutput, ClixmlShell
from psrpcore.types import ClixmlStream
from psrpcore.types import deserialize_clixml, serialize_clixml
from psrpcore.types._base import TypeRegistry

_CLS = {}


def test_classes():
    """Registered types used in graphs (registered once per process)."""
    if _CLS:
        return _CLS

    @T.PSType(["VC.Rehydrated", "VC.Base"], adapted_properties=[T.PSNoteProperty("A"), T.PSNoteProperty("B", ps_type=T.PSInt)],
              extended_properties=[T.PSNoteProperty("C")])
    class Rehydrated(T.PSObject):
        pass

    @T.PSType(["VC.Plain"], adapted_properties=[T.PSNoteProperty("P")], extended_properties=[T.PSNoteProperty("Q")], rehydrate=False)
    class Plain(T.PSObject):
        pass

    @T.PSType(["VC.List"])
    class MyList(T.PSListBase):
        pass

    @T.PSType(["VC.Stack"])
    class MyStack(T.PSStackBase):
        pass

    @T.PSType(["VC.Dict"])
    class MyDict(T.PSDictBase):
        pass

    @T.PSType(["VC.Queue"])
    class MyQueue(T.PSQueueBase):
        pass

    @T.PSType(["VC.Enum"])
    class MyEnum(T.PSEnumBase):
        none = 0
        One = 1
        Big = 2147483647
        Neg = -2147483648

    @T.PSType(["VC.Enum64"])
    class MyEnum64(T.PSEnumBase, base_type=T.PSUInt64):
        Zero = 0
        Top = 2 ** 64 - 1

    @T.PSType(["VC.Flags"])
    class MyFlags(T.PSFlagBase):
        none = 0
        A = 1
        B = 2
        C = 4

    @T.PSType(["VC.Fails"], adapted_properties=[T.PSScriptProperty("Boom", lambda s: 1 // 0)])
    class Fails(T.PSObject):
        pass

    @T.PSType(["VC.Str"], adapted_properties=[T.PSNoteProperty("Z")])
    class WithStr(T.PSObject):
        def __str__(self):
            return "text of Z %s" % (self.Z,)
    _CLS.update(locals())
    return _CLS


def scalar(rng):
    k = rng.randrange(17)
    C = test_classes()
    if k == 0:
        return None
    if k == 1:
        return rng.random() < 0.5
    if k == 2:
        return bint(rng, -2 ** 63, 2 ** 63 - 1)
    if k == 3:
        t = rng.choice([T.PSByte, T.PSSByte, T.PSInt16, T.PSUInt16, T.PSInt, T.PSUInt, T.PSInt64, T.PSUInt64])
        return t(bint(rng, t.MinValue, t.MaxValue))
    if k in (4, 5):
        return rand_text(rng)
    if k == 6:
        return T.PSString(rand_text(rng))
    if k == 7:
        return rand_bytes(rng, rng.randrange(6))
    if k == 8:
        return rand_uuid(rng) if rng.random() < 0.5 else T.PSGuid(int=rng.getrandbits(128))
    if k == 9:
        return T.PSVersion("%d.%d.%d" % (rng.randrange(9), rng.randrange(20), rng.randrange(3)))
    if k == 10:
        return rng.choice([0.5, 1e300, -2.25, 0.0])
    if k == 11:
        return T.PSDouble(rng.choice([0.1, -7.5]))
    if k == 12:
        return rng.choice(list(C["MyEnum"]) + list(C["MyEnum64"]) + [C["MyFlags"](rng.randrange(8))] + [T.ConsoleColor.Red, T.ErrorCategory.ReadError])
    if k == 13:
        return T.PSDuration(nanoseconds=bint(rng, -2 ** 60, 2 ** 60) // 100 * 100)
    if k == 14:
        return T.PSDateTime(2000 + rng.randrange(30), 1 + rng.randrange(12), 3, 4, 5, 6, rng.randrange(10 ** 6))
    if k == 15:
        return T.PSChar(rng.randrange(65536))
    return rng.choice([T.PSUri, T.PSScriptBlock, T.PSXml])(rand_text(rng, 5))


def hkey(rng):
    k = rng.randrange(8)
    return [lambda: rand_text(rng, 5), lambda: rng.randrange(10), lambda: T.PSString(rand_text(rng, 4)), lambda: rng.random() < 0.5,
            lambda: T.PSInt64(rng.randrange(10 ** 10)), lambda: rand_uuid(rng), lambda: T.PSVersion("1.%d" % rng.randrange(9)),
            lambda: T.PSDuration(nanoseconds=rng.randrange(100) * 100)][k]()


def tnames(rng):
    return rng.choice([["My.Type"], ["My.Type", "My.Base"], ["My.Type", "Other.Base"], [rand_text(rng, 5, plain=True) or "T"], ["VC.Unknown"], [], ["My.Type", "My.Type"], ["My.Type", "My.Base", "My.Type"],
                       ["Deserialized.My.Type", "My.Type"], ["My.Type", "", "x"]])


def own_names(rng, v):
    """a container of a type nobody registered"""
    if isinstance(v, T.PSObject) and rng.random() < 0.2:
        v.PSObject.type_names = rng.choice([["My.Coll"], ["My.Coll"] + v.PSObject.type_names])
    return v


BASES = [("PSQueueBase", "PSQueue"), ("PSDictBase", "PSDict"), ("PSStackBase", "PSStack"), ("PSIEnumerable", "PSIEnumerable"), ("PSListBase", "PSList")]


def graph(rng, depth=4, pool=None, shared=True, plain_ok=True):
    """A random value; objects in pool may be reached more than once."""
    C = test_classes()
    pool = [] if pool is None else pool
    if depth <= 0 or rng.random() < 0.3:
        return scalar(rng)
    if shared and pool and rng.random() < 0.25:
        return rng.choice(pool)

    def sub():
        return graph(rng, depth - 1, pool, shared, plain_ok)
    k = rng.randrange(14)
    many = amount(rng, 4)
    if many >= 4:
        def sub():
            return rng.choice(pool) if shared and pool and rng.random() < 0.2 else T.PSCustomObject(i=scalar(rng)) if rng.random() < 0.2 else scalar(rng)
    if k <= 2:
        v = rng.choice([T.PSList, T.PSStack, T.PSIEnumerable, C["MyList"], C["MyStack"]])() if rng.random() < 0.7 or not plain_ok else []
        for _ in range(many):
            list.append(v, sub())
        if isinstance(v, T.PSObject) and rng.random() < 0.3:
            T.add_note_property(v, "note" + rand_text(rng, 3), sub())
        return own_names(rng, v)
    if k <= 4:
        v = rng.choice([T.PSDict, C["MyDict"]])() if rng.random() < 0.7 or not plain_ok else {}
        for i in range(many):
            dict.__setitem__(v, hkey(rng) if many < 4 or i % 3 == 0 else 1000 + i, sub())
        if isinstance(v, T.PSObject) and rng.random() < 0.2:
            T.add_note_property(v, "note", sub())
        return own_names(rng, v)
    if k <= 6:
        v = rng.choice([T.PSQueue, C["MyQueue"]])() if rng.random() < 0.7 or not plain_ok else queue.Queue()
        if shared and isinstance(v, T.PSObject):
            pool.append(v)
        for _ in range(many):
            v.put(sub())
        return own_names(rng, v)
    if k == 7:
        v = C["Rehydrated"]()
        pool.append(v) if shared else None
        v.A, v.B, v.C = sub(), rng.randrange(100), sub()
        if rng.random() < 0.4:
            T.add_note_property(v, "Extra", sub())
        return v
    if k == 8:
        p = rng.choice([lambda: T.PSString(rand_text(rng, 4)), lambda: T.PSInt(rng.randrange(9)), lambda: T.PSByteArray(b"ab"), lambda: T.PSDouble(0.5)])()
        T.add_note_property(p, "ext", scalar(rng))
        if shared:
            pool.append(p)
        return p
    v = T.PSCustomObject()
    if rng.random() < 0.6:
        v.PSObject.type_names = tnames(rng)
    if rng.random() < 0.3:
        v.PSObject.to_string = rand_text(rng, 6)
    if shared:
        pool.append(v)
    used = set()
    for i in range(min(many, 300)):
        n = rng.choice(["a", "b", "Name", "x y", rand_text(rng, 4)]) if i < 5 else "p%d" % i
        if utf16(n) in used:
            continue
        used.add(utf16(n))
        T.add_note_property(v, n, sub())
    if rng.random() < 0.3:
        for _ in range(rng.randrange(3)):
            n = rng.choice(["ad", "ap", "aq"])
            if utf16(n) not in used:
                used.add(utf16(n))
                v.PSObject.adapted_properties.append(T.PSNoteProperty(n, value=sub()))
    return v


def same_graph(a, b, path="value", seen=None):
    """same() plus type names, string representation and object identity."""
    seen = {} if seen is None else seen
    if a is None or isinstance(a, (bool, enum.Enum)) or not isinstance(a, (T.PSObject, list, dict, queue.Queue)) or isinstance(a, T.PSVersion) and not meta(a).extended_properties:
        return same(a, b, path)
    ident = isinstance(a, T.PSObject) and type(a).__hash__ is not None
    primitive = isinstance(a, (str, int, float, bytes, uuid.UUID, datetime.datetime, datetime.timedelta, decimal.Decimal, T.PSVersion))
    if primitive and not (meta(a).adapted_properties or meta(a).extended_properties):
        return same(a, b, path)
    if ident:
        if id(a) in seen:
            need(seen[id(a)][1] is b, "%s: one object became several", path)
            return
        for oa, ob in seen.values():
            need(ob is not b, "%s: different objects became one", path)
        seen[id(a)] = (a, b)
    C = test_classes()
    if isinstance(a, T.PSObject) and not primitive:
        reg = isinstance(a, (C["Rehydrated"], C["MyList"], C["MyStack"], C["MyDict"], C["MyQueue"], T.PSList, T.PSStack, T.PSIEnumerable, T.PSDict, T.PSQueue))
        names = list(meta(a).type_names)
        got = list(meta(b).type_names)
        if reg and names[:1] == ["My.Coll"]:
            base = next(getattr(T, n) for c, n in BASES if isinstance(a, getattr(T, c)))
            need(type(b) is base, "%s: %s of another type became %s", path, type(a).__name__, type(b).__name__)
            need(got == ["Deserialized." + n for n in names], "%s: type names %a became %a", path, names, got)
        elif reg:
            need(type(b) is type(a), "%s: %s became %s", path, type(a).__name__, type(b).__name__)
            need(got == names, "%s: type names %r became %r", path, names, got)
        elif names and names[0] == "System.Management.Automation.PSCustomObject":
            need(type(b) is T.PSCustomObject and got == names, "%s: %r became %r %r", path, names, type(b).__name__, got)
        else:
            need(type(b) is T.PSObject, "%s: became %s", path, type(b).__name__)
            need(got == ["Deserialized." + n for n in names], "%s: type names %a became %a", path, names, got)
        if not isinstance(a, (list, dict, queue.Queue)):
            ts, tb = meta(a).to_string, meta(b).to_string
            if ts:
                need(tb is not None and utf16(tb) == utf16(ts), "%s: string representation %a became %a", path, ts, tb)
            else:
                need(not tb, "%s: string representation %a appeared", path, tb)
    else:
        need(norm_type(a) is type(b), "%s: %s became %s", path, type(a).__name__, type(b).__name__)
    if primitive:
        if isinstance(a, str):
            need(utf16(str.__str__(a)) == utf16(str.__str__(b)), "%s: text changed", path)
        elif isinstance(a, int):
            need(int(a) == int(b), "%s: %r became %r", path, int(a), int(b))
        elif isinstance(a, float):
            need(float(a) == float(b), "%s: float changed", path)
        elif isinstance(a, bytes):
            need(bytes(a) == bytes(b), "%s: bytes changed", path)
    if items_of(a) is not None:
        la, lb = items_of(a), items_of(b)
        need(len(la) == len(lb), "%s: %d elements became %d", path, len(la), len(lb))
        for i, (x, y) in enumerate(zip(la, lb)):
            same_graph(x, y, "%s[%d]" % (path, i), seen)
    elif isinstance(a, dict):
        la, lb = list(dict.items(a)), list(dict.items(b))
        need(len(la) == len(lb), "%s: %d entries became %d", path, len(la), len(lb))
        for i, ((k, x), (k2, y)) in enumerate(zip(la, lb)):
            same(k, k2, "%s.key%d" % (path, i))
            same_graph(x, y, "%s{%d}" % (path, i), seen)
    if isinstance(a, T.PSObject):
        for g in ("adapted_properties", "extended_properties"):
            pa, pb = props_of(a, g), props_of(b, g)
            need([utf16(n) for n, _ in pa] == [utf16(n) for n, _ in pb], "%s: %s %a became %a", path, g, [n for n, _ in pa], [n for n, _ in pb])
            for (n, x), (_, y) in zip(pa, pb):
                same_graph(x, y, "%s.%s" % (path, ascii(n)), seen)


# fixed shapes that matter, built by name so that a case is reproducible
def shape(name, rng):
    C = test_classes()
    A = T.add_note_property
    if name == "shared":
        o = T.PSCustomObject(v=1)
        return T.PSList([o, o, T.PSCustomObject(v=1), o])
    if name == "progress":
        res = T.PSList()
        for more in (("adapted_properties",), ("extended_properties",), ("adapted_properties", "extended_properties")):
            o = T.ProgressRecord(ActivityId=7, Activity="a_x0041_", StatusDescription="s", CurrentOperation="c", PercentComplete=3)
            for m in more:
                getattr(o.PSObject, m).append(T.PSNoteProperty("more" + m[0], [1, "x"]))
            res.append(o)
        return res
    if name == "temps":  # objects which exist only while they are serialized
        res = T.PSList()
        for i in range(30):
            def get(this, i=i):
                gc.collect(0)
                return T.PSCustomObject(v=i)
            o = T.PSCustomObject()
            o.PSObject.extended_properties.append(T.PSScriptProperty("p", get))
            res.append(o)
        return res
    if name == "self":
        o = T.PSCustomObject()
        A(o, "me", o)
        return o
    if name == "mutual":
        a, b = T.PSCustomObject(), T.PSCustomObject()
        A(a, "b", b)
        A(b, "a", a)
        A(b, "list", T.PSList([a, b]))
        return T.PSList([b, a])
    if name == "qself":
        q = T.PSQueue()
        q.put(1)
        o = T.PSCustomObject(q=q)
        q.put(o)
        return o
    if name == "rself":
        r = C["Rehydrated"]()
        r.A = r
        r.B = 1
        r.C = T.PSList([r])
        return r
    if name == "equal":
        a, b = T.PSString("same"), T.PSString("same")
        A(a, "n", 1)
        A(b, "n", 2)
        return T.PSList([a, b, a, "same"])
    if name == "equalint":
        a, b = T.PSInt(1), T.PSInt64(1)
        A(a, "n", 1)
        A(b, "n", 2)
        return T.PSList([a, b, True, 1])
    if name == "enums":
        return T.PSList([C["MyEnum"].none, C["MyEnum"].One, C["MyEnum"].One, C["MyEnum64"].Top, C["MyFlags"](3), C["MyFlags"](0), C["MyFlags"](3), C["MyEnum"].Neg, C["MyEnum64"].Zero])
    if name == "typenames":
        out = T.PSList()
        for tn in (["X"], ["X", "Y"], ["X", "Z"], ["X"], ["Y", "X"], [], ["X", "Y"], ["X", "Y", "Z"], ["X", "X"], ["X", "X", "Y"], ["X", "Y", "X"], ["x"], ["Deserialized.X"], ["X"]):
            o = T.PSCustomObject(p=len(out))
            o.PSObject.type_names = list(tn)
            list.append(out, o)
        return out
    if name == "empties":
        return T.PSList([T.PSList(), T.PSStack(), T.PSQueue(), T.PSDict(), T.PSIEnumerable(), [], {}, queue.Queue(), "", b"", T.PSCustomObject(), C["MyDict"](), C["MyQueue"](), C["MyList"]()])
    if name == "stackorder":
        return T.PSList([T.PSStack([1, 2, 3]), T.PSIEnumerable(["a", "b"]), C["MyStack"]([3, 2, 1])])
    if name == "foreign":
        out = T.PSList()
        for k in ("PSList", "PSStack", "PSIEnumerable", "PSDict", "PSQueue"):
            for tn in (["My.Coll"], ["My.Coll", "System.Object"]):
                v = getattr(T, k)()
                v.PSObject.type_names = tn
                v.put(1) if k == "PSQueue" else v.update({"k": 1}) if k == "PSDict" else list.append(v, 1)
                A(v, "n", 5)
                list.extend(out, [v, v])
        return out
    if name == "foreignself":
        q = T.PSQueue()
        q.PSObject.type_names = ["My.Coll"] + q.PSObject.type_names
        q.put(T.PSCustomObject(q=q))
        A(q, "me", q)
        return q
    if name == "notes":
        l = T.PSList([1])
        A(l, "n", T.PSDict({"a": l and 1}))
        d = T.PSDict({"k": T.PSList([None])})
        A(d, "n", 5)
        q = T.PSQueue()
        q.put("x")
        A(q, "n", 6)
        return T.PSList([l, d, q])
    if name == "deep":
        v = T.PSCustomObject(end=1)
        for i in range(60):
            v = [T.PSList([v]), T.PSDict({i: v}), T.PSCustomObject(i=v)][i % 3]
        return v
    if name == "wide":
        return T.PSList([T.PSCustomObject(i=i) for i in range(150)])
    if name.startswith("big:"):
        _, kind, n = name.split(":")
        n = int(n)
        xs = [T.PSCustomObject(i=i) if i % 5 == 0 else i for i in range(n)]
        if kind in ("PSList", "PSStack", "PSIEnumerable"):
            return getattr(T, kind)(xs)
        if kind in ("MyList", "MyStack"):
            return C[kind](xs)
        if kind in ("PSDict", "MyDict"):
            d = (T.PSDict if kind == "PSDict" else C[kind])()
            for i, x in enumerate(xs):
                dict.__setitem__(d, i if i % 2 else "k%d" % i, x)
            return d
        if kind in ("PSQueue", "MyQueue"):
            q = (T.PSQueue if kind == "PSQueue" else C[kind])()
            for x in xs:
                q.put(x)
            return q
        o = T.PSCustomObject()
        if kind == "ext":
            for i, x in enumerate(xs):
                A(o, "p%d" % i, x)
        elif kind == "adp":
            for i, x in enumerate(xs):
                o.PSObject.adapted_properties.append(T.PSNoteProperty("p%d" % i, value=x))
        elif kind == "tn":
            o.PSObject.type_names = ["My.T%d" % i for i in range(n)]
            return T.PSList([o, o, T.PSCustomObject(a=1)])
        elif kind == "tns":
            os_ = []
            for i in range(n):
                q = T.PSCustomObject(i=i)
                q.PSObject.type_names = ["My.T%d" % i]
                os_.append(q)
            return T.PSList(os_ + os_[::-1])
        elif kind == "text":
            return T.PSList(["a" * n, "_x0041_" * n, "\x00" * n, b"\xff" * n, T.PSXml("b" * n), T.PSScriptBlock("\n" * n)])
        return o
    if name == "tostr":
        out = T.PSList()
        for s in ("a", None, "b_x0041_", "\x00\ud800", None):
            o = T.PSCustomObject(p=1)
            if s is not None:
                o.PSObject.to_string = s
            list.append(out, o)
        return out
    if name == "names":
        o = T.PSCustomObject()
        for n in ("", " ", "_x0041_", "a b", "PS", "\ud83d", "N", "RefId", "\n"):
            A(o, n, n)
        return o
    if name == "dictkeys":
        return T.PSDict({"1": 1, 1: "1", T.PSInt64(2): None, T.PSVersion("1.0"): 1, uuid.UUID(int=5): [1], True and "t": False})
    if name == "withstr":
        w = C["WithStr"]()
        w.Z = "zz"
        return T.PSList([w, w])
    if name == "adapted":
        o = T.PSCustomObject(e1=1, e2=2)
        o.PSObject.adapted_properties.append(T.PSNoteProperty("a1", value=[1]))
        o.PSObject.adapted_properties.append(T.PSNoteProperty("a2", value={"x": None}))
        return o
    raise KeyError(name)


SHAPES = ["shared", "self", "mutual", "qself", "rself", "equal", "equalint", "enums", "typenames", "empties", "stackorder", "foreign", "foreignself", "notes", "deep", "wide", "tostr", "names", "dictkeys", "adapted", "progress", "temps", "plain"]
BIG = ["big:%s:%d" % (k, n) for n in (9, 33, 129, 257, 1030) for k in ("PSList", "PSStack", "PSIEnumerable", "MyList", "MyStack", "PSDict", "MyDict", "PSQueue", "MyQueue", "tn", "tns", "text")] + [
    "big:%s:%d" % (k, n) for n in (9, 33, 129, 257) for k in ("ext", "adp")]


# ------------------------------------------------------------------ C10
NUMBERS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "enums.json")))  # the numbers of [MS-PSRP] and .NET


class C10:
    @staticmethod
    def enums():
        from psrpcore.types import _enum
        return [k for k in dir(T) if isinstance(getattr(T, k), type) and issubclass(getattr(T, k), (_enum.PSEnumBase, _enum.PSFlagBase)) and len(getattr(T, k))]

    @staticmethod
    def check_enum(name):
        c = getattr(T, name)
        for k, v in NUMBERS.get(name, {}).items():
            need(k in c.__members__ and c.__members__[k].value == v, "%s.%s is %s, .NET has %d", name, k, c.__members__.get(k), v)
            want = k if name != "PSCredentialUIOptions" or k != "Default" else "ValidateUserNameSyntax"
            need(c(v).name == want, "%s(%d) is %s instead of %s", name, v, c(v), want)
        if name == "PSRPMessageType":
            return
        vals = list(c)
        if issubclass(c, enum.Flag):
            vals += [a | b for a in list(c) for b in list(c)]
        for m in vals:
            for b in (wire(m), wire(T.PSList([m, 1, m]))[2], wire(T.PSCustomObject(a=m)).a):
                need(type(b) is c, "enum value %s came back as %s", name, type(b).__name__)
                need(b == m and b.value == m.value, "enum value %s.%r became %r", name, m, b)

    @staticmethod
    def cases(rng, n):
        for k in C10.enums() + ["PSRPMessageType"]:
            yield dict(enum=k)
        for s in SHAPES + BIG:
            yield dict(shape=s)
        for _ in range(n):
            yield dict(seed=rng.getrandbits(40), depth=rng.randrange(1, 6))

    @staticmethod
    def check_plain():
        """plain Python objects: their public attributes and properties, by name"""
        class Point:
            kind = "point"

            def __init__(self, x):
                self.x, self._y, self.__z = x, 2, 3
                setattr(self, "a_x0041_b\t", "n")

            @property
            def norm(self):
                return [self.x]

            def method(self):
                return 1
        o = Point(1)
        for b, x in [(wire(o), 1)] + list(zip(wire([Point(1), Point("s"), Point(None)]), (1, "s", None))):
            need(type(b) is T.PSCustomObject, "a plain object became %s", type(b).__name__)
            got = {k: v for k, v in props_of(b, "extended_properties")}
            need(set(got) - {"_y"} == {"kind", "norm", "x", "a_x0041_b\t"}, "attributes of a plain object became %r", sorted(got))
            need(got["x"] == x and got["kind"] == "point" and list(got["norm"]) == [x] and got["a_x0041_b\t"] == "n", "attributes of a plain object became %r", got)

    @staticmethod
    def check(c):
        if "enum" in c:
            return C10.check_enum(c["enum"])
        if c.get("shape") == "plain":
            return C10.check_plain()
        rng = random.Random(c.get("seed", 0))
        v = shape(c["shape"], rng) if "shape" in c else graph(rng, c["depth"])
        if c.get("shape") == "progress":
            for a, b in zip(v, wire(v)):
                need(type(b) is T.ProgressRecord and list(b.PSTypeNames) == list(a.PSTypeNames), "a progress record became %s", type(b).__name__)
                for g in ("adapted_properties", "extended_properties"):
                    x, y = props_of(a, g), props_of(b, g)
                    need([n for n, _ in x] == [n for n, _ in y], "%s %r became %r", g, [n for n, _ in x], [n for n, _ in y])
                    for (n, p), (_, q) in zip(x, y):
                        same(p, q, n)
            return
        same_graph(v, wire(v))


# ------------------------------------------------------------------ C11
class _Boom(Exception):
    pass


class BoomCipher(T.PSCryptoProvider):
    def encrypt(self, v):
        raise _Boom()


class C11:
    @staticmethod
    def cases(rng, n):
        for s in [s for s in SHAPES if s not in ("temps", "plain")] + ["withstr"]:
            yield dict(shape=s)
            yield dict(shape=s, fail=1)
        for s in BIG:
            if not s.endswith("1030"):
                yield dict(shape=s)
        for s in ["queues", "error", "pipeline", "hostinfo", "credential", "host", "messages", "progress"]:
            yield dict(special=s)
        for _ in range(n):
            yield dict(seed=rng.getrandbits(40), depth=rng.randrange(1, 6), **({"fail": 1} if rng.random() < 0.4 else {}))

    @staticmethod
    def special(name):
        if name == "queues":
            qs = [queue.LifoQueue(), queue.PriorityQueue(), queue.Queue(maxsize=3), queue.LifoQueue(maxsize=3)]
            for q in qs:
                for x in (3, 1, 2):
                    q.put(x)
            return [T.PSCustomObject(a=qs[0]), {"p": qs[1]}] + qs
        if name == "error":
            e = T.ErrorRecord(Exception=T.NETException(Message="m"), CategoryInfo=T.ErrorCategoryInfo(Category=T.ErrorCategory.ReadError, Activity="a"),
                              TargetObject=T.PSQueue(), InvocationInfo=T.InvocationInfo(BoundParameters={"a": 1}, CommandOrigin=T.CommandOrigin.Runspace))
            e.TargetObject.put(1)
            e.serialize_extended_info = True
            return [e, T.WarningRecord(Message="w"), T.DebugRecord(Message="d"), e]
        if name == "pipeline":
            from psrpcore import PowerShell, Command
            p = PowerShell()
            for i in range(3):
                cmd = Command("c%d" % i)
                cmd.add_parameter("n", [1, {"a": 2}])
                cmd.add_argument(None)
                cmd.end_of_statement = i == 1
                cmd.redirect_all()
                p.commands.append(cmd)
            return [p, p]
        if name == "hostinfo":
            from psrpcore.types import HostDefaultData, HostInfo, Coordinates, Size
            return [HostInfo(IsHostNull=False, HostDefaultData=HostDefaultData(ForegroundColor=T.ConsoleColor.Red, BackgroundColor=T.ConsoleColor.Blue, CursorPosition=Coordinates(X=1, Y=2),
                             WindowPosition=Coordinates(X=3, Y=4), CursorSize=5, BufferSize=Size(Width=1, Height=2), WindowSize=Size(Width=1, Height=2), MaxWindowSize=Size(Width=1, Height=2),
                             MaxPhysicalWindowSize=Size(Width=1, Height=2), WindowTitle="t"))]
        if name == "credential":
            return [T.PSCredential(UserName="u", Password=T.PSSecureString("p")), T.PSSecureString("q")]
        if name == "host":
            return [T.BufferCell(Character=T.PSChar("a"), ForegroundColor=1, BackgroundColor=2, BufferCellType=0), T.ChoiceDescription(Label="l"), T.Coordinates(X=1, Y=2),
                    T.FieldDescription(Name="n"), T.Rectangle(Left=1, Top=2, Right=3, Bottom=4), T.Size(Width=1, Height=2)]
        if name == "messages":
            return [T.SessionCapability(PSVersion="2.0", protocolversion="2.3", SerializationVersion="1.1.0.1"), T.RunspacePoolStateMsg(RunspaceState=2), T.PipelineState(PipelineState=4),
                    T.ConnectRunspacePool(MinRunspaces=1, MaxRunspaces=2), T.UserEvent(EventIdentifier=1, SourceArgs=[1, T.PSQueue()])]
        return [T.ProgressRecord(ActivityId=1, Activity="a", StatusDescription="s"), T.InformationRecord(MessageData=T.PSQueue(), Tags=["a"])]

    @staticmethod
    def check(c):
        class Ciph(T.PSCryptoProvider):
            def encrypt(self, v):
                return "ENC"
        C = test_classes()
        rng = random.Random(c.get("seed", 0))
        if "special" in c:
            v = C11.special(c["special"])
        elif "shape" in c:
            v = shape(c["shape"], rng)
        else:
            v = graph(rng, c["depth"])
        if c.get("fail"):
            bad = rng.choice([lambda: C["Fails"](), lambda: T.PSSecureString("x"), lambda: 3 + 4j if False else C["Fails"]()])()
            q = T.PSQueue()
            for x in (1, v, bad, 2):
                q.put(x)
            v = rng.choice([q, T.PSList([v, q, bad]), T.PSDict({"a": v, "b": q, "c": bad}), T.PSCustomObject(a=q, b=bad)])
            if isinstance(v, dict) is False and rng.random() < 0.3:
                q2 = queue.Queue()
                for x in (0, v, bad):
                    q2.put(x)
                v = q2
        before = snapshot(v)

        def attempt():
            try:
                return ET.tostring(serialize(v, BoomCipher() if c.get("fail") else Ciph()))
            except (_Boom, ZeroDivisionError) as e:
                need(c.get("fail"), "serialization failed: %r", e)
                return type(e).__name__
        first = attempt()
        need(snapshot(v) == before, "serializing changed the value")
        second = attempt()
        need(first == second, "serializing a second time gives a different result")
        need(snapshot(v) == before, "serializing twice changed the value")
        if not c.get("fail"):
            third = ET.tostring(serialize([v, v], Ciph()))
            need(snapshot(v) == before, "serializing inside a list changed the value")
            need(third == ET.tostring(serialize([v, v], Ciph())), "serializing a larger value a second time gives a different result")
            serialize_clixml([v], Ciph())
            need(snapshot(v) == before, "serializing as CLIXML changed the value")


# ------------------------------------------------------------------ C21
class C21:
    STREAMS = list(ClixmlStream)

    @staticmethod
    def cases(rng, n):
        yield dict(k="doc", seed=0, n=0)
        yield dict(k="shell", ops=["r", "r", "o", "r", "r", "e", "w", "r"], seed=1)
        for ops in ("xr", "oxr", "xor", "rewxrxr", "orxpr"):
            yield dict(k="shell", ops=list(ops), seed=2)
        yield dict(k="short", seed=0)
        for s in range(7):
            yield dict(k="doc", seed=s, n=1, stream=s)
        for _ in range(n):
            if rng.random() < 0.6:
                yield dict(k="doc", seed=rng.getrandbits(32), n=amount(rng, 7, 0.01, 300))
            else:
                yield dict(k="shell", seed=rng.getrandbits(32), ops=[rng.choice("oedvwpirrrx") for _ in range(amount(rng, 14, 0.01, 300))])

    @staticmethod
    def check(c):
        rng = random.Random(c["seed"])
        if c["k"] == "doc":
            vals, tags = [], []
            for i in range(c["n"]):
                v = graph(rng, 2, shared=False) if rng.random() < 0.5 else scalar(rng)
                if isinstance(v, tuple):
                    v = "t"
                vals.append(v)
                tags.append(ClixmlStream(C21.STREAMS[c["stream"]]) if "stream" in c else rng.choice([None] + C21.STREAMS))
            if vals and rng.random() < 0.3:
                o = T.PSCustomObject(shared=1)
                vals += [o, o]
                tags += [None, None]
            text = serialize_clixml([v if t is None else (v, t) for v, t in zip(vals, tags)], NoCipher())
            need(isinstance(text, str), "not text")
            for prefix in ("", "#< CLIXML\n", "#< CLIXML\r\n", "#< CLIXML"):
                back = deserialize_clixml(prefix + text, NoCipher(), preserve_streams=True)
                need(len(back) == len(vals), "%d entries became %d", len(vals), len(back))
                seen = {}
                for i, ((b, st), v, t) in enumerate(zip(back, vals, tags)):
                    need(st is (t or ClixmlStream.OUTPUT), "entry %d of stream %s came back in %s", i, t, st)
                    same_graph(v, b, "entry %d" % i, seen)
                plain = deserialize_clixml(prefix + text, NoCipher())
                need(isinstance(plain, list) and len(plain) == len(vals), "%d entries became %d", len(vals), len(plain))
                seen = {}
                for i, (b, v) in enumerate(zip(plain, vals)):
                    same_graph(v, b, "entry %d" % i, seen)
            pair = [(1, "Error"), ("a", ClixmlStream.ERROR.value), ("x", None)]
            back = deserialize_clixml(serialize_clixml(pair + [("y", ClixmlStream.ERROR)], NoCipher()), NoCipher(), preserve_streams=True)
            need([s for _, s in back] == [ClixmlStream.OUTPUT] * 3 + [ClixmlStream.ERROR], "pairs that are no tags came back in the streams %r", [s for _, s in back])
            if vals and not isinstance(vals[0], list):
                one = deserialize_clixml(serialize_clixml(vals[0], NoCipher()), NoCipher())
                need(len(one) == 1, "one value became %d", len(one))
                same_graph(vals[0], one[0])
            return
        if c["k"] == "short":  # documents of other writers
            for text in ("", "a", "jk lm\u00ef"):
                hexa = text.encode("utf-16-le").hex()
                for h in (hexa, hexa.upper()):
                    for doc in ("<Objs><SS>%s</SS></Objs>" % h, '<Objs Version="1.1.0.1" xmlns="http://schemas.microsoft.com/powershell/2004/04"><SS S="Output">%s</SS></Objs>' % h):
                        for d in (doc, "#< CLIXML\r\n" + doc):
                            out = ClixmlOutput.from_clixml(d)
                            need(len(out.output) == 1 and out.output[0].decrypt() == text, "secure string %a in %a was not read", text, d)
            for doc, want in (("<Objs/>", []), ("<Objs><I32>1</I32></Objs>", [1]), ("<Objs><S S=\"Error\">a</S><Nil/></Objs>", [None])):
                out = ClixmlOutput.from_clixml([doc, "", doc])
                need(out.output == want * 2, "%a was read as %r", doc, out.output)
                need([str(e) for e in out.error] == ["a"] * 2 * ("Error" in doc), "errors of %a were read as %r", doc, out.error)
            return
        sh = ClixmlShell()
        pend, docs, exp, first = 0, [], {k: [] for k in "oedvwpi"}, True
        sources, got_sources = [], []

        def read():
            nonlocal pend, first
            t = sh.data_to_send()
            if pend == 0:
                need(t == "", "text %a although nothing was written", t)
                return
            need(t != "", "nothing emitted although %d entries were written", pend)
            body = t
            if first:
                need(t.startswith("#< CLIXML"), "first text %a lacks the marker", t[:30])
                body = t[len("#< CLIXML"):].lstrip("\r\n")
            else:
                need("#< CLIXML" not in t[:12], "marker repeated")
            first = False
            docs.append(t if rng.random() < 0.5 else body)
            ents = deserialize_clixml(t.lstrip("\n") if t.startswith("\n") else t, T.PSCryptoProvider(), preserve_streams=True)
            need(len(ents) == pend, "%d entries written, %d emitted", pend, len(ents))
            for e, st in ents:
                if st is ClixmlStream.PROGRESS:
                    got_sources.append(getattr(e, "SourceId", None))
            need(got_sources == sources, "progress written by the sources %r has the sources %r", sources, got_sources)
            pend = 0
        for i, op in enumerate(c["ops"]):
            if op == "r":
                read()
                continue
            if op == "x":  # a value which cannot be read the first time
                once = []

                def getter(this, once=once):
                    if not once:
                        once.append(1)
                        raise _Boom()
                    return 1
                v = T.PSCustomObject()
                v.PSObject.extended_properties.append(T.PSScriptProperty("p", getter))
                sh.write_output(v)
                exp["o"].append(v)
                pend += 1
                try:
                    sh.data_to_send()
                    raise Bad("the error of a value was swallowed")
                except _Boom:
                    pass
                continue
            pend += 1
            txt = rand_text(rng, 8) + "#%d" % i
            if op == "o":
                v = graph(rng, 2, shared=False) if rng.random() < 0.4 else scalar(rng) if rng.random() < 0.8 else T.PSSecureString(txt[:-1 if i > 9 else None] if rng.random() < 0.9 else "")
                sh.write_output(v)
            elif op == "e":
                v = T.ErrorRecord(Exception=T.NETException(Message=txt), CategoryInfo=T.ErrorCategoryInfo(), FullyQualifiedErrorId="id%d" % i) if rng.random() < 0.6 else txt
                sh.write_error(v)
            elif op == "p":
                v = T.ProgressRecord(ActivityId=i, Activity=rng.choice([txt, txt, ""]), StatusDescription=rng.choice(["s", "", txt]), PercentComplete=i, CurrentOperation=rng.choice([None, "", txt]), ParentActivityId=rng.choice([-1, i]),
                                     RecordType=rng.choice(list(T.ProgressRecordType)), SecondsRemaining=rng.choice([-1, 0, 2 ** 31 - 1]))
                sources.append(rng.randrange(2 ** 40))
                sh.write_progress(sources[-1], v)
            elif op == "i":
                v = T.InformationRecord(MessageData=txt, Source=rng.choice(["src", ""]), Tags=rng.choice([[], ["a"], ["a", ""]]), User=rng.choice(["", "u"]), ProcessId=i)
                sh.write_information(v)
            else:
                v = txt
                {"d": sh.write_debug, "v": sh.write_verbose, "w": sh.write_warning}[op](v)
            exp[op].append(v)
        read()
        for x in ("", None) if False else ("",):
            docs.insert(rng.randrange(len(docs) + 1), x)
        out = ClixmlOutput.from_clixml(docs)
        for op, name in zip("oedvwpi", ("output", "error", "debug", "verbose", "warning", "progress", "information")):
            got = getattr(out, name)
            need(len(got) == len(exp[op]), "%s: %d entries written, %d read", name, len(exp[op]), len(got))
            for v, g in zip(exp[op], got):
                if op == "o" and isinstance(v, T.PSSecureString):
                    need(isinstance(g, T.PSSecureString) and utf16(g.decrypt()) == utf16(v.decrypt()), "secure string %a became %a", v.decrypt(), g)
                elif op == "o":
                    same_graph(v, g, name)
                elif op == "e":
                    m = v if isinstance(v, str) else v.Exception.Message
                    need(isinstance(g, T.ErrorRecord) and utf16(str(g.Exception.Message)) == utf16(str(m)), "error %a became %a", m, g)
                    if not isinstance(v, str):
                        need(g.FullyQualifiedErrorId == v.FullyQualifiedErrorId, "error id changed")
                elif op == "p":
                    for k in ("ActivityId", "Activity", "StatusDescription", "PercentComplete", "CurrentOperation", "ParentActivityId", "RecordType", "SecondsRemaining"):
                        a, b = getattr(v, k), getattr(g, k)
                        if isinstance(a, str) and isinstance(b, str):
                            a, b = utf16(str(a)), utf16(str(b))
                        need(a == b and (k != "RecordType" or type(b) is T.ProgressRecordType), "progress %s: %r became %r", k, a, b)
                elif op == "i":
                    need(utf16(str(g.MessageData)) == utf16(str(v.MessageData)) and (g.Source, g.User, list(g.Tags), int(g.ProcessId)) == (v.Source, v.User, v.Tags, int(v.ProcessId)), "information changed: %r %r", g, v)
                else:
                    need(type(g) is {"d": T.DebugRecord, "v": T.VerboseRecord, "w": T.WarningRecord}[op] and utf16(str(g.Message)) == utf16(v), "%s %a became %a", name, v, g.Message)


# ------------------------------------------------------------------ C22
class C22:
    @staticmethod
    def cases(rng, n):
        for _ in range(n):
            yield dict(seed=rng.getrandbits(40))

    @staticmethod
    def check(c):
        rng = random.Random(c["seed"])
        names = ["Alpha", "beta", "Gamma", "Delta", "eps"]
        if rng.random() < 0.01:
            names += ["N%d" % i for i in range(rng.choice([12, 40, 70, 130]))]
        ptypes = {None: None, "PSInt": T.PSInt, "PSString": T.PSString, "PSList": T.PSList, "PSInt64": T.PSInt64, "bool": bool}

        def val(pt):
            if pt is None:
                return rng.choice([1, "x", None, [1], T.PSInt(3), 0, "", False])
            return {"PSInt": rng.choice([0, 1, -5, "7", T.PSInt(3), None]), "PSString": rng.choice(["a", "", T.PSString("s"), None]), "PSList": rng.choice([[1], [], T.PSList([2]), None]),
                    "PSInt64": rng.choice([2 ** 40, 0, T.PSInt64(1), None]), "bool": rng.choice([True, False, None])}[pt]

        def cast(v, pt):
            return v if v is None or pt is None or isinstance(v, ptypes[pt]) else ptypes[pt](v)

        # a class with random declared properties: spec[name] = [group, type, mandatory, default, has default]
        decl, groups = {}, {"adapted": [], "extended": []}
        for nme in rng.sample(names, rng.randrange(0, 5) if len(names) < 9 else len(names)):
            g = rng.choice(["adapted", "extended"])
            pt = rng.choice(list(ptypes))
            mand = rng.random() < 0.3
            hasd = not mand and rng.random() < 0.5
            d = val(pt)
            decl[nme] = [g, pt, mand, d, hasd]
            groups[g].append(T.PSNoteProperty(nme, **({"value": d} if hasd else {}), mandatory=mand, ps_type=ptypes[pt]))
        both = None
        if rng.random() < 0.3:
            both = "Both"
            groups["adapted"].append(T.PSNoteProperty("Both", value="ad"))
            groups["extended"].append(T.PSNoteProperty("Both", value="ex"))
        tn = ["Vc22.%d" % c["seed"], "Vc22.Base"]

        class Cls(T.PSObject):
            pass
        inherit = rng.random() < 0.4
        ptd = None
        if inherit:
            class Base(T.PSObject):
                pass
            T.PSType(["Vc22b.%d" % c["seed"]], extended_properties=[T.PSNoteProperty("Inherited", value="i")], rehydrate=False)(Base)

            class Cls(Base):
                pass
        T.PSType(list(tn), adapted_properties=groups["adapted"], extended_properties=groups["extended"], rehydrate=False)(Cls)
        order = [n for n in decl if decl[n][0] == "adapted"] + (["Both"] if both else []) + [n for n in decl if decl[n][0] == "extended"] + (["Inherited"] if inherit else [])
        cls_types = list(Cls.PSObject.type_names)
        need(cls_types[:2] == tn, "class type names %r", cls_types)

        def group_snapshot():
            return ([(p.name, p.mandatory, p.ps_type, repr(p.get_value(None)) if p.getter is None else None) for p in Cls.PSObject.adapted_properties],
                    [(p.name, p.mandatory, p.ps_type, repr(p.get_value(None)) if p.getter is None else None) for p in Cls.PSObject.extended_properties], list(Cls.PSObject.type_names))
        cls_before = group_snapshot()
        # construction
        mand = [n for n in decl if decl[n][2]]
        kw = {n: val(decl[n][1]) for n in decl if decl[n][2] or rng.random() < 0.3}
        for wrong in ("unknown", "missing", "repeated"):
            try:
                if wrong == "unknown":
                    Cls(**dict(kw, Unknown=1))
                elif wrong == "missing":
                    if not mand:
                        continue
                    m = rng.choice(mand)
                    Cls(**{k: v for k, v in kw.items() if k != m})
                else:
                    if not order or order[0] in ("Both", "Inherited"):
                        continue
                    Cls(1 if False else kw.get(order[0]), **dict(kw, **{order[0]: kw.get(order[0])}))
            except TypeError:
                continue
            raise Bad("creating an object with %s properties was accepted" % wrong)
        try:
            Cls(*([None] * (len(order) + 1)))
        except TypeError:
            pass
        else:
            raise Bad("too many positional properties were accepted")
        npos = 0
        if rng.random() < 0.3 and order and all(o in decl for o in order[:2]):
            npos = min(len(order), rng.randrange(1, 3))
        pos = [val(decl[o][1]) for o in order[:npos]] if all(o in decl for o in order[:npos]) else []
        kw = {k: v for k, v in kw.items() if k not in order[:len(pos)]}
        a, b = Cls(*pos, **kw), None
        b = Cls(**{n: None for n in mand})
        model, modelb = {}, {}
        for n, (g, pt, m, d, hasd) in decl.items():
            v = cast(d, pt) if hasd else None
            modelb[n] = None if m else v
            if n in order[:len(pos)]:
                v = cast(pos[order.index(n)], pt)
            elif n in kw:
                v = cast(kw[n], pt)
            model[n] = v
        if both:
            model["Both"] = modelb["Both"] = "ex"
        if inherit:
            model["Inherited"] = modelb["Inherited"] = "i"
        ptype = {n: decl[n][1] for n in decl}
        script_log = []
        readonly = set()

        def verify():
            for obj, m in ((a, model), (b, modelb)):
                for n, v in m.items():
                    for got in (getattr(obj, n), obj[n]):
                        need(type(got) is type(v) and (got == v), "%s of %s instance reads %r instead of %r", n, "changed" if obj is a else "other", got, v)
            need(group_snapshot() == cls_before, "the class changed: %r", group_snapshot())
            need(list(b.PSObject.type_names) == cls_types, "type names of the other instance changed: %r", list(b.PSObject.type_names))
        verify()
        aliases = {}
        for step in range(rng.randrange(1, 12)):
            k = rng.randrange(7)
            if k <= 2 and model:
                n = rng.choice(list(model))
                if n in aliases or n in readonly:
                    try:
                        setattr(a, n, 1)
                    except ValueError:
                        verify()
                        continue
                    raise Bad("a property without a setter was set")
                v = val(ptype.get(n))
                if rng.random() < 0.5:
                    setattr(a, n, v)
                else:
                    a[n] = v
                model[n] = cast(v, ptype.get(n))
                for al, tgt in aliases.items():
                    if tgt == n:
                        model[al] = model[n]
            elif k == 3:
                n = rng.choice(names + ["New%d" % step, "Both"])
                pt = rng.choice(list(ptypes))
                v = val(pt)
                force = rng.random() < 0.5
                if n in model and not force:
                    try:
                        T.add_note_property(a, n, v, ps_type=ptypes[pt])
                    except RuntimeError:
                        verify()
                        continue
                    raise Bad("property %s was added over an existing one" % n)
                T.add_note_property(a, n, v, ps_type=ptypes[pt], force=force)
                readonly.discard(n)
                aliases.pop(n, None)
                model[n], ptype[n] = cast(v, pt), pt
                for al, tgt in aliases.items():
                    if tgt == n:
                        model[al] = model[n]
            elif k == 4 and model:
                tgt = rng.choice(list(model))
                n = "Alias%d" % step
                if tgt in aliases or tgt in readonly:
                    continue
                T.add_alias_property(a, n, tgt)
                for again in (lambda **k: T.add_alias_property(a, n, tgt, **k), lambda **k: T.add_member(a, T.PSAliasProperty(n, tgt), **k)):
                    try:
                        again()
                    except RuntimeError:
                        pass
                    else:
                        raise Bad("an alias was added over an existing property")
                    verify()
                    again(force=True)
                aliases[n] = tgt
                model[n] = model[tgt]
            elif k == 5:
                n = "Script%d" % step
                store = {"v": "init"}
                withset = rng.random() < 0.6

                def getter(self, store=store):
                    return store["v"]

                def setter(self, value, store=store):
                    store["v"] = ("set", value)
                over = rng.random() < 0.5
                if over:
                    T.add_note_property(a, n, "before")
                    for f in (None, False):
                        try:
                            T.add_script_property(a, n, lambda s: 0, **({} if f is None else {"force": f}))
                        except RuntimeError:
                            need(getattr(a, n) == "before", "a refused property changed the value")
                        else:
                            raise Bad("a script property was added over an existing property")
                T.add_script_property(a, n, lambda s, g=getter: g(s), setter=(lambda s, v, f=setter: f(s, v)) if withset else None, **({"force": True} if over else {}))
                if withset:
                    need(getattr(a, n) == "init", "script property read")
                    setattr(a, n, step)
                    need(store["v"] == ("set", step) and getattr(a, n) == ("set", step), "script property setter")
                    setattr(b, "Plain%d" % step, 5)
                    need(getattr(b, "Plain%d" % step) == 5 and not hasattr(a, "Plain%d" % step), "plain attribute")
                else:
                    readonly.add(n)
                    model[n] = "init"
            else:
                a.PSObject.type_names.insert(0, "T%d" % step) if rng.random() < 0.5 else setattr(a.PSObject, "type_names", ["N%d" % step])
            verify()
        # a property added under the name of a plain attribute
        setattr(b, "Attr", 1)
        kind = rng.randrange(3)
        if kind == 0:
            T.add_note_property(b, "Attr", 2)
        elif kind == 1:
            T.add_script_property(b, "Attr", lambda s: 2, setter=lambda s, v: None)
        else:
            T.add_script_property(b, "Attr", lambda s: 2)
        need(b.Attr == 1 and b["Attr"] == 1, "a plain attribute changed to %r with the property added", b.Attr)
        setattr(b, "Attr", 3)
        need(b.Attr == 3 and b["Attr"] == 3, "a plain attribute of a property's name was set to 3 and reads %r", b.Attr)
        # functions which take the object and the value in other ways
        got = []
        T.add_script_property(b, "Star", lambda *s: len(s), setter=lambda *s: got.append(s))
        T.add_script_property(b, "Dflt", lambda s, k=5: k, setter=lambda s, v, k=5: got.append((s, v)))
        for n, w in (("Star", 1), ("Dflt", 5)):
            need(getattr(b, n) == w, "script property %s reads %r", n, getattr(b, n))
            setattr(b, n, "val")
        need(len(got) == 2 and all(len(s) == 2 and s[0] is b and s[1] == "val" for s in got), "setters were given %r", got)
        # a third instance created afterwards is not affected
        d3 = Cls(**{n: None for n in mand})
        for n, v in modelb.items():
            need(getattr(d3, n) == v, "%s of a new instance is %r instead of %r", n, getattr(d3, n), v)
        need(list(d3.PSObject.type_names) == cls_types, "type names of a new instance %r", list(d3.PSObject.type_names))
        need(len(d3.PSObject.extended_properties) == len(cls_before[1]), "properties of a new instance")
        try:
            getattr(a, "DoesNotExist")
        except AttributeError:
            pass
        else:
            raise Bad("an unknown property was read")
        # the property objects of an instance are its own
        for p in a.PSObject.adapted_properties + a.PSObject.extended_properties:
            if p.name in decl:
                p.mandatory, p.ps_type = not p.mandatory, dict
            if p.getter is not None and not isinstance(p, T.PSAliasProperty):
                p.getter = lambda s: "own"
        need(group_snapshot() == cls_before, "the class changed with the property objects of an instance")
        for n, v in modelb.items():
            need(getattr(b, n) == v and getattr(d3, n) == v, "%s of another instance changed with the property objects of an instance", n)
        C22.declared(rng)

    @staticmethod
    def declared(rng):
        """script and alias properties declared by a class"""
        class Cls(T.PSObject):
            pass
        pts = {k: rng.choice([None, None, T.PSInt]) for k in "PQR"}
        setp = rng.random() < 0.7

        def getp(self):
            return object.__getattribute__(self, "__dict__").get("_p", 1)

        def storep(self, value):
            self._p = value
        grp = {"adapted_properties": [], "extended_properties": []}
        for p in (T.PSScriptProperty("P", getp, storep if setp else None, ps_type=pts["P"]),
                  T.PSNoteProperty("Q", value=7, ps_type=pts["Q"]), T.PSAliasProperty("R", rng.choice(["P", "Q"]), ps_type=pts["R"])):
            grp[rng.choice(list(grp))].append(p)
        alias = next(p for g in grp.values() for p in g if p.name == "R").alias
        T.PSType(["Vc22d"], rehydrate=False, **grp)(Cls)
        a, b = Cls(), Cls()

        def read(o, P, Q, what):
            want = {"P": P, "Q": Q, "R": P if alias == "P" else Q}
            for n, v in want.items():
                need(getattr(o, n) == v, "%s of %s reads %r instead of %r", n, what, getattr(o, n), v)
                if pts[n]:
                    need(type(getattr(o, n)) is pts[n], "%s of %s is a %s", n, what, type(getattr(o, n)))
        read(a, 1, 7, "a new instance")
        P = 1
        try:
            a.P = 3
            need(setp, "a property without a setter was set")
            P = 3
        except ValueError:
            need(not setp, "a property with a setter was refused")
        a.Q = 9
        read(a, P, 9, "the changed instance")
        read(b, 1, 7, "the other instance")
        for p in a.PSObject.adapted_properties + a.PSObject.extended_properties:
            if p.name == "P":
                if rng.random() < 0.5:
                    p.getter = lambda s: 55
                    P = 55
                p.setter = rng.choice([None, lambda s, v: None])
                own = p.setter
        read(a, P, 9, "the changed instance")
        read(b, 1, 7, "the other instance")
        read(Cls(), 1, 7, "a new instance")
        try:
            b.P = 4
            need(setp, "a property without a setter was set")
            read(b, 4, 7, "the other instance")
        except ValueError:
            need(not setp, "the setter of another instance is gone")
        for prm in (Cls.PSObject.adapted_properties, Cls.PSObject.extended_properties):
            for p in prm:
                need(p.name != "P" or (p.getter is getp and p.setter is (storep if setp else None)), "the class changed")


# ------------------------------------------------------------------ C24
class C24:
    _n = 0

    @staticmethod
    def cases(rng, n):
        for _ in range(n):
            yield dict(seed=rng.getrandbits(40))

    @staticmethod
    def check(c):
        rng = random.Random(c["seed"])
        C24._n += 1
        u = "Vc24.%x.%d" % (c["seed"], C24._n)
        reg = TypeRegistry()
        names = ["%s.A" % u, "%s.B" % u, "%s.C" % u, "%s.D" % u]
        owner, tag_owner, classes = {}, {}, []
        tags = ["%sx" % u.replace(".", "_"), "%sy" % u.replace(".", "_")]
        try:
            for i in range(rng.randrange(0, 5)):
                kind = rng.randrange(4)
                tn = [rng.choice(names)] + rng.sample(names, rng.randrange(0, 3))
                reh = rng.random() < 0.7
                tag = rng.choice([None, None] + tags)
                if kind == 0:
                    class K(T.PSEnumBase):
                        zero = 0
                        one = 1
                elif kind == 1:
                    class K(T.PSListBase):
                        pass
                else:
                    base = rng.choice([T.PSObject] * 2 + [k[0] for k in classes if k[2] > 1])

                    class K(base):
                        pass
                T.PSType(list(tn), rehydrate=reh, tag=tag)(K)
                full = list(K.PSObject.type_names)
                need(full[:len(tn)] == tn, "type names of the class %r", full)
                classes.append((K, full, kind))
                if reh and tn[0] not in owner:
                    owner[tn[0]] = (K, full, kind)
                if tag is not None and tag not in tag_owner:
                    tag_owner[tag] = K
            for nme in names:
                need(reg.type_registry.get(nme) is (owner[nme][0] if nme in owner else None), "type registered for %s", nme)
            for tag in tags:
                need(reg.element_registry.get(tag) is tag_owner.get(tag), "type registered for element %s", tag)
            # restoring
            for _ in range(4):
                tl = rng.sample(names + [u + ".Z", "Deserialized." + u], rng.randrange(0, 4))
                tl += ["%s.M%d" % (u, i) for i in range(amount(rng, 1, 0.02))]
                inner = ""
                k = owner.get(tl[0]) if tl else None
                if k and k[2] == 0:
                    inner = "<I32>1</I32>"
                elif k and k[2] == 1:
                    inner = "<LST><I32>5</I32></LST>"
                tnx = "<TN RefId=\"0\">%s</TN>" % "".join("<T>%s</T>" % x for x in tl) if tl else ""
                ms = "" if (k and k[2] == 0) else "<MS><S N=\"p\">v</S></MS>"
                xml = "<Obj RefId=\"0\">%s%s%s</Obj>" % (tnx, inner, ms)
                v = deserialize(ET.fromstring(xml), NoCipher())
                if k:
                    need(type(v) is k[0], "%r restored as %s", tl, type(v).__name__)
                    need(list(v.PSObject.type_names) == k[1], "restored type names %r, expected %r", list(v.PSObject.type_names), k[1])
                    if k[2] == 1:
                        need(list(list.__iter__(v)) == [5], "list content")
                else:
                    need(type(v) is T.PSObject, "%r restored as %s", tl, type(v).__name__)
                    need(list(v.PSObject.type_names) == ["Deserialized." + x for x in tl], "type names %r became %r", tl, list(v.PSObject.type_names))
                if not (k and k[2] == 0):
                    need(v.p == "v", "property lost")
            # references to type names belong to the right object
            t1, t2 = rng.sample([names[0], names[1], u + ".Q"], 2)
            xml = ("<Obj RefId=\"9\"><LST><Obj RefId=\"0\"><TN RefId=\"0\"><T>%s</T></TN><MS/></Obj><Obj RefId=\"1\"><TN RefId=\"1\"><T>%s</T></TN></Obj>"
                   "<Obj RefId=\"2\"><TNRef RefId=\"0\"/></Obj><Obj RefId=\"3\"><TNRef RefId=\"1\"/></Obj></LST></Obj>") % (t1, t2)
            if all(owner.get(t, (0, 0, 9))[2] != 0 for t in (t1, t2)):
                l = deserialize(ET.fromstring(xml), NoCipher())
                for got, t in zip(list.__iter__(l), (t1, t2, t1, t2)):
                    want = owner[t][1] if t in owner else ["Deserialized." + t]
                    need(list(got.PSObject.type_names) == want, "type name reference: %r instead of %r", list(got.PSObject.type_names), want)
            # ps_isinstance
            for _ in range(6):
                o = T.PSCustomObject()
                base = names + [u + ".Z"] + ["." + u, "Deserialize." + u, ".", "ialized." + u][rng.randrange(4):][:1]
                ot = [rng.choice(["", "Deserialized.", "Deserialized.", "deserialized."]) + rng.choice(base) for _ in range(amount(rng, 4, 0.01))]
                o.PSObject.type_names = list(ot)
                q = [rng.choice(["", "", "Deserialized.", "Deserialized.Deserialized."]) + rng.choice(base) for _ in range(rng.randrange(0, 3))]
                kcls = rng.choice(classes)[0] if classes and rng.random() < 0.4 else None
                form = rng.randrange(3)
                want_names = list(q)
                if kcls is not None:
                    q.append(kcls)
                    want_names.append(kcls.PSObject.type_names[0])
                arg = tuple(q) if form == 0 else list(q)
                if form == 2 and len(q) == 1:
                    arg = q[0]

                def strip(x, ign):
                    return x[13:] if ign and x.startswith("Deserialized.") else x
                for ign in (False, True):
                    want = any(strip(x, ign) == strip(y, ign) for x in ot for y in want_names)
                    got = T.ps_isinstance(o, arg, ignore_deserialized=ign)
                    need(got is want, "ps_isinstance(%r, %r, %s) is %r", ot, want_names, ign, got)
                need(T.ps_isinstance(o, arg) is any(x == y for x in ot for y in want_names), "ps_isinstance default")
                need(list(o.PSObject.type_names) == ot, "ps_isinstance changed the type names")
        finally:
            for d in (reg.type_registry, reg.element_registry):
                for k in [k for k in d if k.startswith(u) or k.startswith(u.replace(".", "_"))]:
                    del d[k]

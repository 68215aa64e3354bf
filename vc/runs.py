"""Segments of arbitrary length: proofs about lists without a bound.

A ``Run`` stands for any non-empty sequence of elements.  It is put into a list as one element (``run.elem``) made of fresh atoms
(opaque values, texts).  A loop (or comprehension) over a list that holds such an element is proved by induction over the sequence:

 * the body runs once with the element for the whole sequence handled so far (any number of elements): the state may change only by items
   appended to lists, trees and dictionaries; these items stand for the images of the sequence, in order;
 * the body then runs with one further arbitrary element (all atoms fresh): it has to append, to the same containers, items of the same form
   with the atoms of that element, and to change nothing else; these items are then taken out again.  So the state after any number of elements
   is the one the first step describes, and the loop maps every element, in order, in the same way.

Everything that looks at the list in another way (its length, an index, a search, leaving the loop early, a variable carried from one iteration to
the next) is outside: the contract is undecided then.
"""
import collections
import queue
import sys
import types
import xml.etree.ElementTree as ET
import z3
from .core import Unsupported
from .values import Proxy, SBool, SBytes, SInt, SStr, SUuid, SymObj, Opaque, Txt, Dec, Fix, isinstance_proxy
from .rt import RT

LEAF = (int, str, bytes, float, bool, complex, type(None), type, types.FunctionType, types.MethodType, types.BuiltinFunctionType, types.ModuleType,
        types.CodeType, z3.ExprRef)


def atoms():
    c = RT.ctx
    return None if c is None else c.__dict__.get("run_atoms")


class Run:
    """make(a) builds one element from atoms: a.opaque(name), a.text(name)"""

    def __init__(self, ctx, make):
        self.ctx, self.make = ctx, make
        d = ctx.__dict__
        d.setdefault("run_atoms", {})
        d.setdefault("run_keep", [])
        d.setdefault("run_open", [])
        d.setdefault("run_segs", {})
        self.elem = self.fresh()
        mark(self.elem)

    def fresh(self):
        return self.make(_Maker(self.ctx))


def mark(x):
    """x stands for a whole sequence, not for one element"""
    if not carries(x):
        raise Unsupported("elements that cannot be told apart")
    RT.ctx.run_segs[id(x)] = x


def is_seg(x):
    return RT.ctx.run_segs.get(id(x), RT) is x


def copied(old, new):
    """new is what a copy of old consists of"""
    c = RT.ctx
    if c is not None and "run_segs" in c.__dict__ and is_seg(old):
        c.run_segs[id(new)] = new


class _Maker:
    def __init__(self, ctx):
        self.ctx = ctx

    def add(self, a):
        self.ctx.run_atoms[id(a)] = a
        self.ctx.run_keep.append(a)
        return a

    def opaque(self, name, **kw):
        return self.add(Opaque(name, **kw))

    def text(self, name, nonempty=True, distinct=False, **kw):
        t = self.add(Txt(name, **kw))
        if distinct:  # different from the text of every other element
            dist = self.ctx.__dict__.setdefault("run_distinct", {})
            for o in dist.values():
                self.ctx.decide(o.expr != t.expr)
            dist[id(t)] = t
        if nonempty:
            self.ctx.assume(t.len >= 1)
        return SStr([t])


# ------------------------------------------------------------------ the graph of a value
def kids(x):
    """(kind, children) of a value; children None for a leaf"""
    t = type(x)
    if isinstance_proxy(x):
        if t is SStr:
            return "text", list(x.segs)
        if t is SymObj:
            d = object.__getattribute__(x, "_vc_dict")
            return "sym", [x._vc_payload, d]
        if t in (SInt, SBool, SBytes, SUuid, Opaque):
            return "leaf", None
        d = own_dict(x)
        if type(d) is dict:
            return "obj", [d]
        return "leaf", None
    if t is Txt:
        return "txt", [x.src] if x.src is not None else []
    if issubclass(type(x), LEAF) and own_dict(x) is None or issubclass(type(x), (type, types.FunctionType, types.ModuleType, z3.ExprRef, types.MethodType)):
        return "leaf", None
    if issubclass(type(x), ET.Element):
        return "element", list(x)
    if issubclass(type(x), (list, collections.deque)):
        return "list", list(list.__iter__(x) if issubclass(type(x), list) else x)
    if issubclass(type(x), (tuple, frozenset, set)):
        return "tuple", list(x)
    if issubclass(type(x), dict):
        return "dict", [y for kv in dict.items(x) for y in kv]
    d = own_dict(x)
    if d is None or t.__module__ in ("_thread", "threading", "logging"):
        return "leaf", None
    return "obj", [d]


def own_dict(x):
    try:
        return object.__getattribute__(x, "__dict__")
    except AttributeError:
        return None


def extra(x):
    """what hangs on a container or text besides its items"""
    if isinstance_proxy(x) or issubclass(type(x), LEAF) and own_dict(x) is None:
        return []
    if issubclass(type(x), ET.Element):
        return [x.tag, x.text, x.tail] + [y for kv in x.attrib.items() for y in kv]
    if issubclass(type(x), (list, tuple, dict, set, collections.deque)):
        d = own_dict(x)
        return [d] if d else []
    return []


def carries(x, memo=None, depth=0):
    a = atoms()
    if not a:
        return False
    if id(x) in a and a[id(x)] is x:
        return True
    if memo is None:
        memo = {}
    if id(x) in memo or depth > 60:
        return False
    memo[id(x)] = x
    k, ch = kids(x)
    if ch is None:
        return False
    return any(carries(y, memo, depth + 1) for y in ch) or any(carries(y, memo, depth + 1) for y in extra(x))


VIEWS = (type({}.items()), type({}.keys()), type({}.values()))


def holds(x):
    """a list, tree or dictionary with an element that stands for a sequence"""
    if isinstance_proxy(x):
        return False
    if issubclass(type(x), dict):
        return any(is_seg(y) for y in dict.keys(x))
    if issubclass(type(x), (list, tuple, set, frozenset, collections.deque, ET.Element)):
        return any(is_seg(y) for y in kids(x)[1])
    if type(x) in VIEWS:
        return holds(x.mapping) or any(is_seg(y) for y in x.mapping.keys())
    return False


def other_key(d, k):
    """the key is different from all those of the sequences in the dictionary"""
    if not issubclass(type(d), dict) or is_seg(k):
        return False
    for y in dict.keys(d):
        if is_seg(y):
            r = y == k
            if r is NotImplemented or r is False:
                continue
            if not isinstance_proxy(r) or not RT.ctx.valid(z3.Not(r.expr)):
                return False
    return True


def plain_index(v, i):
    """an index counted from an end of the list without passing an element that stands for a sequence"""
    if type(i) is not int or not issubclass(type(v), (list, tuple, ET.Element)):
        return False
    xs = kids(v)[1]
    if not -len(xs) <= i < len(xs):
        return False
    return not any(is_seg(x) for x in (xs[:i + 1] if i >= 0 else xs[i:]))


def seg_items(it):
    """[(item, stands for a sequence)]"""
    if type(it) is VIEWS[0]:
        return [(kv, is_seg(kv[0])) for kv in it]
    if type(it) is VIEWS[2]:
        return [(v, is_seg(k)) for k, v in zip(it.mapping.keys(), it)]
    return [(x, is_seg(x)) for x in it]


# ------------------------------------------------------------------ copies with other atoms
class Clone:
    def __init__(self):
        self.memo, self.keep, self.consts, self.map = {}, [], [], {}

    def atom(self, x):
        return id(x) in atoms() and atoms()[id(x)] is x

    def register(self, old, new):
        c = RT.ctx
        c.run_atoms[id(new)] = new
        c.run_keep.append(new)
        self.map[id(old)] = new

    def __call__(self, x):
        if id(x) in self.memo:
            return self.memo[id(x)]
        if not carries(x):
            return x
        r = self.copy(x)
        self.memo[id(x)] = r
        self.keep.append(x)
        return r

    def copy(self, x):
        t = type(x)
        if t is Opaque:
            if x.attrs:
                raise Unsupported("an element with attributes")
            n = Opaque(x.name, x.cls, x.src, truth=x.truth)
            self.consts.append((x.expr, n.expr))
            self.register(x, n)
            return n
        if t is Txt:
            n = Txt(x.name, None, None, x.xmlsafe, x.nopre)
            n.nonempty = x.nonempty
            if z3.is_expr(x.len) and z3.is_const(x.len):
                self.consts.append((x.len, n.len))
            elif not z3.is_expr(x.len):
                n.len = x.len
            else:
                raise Unsupported("an element whose text has a computed length")
            self.consts.append((x.expr, n.expr))
            dist = RT.ctx.__dict__.get("run_distinct", {})
            if id(x) in dist:
                dist[id(n)] = n
                for t in list(dist.values()):
                    if t is not n:
                        RT.ctx.decide(t.expr != n.expr)
            if self.atom(x):
                self.register(x, n)
            n.src = tuple(self(y) for y in x.src) if isinstance(x.src, tuple) else self(x.src)
            return n
        if t is SStr:
            return SStr([self(s) for s in x.segs])
        if t is SymObj:
            n = SymObj(x._vc_cls, self(x._vc_payload))
            self.memo[id(x)] = n
            self.keep.append(x)
            n._vc_dict.update({k: self(v) for k, v in x._vc_dict.items()})
            return n
        if isinstance_proxy(x):
            raise Unsupported("an element with %s" % x._kind)
        if issubclass(type(x), ET.Element):
            n = ET.Element(x.tag)
            n.text, n.tail = self(x.text), x.tail
            for k, v in x.attrib.items():
                n.attrib[k] = self(v)
            for c in x:
                n.append(self(c) if carries(c) else c)
            return n
        if issubclass(type(x), (tuple,)) and t is tuple:
            return tuple(self(y) for y in x)
        if t is list or t is collections.deque:
            n = t()
            self.memo[id(x)] = n
            self.keep.append(x)
            for y in x:
                n.append(self(y))
            return n
        if t is dict:
            n = {}
            self.memo[id(x)] = n
            self.keep.append(x)
            for k, v in x.items():
                dict.__setitem__(n, self(k), self(v))
            return n
        d = own_dict(x)
        if d is None or issubclass(type(x), (list, dict, tuple, set)):
            raise Unsupported("an element of type %s" % t.__name__)
        n = object.__new__(t) if not issubclass(type(x), (int, str, bytes, float)) else None
        if n is None:
            raise Unsupported("an element of type %s" % t.__name__)
        self.memo[id(x)] = n
        self.keep.append(x)
        nd = own_dict(n)
        for k, v in d.items():
            nd[k] = self(v)
        return n

    def facts(self):
        """what is known of the old atoms holds of the new ones (facts, not decisions of the path)"""
        c = RT.ctx
        if not self.consts:
            return
        old = {o.get_id() for o, _ in self.consts}
        memo = c.__dict__.setdefault("run_ids", {})
        for f in list(c.facts):
            ids = memo.get(f.get_id())
            if ids is None:
                ids = memo[f.get_id()] = _ids(f)
            if ids & old:
                c.assume(z3.substitute(f, *self.consts))


def _ids(f):
    stack, seen = [f], set()
    while stack:
        e = stack.pop()
        if e.get_id() not in seen:
            seen.add(e.get_id())
            stack.extend(e.children())
    return seen


def another(x):
    cl = Clone()
    n = cl(x)
    cl.facts()
    return n, cl.map


# ------------------------------------------------------------------ state before and after
def content(x):
    k, ch = kids(x)
    if ch is None:
        return None
    if k in ("list", "dict", "element"):
        return k, ch, [] if type(x) is RunDeque else extra(x)
    if k == "obj":
        skip = ("unfinished_tasks",) if issubclass(type(x), queue.Queue) else ()  # the count of put calls, not content
        return k, [], [y for kv in ch[0].items() if kv[0] not in skip for y in kv] if type(ch[0]) is dict else ch
    if k == "sym":
        return k, [], [x._vc_payload] + [y for kv in x._vc_dict.items() for y in kv]
    return k, [], ch


def snapshot(roots):
    objs, stack = {}, list(roots.values())
    while stack:
        x = stack.pop()
        if id(x) in objs:
            continue
        if type(x) is types.FrameType or x is RT or x is RT.ctx:
            continue
        c = content(x)
        if c is None:
            continue
        objs[id(x)] = (x, c)
        if len(objs) > 20000:
            raise Unsupported("state too large")
        stack.extend(c[1])
        stack.extend(c[2])
    return dict(roots), objs


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if type(a) in (int, str, bytes, float, bool):
        return a == b
    if type(a) in (SInt, SBool):
        return a.expr.eq(b.expr)
    if type(a) is SStr:
        return len(a.segs) == len(b.segs) and all(same(x, y) for x, y in zip(a.segs, b.segs))
    if type(a) is tuple:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) is types.MethodType:
        return a.__func__ is b.__func__ and a.__self__ is b.__self__
    return False


def appended(before, roots, lid):
    """{id of container: items appended}; anything else that changed is outside"""
    old, objs = before
    for n, v in old.items():
        if n not in roots or not same(v, roots[n]):
            raise Unsupported("loop %s carries %s from one element to the next" % (lid, n))
    for n in roots:
        if n not in old:
            raise Unsupported("loop %s sets %s" % (lid, n))
    out = {}
    for i, (x, (k, ch, ex)) in objs.items():
        k2, ch2, ex2 = content(x)
        if len(ex) != len(ex2) or not all(same(a, b) for a, b in zip(ex, ex2)):
            raise Unsupported("loop %s changes a %s" % (lid, type(x).__name__))
        if len(ch2) < len(ch) or not all(same(a, b) for a, b in zip(ch, ch2)):
            raise Unsupported("loop %s changes items of a %s" % (lid, type(x).__name__))
        if len(ch2) > len(ch):
            out[i] = (x, ch2[len(ch):])
    return out


def alike(a, b, mp, memo=None):
    """b is a with the atoms of the other element"""
    memo = {} if memo is None else memo
    if id(a) in mp:
        return mp[id(a)] is b
    if id(a) in memo:
        return memo[id(a)] is b
    if not carries(a):
        if same(a, b):
            return True
        if type(a) is not type(b) or isinstance_proxy(a) or kids(a)[1] is None:
            return False
    if type(a) is not type(b):
        return False
    memo[id(a)] = b
    if type(a) is Txt:
        sa, sb = a.src, b.src
        if sa is None or sb is None:
            return False
        return a.xmlsafe == b.xmlsafe and alike(sa, sb, mp, memo)
    ka, kb = kids(a), kids(b)
    if ka[0] != kb[0] or ka[1] is None:
        return False
    if ka[0] == "obj":
        da, db = ka[1][0], kb[1][0]
        return list(da) == list(db) and all(alike(da[k], db[k], mp, memo) for k in da)
    if ka[0] == "sym":
        if a._vc_cls is not b._vc_cls:
            return False
    ea, eb = extra(a), extra(b)
    return len(ka[1]) == len(kb[1]) and len(ea) == len(eb) and all(alike(x, y, mp, memo) for x, y in zip(ka[1], kb[1])) \
        and all(alike(x, y, mp, memo) for x, y in zip(ea, eb))


def mark_tails(t):
    for x, tail in t.values():
        if issubclass(type(x), dict):
            for k in tail[::2]:
                mark(k)
        else:
            for y in tail:
                mark(y)


def undo(t, mp):
    """takes out what the further element added"""
    dist = RT.ctx.__dict__.get("run_distinct", {})
    for y in mp.values():
        dist.pop(id(y), None)
    for x, tail in t.values():
        if issubclass(type(x), dict):
            for _ in range(len(tail) // 2):
                dict.popitem(x)
        elif issubclass(type(x), list):
            list.__delitem__(x, slice(list.__len__(x) - len(tail), None))
        elif issubclass(type(x), collections.deque):
            for _ in tail:
                collections.deque.pop(x)
        elif issubclass(type(x), ET.Element):
            for y in tail:
                x.remove(y)
        else:
            raise Unsupported("a %s that grows" % type(x).__name__)


def check_alike(t1, t2, mp, lid):
    if set(t1) != set(t2):
        raise Unsupported("loop %s does not treat all elements alike" % lid)
    for i in t1:
        a, b = t1[i][1], t2[i][1]
        if len(a) != len(b) or not all(alike(x, y, mp) for x, y in zip(a, b)):
            raise Unsupported("loop %s does not treat all elements alike" % lid)


class RunLoop:
    upd = {}

    def __init__(self, lid, it, loc, names, carried):
        if names is None or carried is None:
            raise Unsupported("loop %s assigns variables of an outer scope" % lid)
        self.lid, self.items = lid, seg_items(it)
        self.temps = set(names) - set(carried)
        self.names = set(names)
        self.stage, self.i = None, 0

    def roots(self, loc):
        return {n: v for n, v in loc.items() if n not in self.temps and not n.startswith("_vc")}

    def __iter__(self):
        return self

    def __next__(self):
        c = RT.ctx
        loc = sys._getframe(1).f_locals
        if self.stage == "run":
            c.run_open.remove(self)
            self.t1 = appended(self.before, self.roots(loc), self.lid)
            mark_tails(self.t1)
            self.before = snapshot(self.roots(loc))
            x, self.mp = another(self.items[self.i - 1][0])
            self.stage = "one more"
            c.run_open.append(self)
            return x
        elif self.stage == "one more":
            c.run_open.remove(self)
            self.stage = None
            t2 = appended(self.before, self.roots(loc), self.lid)
            check_alike(self.t1, t2, self.mp, self.lid)
            undo(t2, self.mp)
        if self.i >= len(self.items):
            raise StopIteration
        x, seg = self.items[self.i]
        self.i += 1
        if seg:
            self.before = snapshot(self.roots(loc))
            self.stage = "run"
            c.run_open.append(self)
        return x


def comp(kind, it, fn, loc):
    """the results of a comprehension, element by element"""
    out = []
    roots = {n: v for n, v in loc.items() if not n.startswith("_vc")}
    for x, seg in seg_items(it):
        if not seg:
            out.append(fn(x))
            continue
        before = snapshot(roots)
        r = fn(x)
        t1 = appended(before, roots, "comprehension")
        r = list(r)
        mark_tails(t1)
        before = snapshot(roots)
        y, mp = another(x)
        r2 = fn(y)
        t2 = appended(before, roots, "comprehension")
        check_alike(t1, t2, mp, "comprehension")
        if not alike(r, list(r2), mp):
            raise Unsupported("a comprehension that does not treat all elements alike")
        undo(t2, mp)
        if len(r) != 1:
            raise Unsupported("a comprehension that selects elements")
        mark(r[0][0] if kind == "dict" else r[0])
        out.append(r)
    return out


SAFE = {"append", "extend", "items", "values", "keys", "copy", "isinstance", "issubclass", "getattr", "setattr", "hasattr", "type", "id", "iter", "callable", "cast",
        "__init__", "__new__", "__setattr__", "__getattribute__", "__getattr__", "__iter__", "tostring", "findall", "put", "__setitem__", "list", "tuple", "deque", "Element", "SubElement",
        "locals", "repr", "str", "update", "bool"}  # bool: the sequences are not empty


def searchable(x, lst):
    """x is looked for in lst by ==: a list of any length only compares with itself"""
    if not issubclass(type(lst), (list, tuple, collections.deque)):
        return True
    for y in lst:
        if y is x or not (holds(x) or holds(y)):
            continue
        if type(x) is not type(y):
            return False
        p, q = kids(x)[1], kids(y)[1]
        if len(p) != len(q) or not all(u is v for u, v in zip(p, q)):
            return False
    return True


def guard(f, a, k):
    """a builtin that is given a list with a run"""
    name = getattr(f, "__name__", "")
    if name in SAFE or issubclass(type(f), type) and f.__module__ not in ("builtins", "collections", "itertools", "functools", "operator"):
        return
    s = getattr(f, "__self__", None)
    if name in ("index", "count", "__contains__") and len(a) == 1 and not holds(s):
        if not searchable(a[0], s):
            raise Unsupported("%s of a list of any length" % name)
        return
    for x in (s,) + tuple(a) + tuple(k.values()):
        if x is not None and not isinstance_proxy(x) and not issubclass(type(x), types.ModuleType) and holds(x):
            raise Unsupported("%s of a list of any length" % name)


# ------------------------------------------------------------------ loops that take elements out of a queue
class RunDeque(collections.deque):
    """the entries of a queue; taking out one that stands for a sequence has to be followed by the check of the loop it happens in"""

    def popleft(self):
        x = collections.deque.popleft(self)
        if RT.ctx is not None and "run_segs" in RT.ctx.__dict__:
            if is_seg(x) or self.__dict__.get("extra") is x:
                RT.ctx.run_open.append(Pop(x, self))
        return x

    def pop(self):
        raise Unsupported("the last entry of a queue of any length")


class Pop:
    lid = "(taking from a queue)"

    def __init__(self, x, dq):
        self.x, self.dq = x, dq


def while_head(loop, loc):
    """called at the head of every while loop when there are sequences of any length"""
    c = RT.ctx
    roots = {n: v for n, v in loc.items() if not n.startswith("_vc")}
    pops = [p for p in c.run_open if type(p) is Pop]
    before = loop.__dict__.pop("run_before", None)
    if pops:
        if before is None or len(pops) != 1:
            raise Unsupported("loop %s takes several entries at once" % loop.lid)
        p = pops[0]
        c.run_open.remove(p)
        old, objs = before
        i = id(p.dq)
        if i not in objs:
            raise Unsupported("loop %s takes from a queue it cannot reach" % loop.lid)
        rest = objs[i][1][1][1:]
        now = list(p.dq)
        if len(rest) != len(now) or not all(same(a, b) for a, b in zip(rest, now)):
            raise Unsupported("loop %s changes the queue" % loop.lid)
        objs = {k: v for k, v in objs.items() if k != i}
        t = appended((old, objs), roots, loop.lid)
        one = loop.__dict__.pop("run_one", None)
        if one is not None:
            if p.x is not one[0]:
                raise Unsupported("loop %s takes another entry" % loop.lid)
            check_alike(one[2], t, one[1], loop.lid)
            undo(t, one[1])
            p.dq.extra = None
        else:
            mark_tails(t)
            x, mp = another(p.x)
            p.dq.appendleft(x)
            p.dq.extra = x
            loop.run_one = (x, mp, t)
    elif loop.__dict__.get("run_one") is not None:
        raise Unsupported("loop %s does not take every entry" % loop.lid)
    loop.run_before = snapshot(roots)

"""Run time of the instrumented code: what calls, tests, subscripts and loops do."""
import builtins
import enum
import functools
import itertools
import logging
import sys
import types
import z3

from .core import Unsupported, PathEnd
from .values import (Proxy, SBool, SInt, SBytes, SStr, SymObj, Opaque, SUuid, isinstance_proxy, mkbool, mkstr, to_bool, as_int, payload, mkint)


import re as _re
CMETHOD = type(_re.compile('a').match)


class Runtime:
    def __init__(self):
        self.ctx = None
        self.eng = None
        self.hash_ok = False
        self.nonlinear = False
        self.lindiv = False
        self.stubs = {}
        self.loopspecs = {}
        self.unroll = None
        self.models = None
        self.bounded = None
        self.call_log = []
        self.hooks = []

    def begin(self, eng, ctx):
        if self.models is None:
            from . import models
            self.models = models
        self.eng, self.ctx = eng, ctx
        self.hash_ok = False
        self.stubs = {}
        self.loopspecs = {}
        self.seqloops = {}
        self.nonlinear = False
        self.lindiv = False
        self.hash_sym = False
        self.lazy_int_text = False
        self.depth = 0

    def end(self):
        self.ctx = None
        self.stubs = {}
        self.loopspecs = {}

    # -------------------------------------------------- contracts of callees
    def stub(self, fn, f):
        """Calls of fn are replaced by its contract f(real function, args, kwargs)."""
        self.stubs[getattr(fn, "__func__", fn)] = f

    # -------------------------------------------------- class machinery for SymObj
    def type_lookup(self, cls, name):
        for k in cls.__mro__:
            if name in k.__dict__:
                return k.__dict__[name]
        return None

    def is_py(self, f):
        return isinstance(f, types.FunctionType)

    def bind(self, attr, obj, owner, name):
        cls = obj._vc_cls
        if isinstance(attr, types.FunctionType):
            return types.MethodType(attr, obj)
        if isinstance(attr, property):
            return attr.fget(obj)
        if isinstance(attr, classmethod):
            return types.MethodType(attr.__func__, cls)
        if isinstance(attr, staticmethod):
            return attr.__func__
        if isinstance(attr, (types.WrapperDescriptorType, types.MethodDescriptorType)):
            return BoundModel(obj, owner, name)
        if isinstance(attr, (types.GetSetDescriptorType, types.MemberDescriptorType)):
            if name == "__dict__":
                return obj._vc_dict
            return getattr(obj._vc_payload, name)
        if isinstance(attr, types.ClassMethodDescriptorType):
            return functools.partial(HOOKS.call, getattr(cls, name))
        return attr

    def sym_getattr(self, obj, name):
        ga = self.type_lookup(obj._vc_cls, "__getattribute__")
        if self.is_py(ga):
            return ga(obj, name)
        return self.sym_object_getattr(obj, name)

    def sym_object_getattr(self, obj, name):
        if name == "__class__":
            return obj._vc_cls
        if name == "__dict__":
            return obj._vc_dict
        cls = obj._vc_cls
        owner = attr = None
        found = False
        for k in cls.__mro__:
            if name in k.__dict__:
                owner, attr, found = k, k.__dict__[name], True
                break
        if found and (isinstance(attr, property) or isinstance(attr, (types.GetSetDescriptorType, types.MemberDescriptorType))):
            return self.bind(attr, obj, owner, name)
        if name in obj._vc_dict:
            return obj._vc_dict[name]
        if found:
            return self.bind(attr, obj, owner, name)
        raise AttributeError("'%s' object has no attribute '%s'" % (cls.__name__, name))

    def sym_setattr(self, obj, name, value):
        sa = self.type_lookup(obj._vc_cls, "__setattr__")
        if self.is_py(sa):
            return sa(obj, name, value)
        self.sym_object_setattr(obj, name, value)

    def sym_object_setattr(self, obj, name, value):
        attr = self.type_lookup(obj._vc_cls, name)
        if isinstance(attr, property):
            if attr.fset is None:
                raise AttributeError("property %r has no setter" % name)
            attr.fset(obj, value)
            return
        if isinstance(attr, (types.GetSetDescriptorType,)):
            raise AttributeError("attribute %r of %r objects is not writable" % (name, obj._vc_cls.__name__))
        obj._vc_dict[name] = value

    def _opfunc(self, x, name):
        """the class level operator of x as a callable, None when it has none"""
        if type(x) is SymObj:
            for k in x._vc_cls.__mro__:
                if name in k.__dict__:
                    return self.bind(k.__dict__[name], x, k, name)
            return None
        f = getattr(type(x), name, None)
        return None if f is None else functools.partial(f, x)

    def sym_binop(self, a, name, rname, o):
        b = o[0]
        f = self._opfunc(a, name)
        if f is not None:
            r = f(*o)
            if r is not NotImplemented:
                return r
        f = self._opfunc(b, rname)
        if f is not None:
            r = f(a)
            if r is not NotImplemented:
                return r
        if name == "__eq__":
            return a is b
        if name == "__ne__":
            return a is not b
        return NotImplemented

    def sym_rbinop(self, a, name, rname, o):
        """o <op> a where o is not symbolic-instance"""
        f = self._opfunc(a, rname)
        if f is None:
            return NotImplemented
        return f(*o)

    def sym_unop(self, a, name):
        f = self._opfunc(a, name)
        if f is None:
            raise TypeError("bad operand type for unary operator")
        return f()


RT = Runtime()


class BoundModel:
    """A builtin method of the builtin part of a symbolic instance."""

    def __init__(self, obj, owner, name):
        self.obj, self.owner, self.name = obj, owner, name
        self.__name__ = name
        self.__self__ = obj

    def __call__(self, *a, **k):
        o, n = self.obj, self.name
        if self.owner is object or n in ("__getattribute__", "__setattr__"):
            if n == "__getattribute__":
                return RT.sym_object_getattr(o, *a)
            if n == "__setattr__":
                return RT.sym_object_setattr(o, *a)
            if n == "__init__":
                return None
            if n == "__str__":
                m = RT.type_lookup(o._vc_cls, "__repr__")
                return m(o) if RT.is_py(m) and "_vc_" in m.__globals__ else RT.models.value_text(o._vc_payload)
            if n in ("__eq__",):
                return NotImplemented
            if n == "__ne__":
                r = HOOKS.call(o.__eq__, *a)
                return r if r is NotImplemented else mkbool(z3.Not(to_bool(r)))
            raise Unsupported("object.%s of a symbolic instance" % n)
        return RT.models.builtin_method(o, self.owner, n, a, k)


class SuperProxy:
    def __init__(self, cls, obj):
        object.__setattr__(self, "_c", cls)
        object.__setattr__(self, "_o", obj)

    def __getattribute__(self, name):
        c, o = object.__getattribute__(self, "_c"), object.__getattribute__(self, "_o")
        mro = o._vc_cls.__mro__
        i = mro.index(c)
        for k in mro[i + 1:]:
            if name in k.__dict__:
                return RT.bind(k.__dict__[name], o, k, name)
        raise AttributeError("'super' object has no attribute '%s'" % name)


def deep_sym(x, d=2):
    if isinstance_proxy(x):
        return True
    if d and type(x) in (list, tuple, set, frozenset):
        return any(deep_sym(y, d - 1) for y in x)
    if d and type(x) is dict:
        return any(deep_sym(y, d - 1) for y in x.values()) or any(isinstance_proxy(y) for y in x)
    if d and issubclass(type(x), tuple) and type(x) is not tuple:
        return any(deep_sym(y, d - 1) for y in tuple.__iter__(x))
    return False


def any_sym(a, k, d=2):
    return any(deep_sym(x, d) for x in a) or any(deep_sym(x, d) for x in k.values())


CONTAINER = (list, dict, set, tuple, frozenset)


class Hooks:
    """The object the instrumented code calls (global name _vc_)."""

    def enter(self, name):
        if RT.ctx is not None:
            RT.eng.stats.functions.add(name)

    # -------------------------------------------------- calls
    def call(self, f, *a, **k):
        if RT.ctx is None:
            return f(*a, **k)
        if "run_atoms" in RT.ctx.__dict__ and not isinstance(f, (types.FunctionType, types.MethodType)):
            from . import runs
            runs.guard(f, a, k)
        key = getattr(f, "__func__", f)
        try:
            s = RT.stubs.get(key)
        except TypeError:
            s = None
        if s is not None:
            if key is not f and isinstance(f, types.MethodType):
                return s(key, (f.__self__,) + a, k)
            return s(key, a, k)
        if isinstance(f, type):
            return self.call_class(f, a, k)
        t = type(f)
        if t is types.FunctionType or t is types.MethodType:
            fn = f.__func__ if t is types.MethodType else f
            if isinstance(fn, types.FunctionType):
                g = fn.__globals__
                if "_vc_" in g or g.get("__name__", "").startswith(("vc.", "contracts", "vc_")):
                    return f(*a, **k)
                if t is types.MethodType and isinstance(f.__self__, logging.Logger):
                    return None
            m = RT.models.FUNCS.get(fn) if _hashable(fn) else None
            if m is not None:
                r = m(f, a, k)
                if r is not RT.models.NATIVE:
                    return r
            if t is types.MethodType and not isinstance(fn, types.FunctionType):
                return self.call(fn, f.__self__, *a, **k)
            if getattr(fn, "__module__", None) == "queue" and isinstance(fn, types.FunctionType):
                return f(*a, **k)  # a queue moves its entries, it does not look at them
            if any_sym(a, k) or (t is types.MethodType and RT.models.holds_sym(f.__self__)):
                raise Unsupported("call of %s with symbolic arguments %r" % (getattr(f, "__qualname__", f), [getattr(x, "_vc_cls", type(x)) for x in a]))
            return f(*a, **k)
        if t is functools.partial:
            return self.call(f.func, *f.args, *a, **{**f.keywords, **k})
        if t is BoundModel or isinstance(f, (SuperProxy,)):
            return f(*a, **k)
        if t in (types.BuiltinFunctionType, types.MethodWrapperType, types.WrapperDescriptorType, types.MethodDescriptorType,
                 types.ClassMethodDescriptorType, CMETHOD):
            return self.call_builtin(f, t, a, k)
        # callable instance
        c = getattr(type(f), "__call__", None)
        if isinstance(c, types.FunctionType):
            if "_vc_" in c.__globals__ or c.__globals__.get("__name__", "").startswith("vc"):
                return f(*a, **k)
        if any_sym(a, k):
            m = RT.models.FUNCS.get(f) if _hashable(f) else None
            if m is not None:
                r = m(f, a, k)
                if r is not RT.models.NATIVE:
                    return r
            raise Unsupported("call of %r with symbolic arguments" % (f,))
        return f(*a, **k)

    def call_builtin(self, f, t, a, k):
        if t is types.MethodWrapperType and f.__name__ in ("__getattribute__", "__setattr__", "__delattr__", "__init__", "__init_subclass__"):
            if f.__name__ != "__setattr__" and deep_sym(a, 1) and f.__name__ != "__init__":
                raise Unsupported("attribute access by symbolic name")
            if f.__name__ != "__init__" or not any_sym(a, k):
                return f(*a, **k)
        m = RT.models.FUNCS.get(f) if _hashable(f) else None
        if m is not None:
            r = m(f, a, k)
            if r is not RT.models.NATIVE:
                return r
            return f(*a, **k)
        s = getattr(f, "__self__", None)
        if s is not None and not issubclass(type(s), types.ModuleType):
            if issubclass(type(s), type):
                mm = RT.models.CLSMETHODS.get((s, f.__name__))
                if mm is None:
                    for b in s.__mro__[1:]:
                        mm = RT.models.CLSMETHODS.get((b, f.__name__))
                        if mm:
                            break
                if mm is not None and any_sym(a, k):
                    return mm(s, a, k)
                if any_sym(a, k):
                    raise Unsupported("%s.%s with symbolic arguments" % (s.__name__, f.__name__))
                return f(*a, **k)
            r = RT.models.bound_builtin(s, f.__name__, a, k)
            if r is not RT.models.NATIVE:
                return r
            if any_sym(a, k):
                raise Unsupported("%s.%s with symbolic arguments" % (type(s).__name__, f.__name__))
            return f(*a, **k)
        if t in (types.WrapperDescriptorType, types.MethodDescriptorType) and a:
            # unbound builtin method, such as int.__repr__(self)
            if type(a[0]) is SymObj:
                return BoundModel(a[0], f.__objclass__, f.__name__)(*a[1:], **k)
            r = RT.models.bound_builtin(a[0], f.__name__, a[1:], k, f.__objclass__)
            if r is not RT.models.NATIVE:
                return r
        if any_sym(a, k):
            raise Unsupported("call of %s with symbolic arguments %r" % (getattr(f, "__qualname__", f), [getattr(x, "_vc_cls", type(x)) for x in a]))
        return f(*a, **k)

    def call_class(self, cls, a, k):
        m = RT.models.CLASSES.get(cls)
        if m is not None:
            r = m(cls, a, k)
            if r is not RT.models.NATIVE:
                return r
            return cls(*a, **k)
        if issubclass(cls, enum.Enum):
            if len(a) == 1 and isinstance_proxy(a[0]):
                return RT.models.enum_call(cls, a[0])
            return cls(*a, **k)
        if issubclass(cls, BaseException):
            return cls(*a, **k)
        if any_sym(a, k, 1) and issubclass(cls, RT.models.VALUE_BASES) and type(cls).__call__ is type.__call__:
            obj = self.call(cls.__new__, cls, *a, **k)
            oc = obj._vc_cls if type(obj) is SymObj else type(obj)
            if issubclass(oc, cls):
                init = RT.type_lookup(oc, "__init__")
                if RT.is_py(init):
                    init(obj, *a, **k)
            return obj
        if getattr(sys.modules.get(cls.__module__), "_vc_", None) is self or issubclass(cls, tuple) and hasattr(cls, "_fields") \
                or cls.__module__.startswith("contracts."):
            return cls(*a, **k)
        if any_sym(a, k):
            if cls.__module__ == "builtins" or cls.__module__ not in ("types", "functools"):
                raise Unsupported("creation of %s with symbolic arguments" % cls.__qualname__)
        return cls(*a, **k)

    def super_(self, cls, obj):
        if type(obj) is SymObj:
            return SuperProxy(cls, obj)
        return super(cls, obj)

    # -------------------------------------------------- tests
    def is_(self, a, b):
        if RT.ctx is not None:
            if type(a) is SBool and (b is True or b is False):
                return a == b
            if type(b) is SBool and (a is True or a is False):
                return b == a
            if (type(a) is Opaque and a.cls is None and b is None) or (type(b) is Opaque and b.cls is None and a is None):
                o = a if type(a) is Opaque else b
                if o.attrs.get("#none") is not None:
                    return mkbool(o.attrs["#none"])
        return a is b

    def is_not(self, a, b):
        r = self.is_(a, b)
        if type(r) is SBool:
            return mkbool(z3.Not(r.expr))
        return not r

    def in_(self, a, b):
        if RT.ctx is not None:
            if "run_atoms" in RT.ctx.__dict__:
                from . import runs
                if runs.holds(b) and not runs.other_key(b, a) or not runs.searchable(a, b):
                    raise Unsupported("membership in a list of any length")
            r = RT.models.contains(a, b)
            if r is not RT.models.NATIVE:
                return r
        return a in b

    def not_in(self, a, b):
        r = self.in_(a, b)
        if type(r) is SBool:
            return mkbool(z3.Not(r.expr))
        return not r

    # -------------------------------------------------- text
    def fstr(self, *parts):
        if RT.ctx is None:
            return "".join([p if isinstance(p, str) and type(p) is str else _fmt(*p) for p in parts])
        return RT.models.fstr(parts)

    # -------------------------------------------------- subscripts
    def getitem(self, v, i):
        if RT.ctx is None:
            return v[i]
        if "run_atoms" in RT.ctx.__dict__:
            from . import runs
            if runs.holds(v) and not runs.plain_index(v, i) and not runs.other_key(v, i):
                raise Unsupported("an item of a list of any length")
        return RT.models.getitem(v, i)

    def setitem(self, v, i, x):
        if RT.ctx is None:
            v[i] = x
            return
        RT.models.setitem(v, i, x)

    def delitem(self, v, i):
        if RT.ctx is None:
            del v[i]
            return
        RT.models.delitem(v, i)

    # -------------------------------------------------- comprehensions and loops
    def comp(self, kind, it, fn):
        if RT.ctx is not None:
            from . import seqs
            if "run_atoms" in RT.ctx.__dict__:
                from . import runs
                if runs.holds(it):
                    parts = runs.comp(kind, it, fn, sys._getframe(1).f_locals)
                    it, fn = parts, lambda x: x
        if kind == "gen":
            return (y for x in it for y in fn(x))
        if kind == "dict":
            if RT.ctx is not None:
                d = {}
                for x in it:
                    for kk, v in fn(x):
                        self.setitem(d, kk, v)
                return d
            return dict(itertools.chain.from_iterable(fn(x) for x in it))
        out = []
        for x in it:
            out.extend(fn(x))
        return out if kind == "list" else RT.models.mkset(out) if RT.ctx is not None else set(out)

    def loop_for(self, lid, it, loc, names=None, run=None):
        if RT.ctx is None:
            return PlainLoop(it)
        from . import seqs
        return seqs.loop_for(lid, it, loc, names, run)

    def loop_while(self, lid, loc, names=None):
        if RT.ctx is None:
            return PlainWhile()
        from . import seqs
        return seqs.loop_while(lid, loc, names)


def _fmt(v, conv, spec):
    if conv == 114:
        v = repr(v)
    elif conv == 115:
        v = str(v)
    elif conv == 97:
        v = ascii(v)
    return format(v, spec)


class PlainLoop:
    upd = {}

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)


class PlainWhile:
    upd = {}

    def head(self):
        return True


def _hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False
    except Unsupported:
        return False


HOOKS = Hooks()

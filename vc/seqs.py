"""Loops and sequences of symbolic length."""
import sys
from .core import Unsupported, PathEnd
from .values import isinstance_proxy, Proxy
from .rt import RT, PlainLoop, PlainWhile


def sym_len(x):
    if isinstance_proxy(x) and hasattr(type(x), "sym_len"):
        return x.sym_len()
    return None


def to_list(x):
    if isinstance_proxy(x) and hasattr(type(x), "sym_to_list"):
        return x.sym_to_list()
    return None


def enum_iter(x):
    return None


def native_list(x):
    if isinstance_proxy(x) and hasattr(type(x), "sym_items"):
        return x.sym_items()
    return list(x)


def join(s, x):
    return None


def contains(a, b):
    from .models import NATIVE
    return NATIVE


def list_method(s, name, a, k):
    from .models import NATIVE
    return NATIVE


def list_getitem(v, i):
    from .models import NATIVE
    return NATIVE


def element_method(s, name, a, k):
    return getattr(s, name)(*a, **k)


class CountingWhile:
    upd = {}

    def __init__(self, lid):
        self.lid = lid
        self.n = 0

    def head(self):
        self.n += 1
        if self.n > 4000:
            raise Unsupported("loop %s does not end within 4000 iterations" % self.lid)
        if "run_atoms" in RT.ctx.__dict__:
            from . import runs
            runs.while_head(self, sys._getframe(1).f_locals)
        return True


class Poison(Proxy):
    """value of a variable the loop assigns and the invariant does not mention"""
    _kind = "variable changed by a loop"
    __slots__ = ("_n",)

    def __init__(self, n):
        object.__setattr__(self, "_n", n)

    def __getattr__(self, k):
        raise Unsupported("variable %s after a loop whose invariant does not cover it" % object.__getattribute__(self, "_n"))

    def __bool__(self):
        raise Unsupported("variable %s after a loop whose invariant does not cover it" % object.__getattribute__(self, "_n"))


class CutFor:
    """A for loop by its invariant.  spec.enter(loc): obligations on entry; spec.havoc(loc, last) -> values of the variables, assumes the
    invariant (last: all elements are done); spec.element(): an arbitrary next element; spec.preserve(loc): obligations after the body."""

    def __init__(self, spec, lid, loc, names):
        if names is None:
            raise Unsupported("loop %s assigns variables of an outer scope" % lid)
        self.spec = spec
        spec.enter(loc)
        self.last = RT.ctx.choose(2) == 0
        self.upd = {n: Poison(n) for n in names}
        h = spec.havoc(loc, self.last)
        for n in h:
            if n not in self.upd and n not in loc:
                raise Unsupported("loop %s has no variable %s" % (lid, n))
        self.upd.update(h)
        self.began = False

    def __iter__(self):
        return self

    def __next__(self):
        if self.last:
            raise StopIteration
        if not self.began:
            self.began = True
            return self.spec.element()
        self.spec.preserve(sys._getframe(1).f_locals)
        raise PathEnd()


class CutWhile:
    def __init__(self, spec, lid, loc, names):
        if names is None:
            raise Unsupported("loop %s assigns variables of an outer scope" % lid)
        self.spec = spec
        spec.enter(loc)
        self.upd = {n: Poison(n) for n in names}
        self.upd.update(spec.havoc(loc))
        self.began = False

    def head(self):
        if not self.began:
            self.began = True
            return True
        self.spec.preserve(sys._getframe(1).f_locals)
        raise PathEnd()


def loop_for(lid, it, loc, names, run=None):
    if "run_atoms" in RT.ctx.__dict__:
        from . import runs
        if runs.holds(it):
            return runs.RunLoop(lid, it, loc, *(run or (None, None)))
    if isinstance_proxy(it):
        if hasattr(type(it), "sym_loop"):
            return CutFor(it.sym_loop(lid), lid, loc, names)
        if not hasattr(type(it), "__iter__"):
            raise Unsupported("iteration over %s" % it._kind)
    return PlainLoop(it)


def loop_while(lid, loc, names):
    spec = RT.loopspecs.get(lid)
    if spec is not None:
        return CutWhile(spec(), lid, loc, names)
    return CountingWhile(lid)

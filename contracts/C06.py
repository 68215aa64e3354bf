import enum
import operator
from contracts.lib import *  # noqa

# the documented ranges, not taken from the code
RANGES = {
    "PSByte": (0, 255), "PSSByte": (-128, 127), "PSUInt16": (0, 65535), "PSInt16": (-32768, 32767), "PSUInt": (0, 2 ** 32 - 1),
    "PSInt": (-2 ** 31, 2 ** 31 - 1), "PSUInt64": (0, 2 ** 64 - 1), "PSInt64": (-2 ** 63, 2 ** 63 - 1),
}
NAMES = list(RANGES)
BIN = ["add", "sub", "mul", "floordiv", "mod", "and_", "or_", "xor", "lshift", "rshift", "pow"]
UN = ["neg", "pos", "abs", "invert"]


def is_instance_of(v, cls):
    return type(v) is cls or (type(v) is SymObj and v._vc_cls is cls)


def check_new(ctx, cls, lo, hi, x, f, what):
    """f() creates the value from something that stands for the integer term x"""
    inside = z3.And(x >= lo, x <= hi)
    try:
        v = f()
    except ValueError:
        ctx.eng.cover("rejected")
        ctx.prove(what + ":rejects-only-outside", z3.Not(inside))
        return None
    ctx.eng.cover("accepted")
    ctx.prove(what + ":inside-range", inside)
    ctx.prove(what + ":type", is_instance_of(v, cls))
    e = as_int(v)
    ctx.prove(what + ":value", e is not None and z3.IntVal(0) + e == x)
    return v


def pick(ctx, label="cls"):
    n = NAMES[ctx.choose(8)]
    ctx.inputs[label] = n
    lo, hi = RANGES[n]
    return getattr(T, n), lo, hi


def make(ctx, name, label):
    """any value of a random integer type: created by the real constructor from a symbolic int in range"""
    cls, lo, hi = pick(ctx, label)
    x = ctx.int(name)
    ctx.assume(z3.And(x >= lo, x <= hi))
    ctx.inputs[name] = SInt(x)
    return call(cls, SInt(x)), cls, lo, hi, x


@contract("C06", budget=50, covers=["accepted", "rejected"])
def new_from_int(ctx):
    """T(x) for every integer x and every fixed width type T: inside the range a T equal to x, outside ValueError."""
    cls, lo, hi = pick(ctx)
    x = ctx.int("x")
    named(ctx, x=SInt(x))
    check_new(ctx, cls, lo, hi, x, lambda: call(cls, SInt(x)), "int")


@contract("C06", budget=50, covers=["accepted", "rejected"])
def new_from_other(ctx):
    """T(v) for every value v of every fixed width type, every bool and every enum member with an integer value."""
    cls, lo, hi = pick(ctx)
    k = ctx.choose(3)
    if k == 0:
        src, _, _, _, x = make(ctx, "x", "src")
        check_new(ctx, cls, lo, hi, x, lambda: call(cls, src), "ps-int")
    elif k == 1:
        b = SBool(ctx.bool("b"))
        check_new(ctx, cls, lo, hi, as_int(b), lambda: call(cls, b), "bool")
    else:
        x = ctx.int("x")
        named(ctx, x=SInt(x), enum=True)
        E = enum.Enum("E", {"A": 7})
        E.A._value_ = SInt(x)
        check_new(ctx, cls, lo, hi, x, lambda: call(cls, E.A), "enum")


@contract("C06", budget=50, covers=["accepted", "rejected"])
def new_from_text(ctx):
    """T(text) for the decimal text of every integer, with or without sign."""
    cls, lo, hi = pick(ctx)
    x = ctx.int("x")
    named(ctx, x=SInt(x), text=True)
    s = ctx.choose(2)
    if s:
        ctx.assume(x < 0)
        t = mkstr(["-", Dec(z3.simplify(-x))])
    else:
        ctx.assume(x >= 0)
        t = mkstr([Dec(x)])
    check_new(ctx, cls, lo, hi, x, lambda: call(cls, t), "text")


def _none(ctx):
    pass


@contract("C06", budget=20)
def new_from_none(ctx):
    """T(None) is zero."""
    cls, lo, hi = pick(ctx)
    v = call(cls, None)
    ctx.prove("zero", int(v) == 0 and type(v) is cls)


def spec_op(ctx, f, *xs):
    """('value', term) or ('raise', class) of the exact operation on mathematical integers"""
    try:
        r = f(*[SInt(x) for x in xs])
    except (ZeroDivisionError, ValueError) as e:
        return "raise", type(e)
    return "value", as_int(r)


def check_op(ctx, f, obj, cls, lo, hi, x, others, terms, what):
    kind, s = spec_op(ctx, f, x, *terms)
    try:
        r = f(obj, *others)
    except (ValueError, ZeroDivisionError) as e:
        ctx.eng.cover("rejected")
        if kind == "raise":
            ctx.prove(what + ":error", type(e) is s)
        else:
            ctx.prove(what + ":rejects-only-outside", type(e) is ValueError and z3.Not(z3.And(s >= lo, s <= hi)))
        return
    ctx.prove(what + ":no-error-expected", kind == "value")
    if kind != "value":
        return
    ctx.eng.cover("accepted")
    ctx.prove(what + ":type", is_instance_of(r, cls))
    e = as_int(r)
    ctx.prove(what + ":exact", e is not None and z3.IntVal(0) + e == s)
    ctx.prove(what + ":in-range", z3.And(z3.IntVal(0) + s >= lo, z3.IntVal(0) + s <= hi))


def mk(opname):
    f = getattr(operator, opname)

    def c(ctx):
        obj, cls, lo, hi, x = make(ctx, "a", "cls")
        ctx.inputs["op"] = opname
        if ctx.choose(2):
            other, _, _, _, y = make(ctx, "b", "other")
        else:
            y = ctx.int("b")
            ctx.inputs["b"] = SInt(y)
            other = SInt(y)
        if opname == "pow":
            ctx.assume(y >= 0)
        check_op(ctx, f, obj, cls, lo, hi, x, [other], [y], opname)
    c.__doc__ = "a %s b for every value a of every fixed width type and every integer b (plain or fixed width)." % opname
    c.__name__ = "op_" + opname.strip("_")
    return c


for _op in BIN:
    contract("C06", budget=60, covers=["accepted", "rejected"])(mk(_op))


@contract("C06", budget=50, covers=["accepted", "rejected"])
def unary(ctx):
    """-a, +a, abs(a), ~a for every value a of every fixed width type."""
    obj, cls, lo, hi, x = make(ctx, "a", "cls")
    op = UN[ctx.choose(4)]
    ctx.inputs["op"] = op
    check_op(ctx, getattr(operator, op), obj, cls, lo, hi, x, [], [], op)


@contract("C06", budget=60, covers=["accepted", "rejected"])
def pow_modulo(ctx):
    """pow(a, b, m): a to the power b modulo m, for every value a of every type and integers b >= 0, m"""
    obj, cls, lo, hi, x = make(ctx, "a", "cls")
    y, m = ctx.int("b", 0), ctx.int("m")
    named(ctx, b=SInt(y), m=SInt(m), op="pow3")

    def f(a, b, m):
        if type(a) is not SInt:
            return pow(a, b, m)
        if ctx.branch(as_int(m) == 0):
            raise ValueError
        return a ** b % m
    check_op(ctx, f, obj, cls, lo, hi, x, [SInt(y), SInt(m)], [y, m], "pow3")


@contract("C06", budget=50)
def divmod_(ctx):
    """divmod(a, b): both parts are the exact quotient and remainder, the quotient in the type of a or ValueError."""
    obj, cls, lo, hi, x = make(ctx, "a", "cls")
    y = ctx.int("b")
    named(ctx, b=SInt(y), op="divmod")
    kq, q = spec_op(ctx, operator.floordiv, x, y)
    kr, r = spec_op(ctx, operator.mod, x, y)
    try:
        res = call(divmod, obj, SInt(y))
    except ZeroDivisionError:
        ctx.prove("zero", kq == "raise")
        return
    except ValueError:
        ctx.prove("rejects-only-outside", kq == "value" and z3.Or(z3.Not(z3.And(q >= lo, q <= hi)), z3.Not(z3.And(z3.IntVal(0) + r >= lo, z3.IntVal(0) + r <= hi))))
        return
    ctx.prove("quotient", kq == "value" and is_instance_of(res[0], cls) and as_int(res[0]) == q)
    ctx.prove("remainder", kr == "value" and z3.IntVal(0) + as_int(res[1]) == r)
    ctx.prove("in-range", z3.And(z3.IntVal(0) + q >= lo, z3.IntVal(0) + q <= hi))


@contract("C06", budget=20)
def stays_plain(ctx):
    """The value survives as int(v) and in comparisons; the constants MinValue and MaxValue are the range."""
    cls, lo, hi = pick(ctx)
    x = ctx.int("x")
    ctx.assume(z3.And(x >= lo, x <= hi))
    v = call(cls, SInt(x))
    ctx.prove("int", eqb(call(int, v), SInt(x)))
    ctx.prove("eq", eqb(v, SInt(x)))
    ctx.prove("range", cls.MinValue == lo and cls.MaxValue == hi)

"""C05 strings, C06 integers, C07 scalars, C08 durations, C09 date times, C23 versions and time arithmetic."""
import base64
import datetime
import decimal
import enum
import itertools
import re

from .common import *

INT_TYPES = {"PSByte": (0, 2 ** 8 - 1), "PSSByte": (-2 ** 7, 2 ** 7 - 1), "PSUInt16": (0, 2 ** 16 - 1), "PSInt16": (-2 ** 15, 2 ** 15 - 1),
             "PSUInt": (0, 2 ** 32 - 1), "PSInt": (-2 ** 31, 2 ** 31 - 1), "PSUInt64": (0, 2 ** 64 - 1), "PSInt64": (-2 ** 63, 2 ** 63 - 1)}


# ------------------------------------------------------------------ C05
class Plain:
    pass


class C05:
    @staticmethod
    def cases(rng, n):
        yield dict(cps=[])
        for block in range(0, 0x10000, 0x400):     # every BMP code point (thorough: every code point)
            yield dict(range=[block, block + 0x400])
        for block in range(0x10000, 0x110000, 0x400):
            if n > 20000 or block % 0x10000 in (0, 0xfc00):
                yield dict(range=[block, block + 0x400])
        for o in INTERESTING:
            yield dict(cps=[o])
            yield dict(cps=[0x5f, 0x78, o])
            yield dict(cps=[0x5f, o])
            yield dict(cps=[o, 0x5f, 0x78, 0x30, 0x30, 0x34, 0x31, 0x5f])
        for a, b in itertools.product(PIECES, PIECES):
            yield dict(cps=cps(a + b))
        core = ["_", "x", "X", "_x005F_", "_x", "005F_", "\ud83d", "\ude00", "\U0001f600", "\x01", "A", "D83D_", "DE00_", "\ufffe"]
        for t in itertools.product(core, repeat=3):
            yield dict(cps=cps("".join(t)))
        for a in src_strs():
            yield dict(cps=cps(a))
        for _ in range(n):
            yield dict(cps=cps(rand_text(rng, rng.choice([3, 8, 30, 200]) if rng.random() < 0.9 else 2000)))

    @staticmethod
    def check(c):
        if "range" in c:
            s = "".join(chr(o) + "." for o in range(*c["range"])) + "".join(chr(o) for o in range(*c["range"]))
            back = wire(s)
            need(utf16(back) == utf16(s), "code points %x-%x changed", *c["range"])
            return
        else:
            s = uncps(c["cps"])
        for v in (s, T.PSString(s)):
            back = wire(v)
            need(type(back) is T.PSString, "text became %s", type(back).__name__)
            need(utf16(back) == utf16(s), "%a became %a", s, str(back))
            joined = s.encode("utf-16-le", "surrogatepass").decode("utf-16-le", "surrogatepass")
            need(str(back) == s or joined != s, "%a became %a", s, str(back))
        # property name and string representation
        o = T.PSCustomObject()
        T.add_note_property(o, s, 1)
        o.PSObject.to_string = s
        back = wire(o)
        names = [p.name for p in back.PSObject.extended_properties]
        need([utf16(x) for x in names] == [utf16(s)], "property name %a became %a", s, names)
        if s:
            ts = back.PSObject.to_string
            need(ts is not None and utf16(ts) == utf16(s), "string representation %a became %a", s, ts)
        if not s.startswith(("__", "_Plain__")) and s != "PSObject" and "\x00" not in s:
            o = Plain()
            setattr(o, s, s)
            names = [p.name for p in wire(o).PSObject.extended_properties]
            need([utf16(x) for x in names] == [utf16(s)], "attribute name %a became %a", s, names)
        d = wire({s: s})
        need([utf16(k) for k in dict.keys(d)] == [utf16(s)] and [utf16(k) for k in dict.values(d)] == [utf16(s)], "dictionary entry %a changed", s)


# ------------------------------------------------------------------ C06
OPS2 = ["add", "sub", "mul", "floordiv", "mod", "and_", "or_", "xor", "lshift", "rshift", "pow", "divmod"]
OPS1 = ["neg", "pos", "abs", "invert"]


class _E(enum.Enum):
    pass


class C06:
    @staticmethod
    def cases(rng, n):
        for t, (lo, hi) in INT_TYPES.items():
            for v in [lo - 1, lo, lo + 1, -1, 0, 1, hi - 1, hi, hi + 1, 2 ** 64, -2 ** 64, 2 ** 70, 127, 128, 255, 256, 2 ** 16, 2 ** 32, -129] + [2 ** k for k in range(66)] + [-2 ** k for k in range(66)]:
                for src in ["int", "str", "enum", "hex", "intenum"]:
                    yield dict(k="new", t=t, v=v, src=src)
            for t2, (lo2, hi2) in INT_TYPES.items():
                for v in [lo2, hi2, 0]:
                    yield dict(k="new", t=t, v=v, src=t2)
            edge = sorted({lo, lo + 1, -1, 0, 1, 2, 3, 7, hi // 2, hi - 1, hi} & set(range(max(lo, -2 ** 63), hi + 1)) if hi < 70000 else {lo, lo + 1, 0, 1, 2, 3, 7, hi // 2, hi - 1, hi} | ({-1} if lo < 0 else set()))
            for a in edge:
                for op in OPS1:
                    yield dict(k="op1", t=t, a=a, op=op)
                for b in edge + [-1, -2, hi + 1, 64]:
                    for op in OPS2:
                        yield dict(k="op2", t=t, a=a, b=b, op=op, bt=rng.choice(["int", t]))
        for _ in range(n):
            t = rng.choice(list(INT_TYPES))
            lo, hi = INT_TYPES[t]
            k = rng.random()
            if k < 0.3:
                yield dict(k="new", t=t, v=bint(rng, -2 ** 66, 2 ** 66), src=rng.choice(["int", "str", "enum", "hex", "intenum"]))
            elif k < 0.4:
                yield dict(k="op1", t=t, a=bint(rng, lo, hi), op=rng.choice(OPS1))
            else:
                op = rng.choice(OPS2)
                b = bint(rng, -2 ** 65, 2 ** 65) if rng.random() < 0.3 else bint(rng, lo, hi)
                if op in ("lshift", "rshift", "pow"):
                    b = rng.randrange(-2, 70)
                yield dict(k="op2", t=t, a=bint(rng, lo, hi), b=b, op=op, bt=rng.choice(["int", t, rng.choice(list(INT_TYPES))]))
                if op == "pow" and b >= 0:
                    yield dict(k="pow3", t=t, a=bint(rng, lo, hi), b=b, m=rng.choice([2, 10, 97, -7, hi, bint(rng, lo, hi), bint(rng, -2 ** 65, 2 ** 65)]))

    @staticmethod
    def check(c):
        import operator
        cls = getattr(T, c["t"])
        lo, hi = INT_TYPES[c["t"]]

        def verify(fn, want, what):
            if isinstance(want, int) and lo <= want <= hi:
                try:
                    r = fn()
                except ValueError as e:
                    raise Bad("%s: %d is in the range of %s but was rejected: %s" % (what, want, c["t"], e))
                need(type(r) is cls, "%s: result type is %s", what, type(r).__name__)
                need(int(r) == want, "%s: result is %d, expected %d", what, int(r), want)
            else:
                try:
                    r = fn()
                except ValueError:
                    return
                raise Bad("%s: %s is outside of %s but gave %r" % (what, want, c["t"], r))
        if c["k"] == "new":
            v, s = c["v"], c["src"]
            if s == "int":
                verify(lambda: cls(v), v, "%s(%d)" % (c["t"], v))
            elif s == "str":
                verify(lambda: cls(str(v)), v, "%s('%d')" % (c["t"], v))
            elif s == "hex":
                verify(lambda: cls("%x" % v, 16), v, "%s('%x', 16)" % (c["t"], v))
                verify(lambda: cls("%x" % v, base=16), v, "%s('%x', base=16)" % (c["t"], v))
            elif s == "enum":
                e = enum.Enum("E", {"m": v})
                verify(lambda: cls(e.m), v, "%s(enum of %d)" % (c["t"], v))
            elif s == "intenum":
                e = enum.IntEnum("E", {"m": v})
                verify(lambda: cls(e.m), v, "%s(int enum of %d)" % (c["t"], v))
            else:
                o = getattr(T, s)(v)
                verify(lambda: cls(o), v, "%s(%s(%d))" % (c["t"], s, v))
            return
        a = cls(c["a"])
        if c["k"] == "op1":
            f = getattr(operator, c["op"])
            verify(lambda: f(a), f(c["a"]), "%s %s(%d)" % (c["op"], c["t"], c["a"]))
            return
        if c["k"] == "pow3":
            if c["m"]:
                verify(lambda: pow(a, c["b"], c["m"]), pow(c["a"], c["b"], c["m"]), "pow(%s(%d), %d, %d)" % (c["t"], c["a"], c["b"], c["m"]))
            return
        b, op = c["b"], c["op"]
        if op == "pow" and (b < 0 or b > 200):
            return
        if op in ("lshift", "rshift") and b > 5000:
            return
        ob = b
        if c["bt"] != "int":
            blo, bhi = INT_TYPES[c["bt"]]
            if blo <= b <= bhi:
                ob = getattr(T, c["bt"])(b)
        f = divmod if op == "divmod" else getattr(operator, op)
        what = "%s(%d) %s %d" % (c["t"], c["a"], op, b)
        try:
            want = f(c["a"], b)
        except ZeroDivisionError:
            try:
                f(a, ob)
            except ZeroDivisionError:
                return
            raise Bad("%s: no ZeroDivisionError" % what)
        except ValueError:
            try:
                f(a, ob)
            except ValueError:
                return
            raise Bad("%s: no ValueError" % what)
        if op == "divmod":
            verify(lambda: f(a, ob)[0], want[0], what + " quotient")
            try:
                r = f(a, ob)[1]
            except ValueError:
                return
            need(int(r) == want[1], "%s: remainder is %d, expected %d", what, int(r), want[1])
            return
        verify(lambda: f(a, ob), want, what)


# ------------------------------------------------------------------ C07
def _float_cases(rng):
    import math
    out = [0.0, -0.0, 1.0, -1.0, 0.1, 1e16, 1e15, 123456789.123, 1e22, 1e23, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1e-7, 1e-5, 0.0001, 3.4028234663852886e38, 1.5e300]
    for _ in range(40):
        v = struct.unpack(">d", struct.pack(">Q", rng.getrandbits(64)))[0]
        if math.isfinite(v):
            out.append(v)
    return out


class C07:
    @staticmethod
    def cases(rng, n):
        yield dict(k="none")
        yield dict(k="bool", v=True)
        yield dict(k="bool", v=False)
        for o in list(range(0, 0x10000, 97)) + INTERESTING:
            if o < 0x10000:
                yield dict(k="char", v=o)
        for t, (lo, hi) in INT_TYPES.items():
            for v in {lo, lo + 1, -1, 0, 1, hi - 1, hi, 9, 10, 99, 100} | {2 ** k for k in range(64)} | {-2 ** k for k in range(64)}:
                if lo <= v <= hi:
                    yield dict(k="int", t=t, v=v)
        for v in sorted({s * (2 ** k) + d for k in range(64) for s in (1, -1) for d in (-1, 0, 1)}) + src_ints(-2 ** 63, 2 ** 63 - 1):
            if -2 ** 63 <= v <= 2 ** 63 - 1:
                yield dict(k="pint", v=v)
        for b in range(256):
            yield dict(k="bytes", v="%02x" % b * (b % 5))
        for u in [0, 1, 2 ** 128 - 1, 0x12345678_1234_5678_1234_567812345678] + [1 << i for i in range(128)]:
            yield dict(k="guid", v=u, plain=bool(u & 1))
        for v in [[0, 0, None, None], [1, 0, 0, 0], [10, 100, 1000, 2147483647], [2, 3, None, None], [5, 1, 14393, 0], [0, 10, 0, None], [1, 2, 0, None]]:
            yield dict(k="version", v=v)
        for f in _float_cases(rng):
            for t in ["PSSingle", "PSDouble", "float"]:
                yield dict(k="float", t=t, v=f.hex())
        for d in ["0", "-0", "1", "-1", "1.10", "0.1", "1E+5", "1e-28", "79228162514264337593543950335", "-79228162514264337593543950335", "123.4560", "0.0000000000000000000000000001", "1E-7", "100", "1E+2", "1E-29", "3.14159265358979323846264338327950288419716939937510582097494459", "1" * 60, "-" + "9" * 35 + "." + "9" * 35,
                  "1E-200", "1E+200", "-0.00", "1.000000000000000000000000000000000001"]:
            yield dict(k="dec", v=d, plain=False)
            yield dict(k="dec", v=d, plain=True)
        for t in ["PSUri", "PSXml", "PSScriptBlock", "PSString"]:
            for s in ["", "http://a/?b=c&d", "<a>b</a>", "$x = 1\n\"`t\"", " ", "_x005F_", "true", "1"] + PIECES:
                yield dict(k="str", t=t, v=cps(s))
        for _ in range(n):
            k = rng.randrange(8)
            if k == 0:
                t = rng.choice(list(INT_TYPES))
                yield dict(k="int", t=t, v=bint(rng, *INT_TYPES[t]))
            elif k == 1:
                yield dict(k="pint", v=bint(rng, -2 ** 63, 2 ** 63 - 1))
            elif k == 2:
                yield dict(k="float", t=rng.choice(["PSSingle", "PSDouble", "float"]), v=rng.choice(_float_cases(rng)).hex())
            elif k == 3:
                yield dict(k="dec", v="%s%dE%d" % (rng.choice(["", "-"]), rng.getrandbits(rng.randrange(1, rng.choice([96, 96, 300]))), rng.randrange(*rng.choice([(-28, 5), (-28, 5), (-90, 60)]))), plain=rng.random() < 0.5)
            elif k == 4:
                yield dict(k="bytes", v=rand_bytes(rng, rng.randrange(70)).hex())
            elif k == 5:
                yield dict(k="guid", v=rng.getrandbits(128), plain=rng.random() < 0.5)
            elif k == 6:
                p = [bint(rng, 0, 2 ** 31 - 1) for _ in range(4)]
                m = rng.randrange(2, 5)
                yield dict(k="version", v=p[:m] + [None] * (4 - m))
            else:
                yield dict(k="str", t=rng.choice(["PSUri", "PSXml", "PSScriptBlock", "PSString"]), v=cps(rand_text(rng)))

    @staticmethod
    def check(c):
        k = c["k"]
        want = None
        if k == "none":
            v, want = None, type(None)
        elif k == "bool":
            v, want = c["v"], bool
        elif k == "char":
            v, want = T.PSChar(c["v"]), T.PSChar
        elif k == "int":
            want = getattr(T, c["t"])
            v = want(c["v"])
        elif k == "pint":
            v = c["v"]
            want = T.PSInt if -2 ** 31 <= v <= 2 ** 31 - 1 else T.PSInt64
        elif k == "bytes":
            v, want = bytes.fromhex(c["v"]), T.PSByteArray
            b2 = wire(T.PSByteArray(v))
            need(type(b2) is want and bytes(b2) == v, "PSByteArray %r became %r", v, b2)
        elif k == "guid":
            v = uuid.UUID(int=c["v"])
            want = T.PSGuid
            if not c["plain"]:
                v = T.PSGuid(int=c["v"])
        elif k == "version":
            ma, mi, b, r = c["v"]
            v, want = T.PSVersion(major=ma, minor=mi, build=b, revision=r), T.PSVersion
        elif k == "float":
            f = float.fromhex(c["v"])
            want = T.PSSingle if c["t"] == "float" else getattr(T, c["t"])
            v = f if c["t"] == "float" else want(f)
        elif k == "dec":
            v, want = decimal.Decimal(c["v"]), T.PSDecimal
            if not c["plain"]:
                v = T.PSDecimal(c["v"])
        else:
            want = getattr(T, c["t"])
            v = want(uncps(c["v"]))
        back = wire(v)
        need(type(back) is want, "%r became a %s", v, type(back).__name__)
        if k == "none":
            return
        if k == "str":
            need(utf16(str.__str__(back)) == utf16(uncps(c["v"])), "%a became %a", v, back)
        elif k == "version":
            need([back.major, back.minor, back.build, back.revision] == c["v"], "%r became %r", v, back)
        elif k == "dec":
            need(decimal.Decimal(back) == decimal.Decimal(c["v"]), "%s became %s", c["v"], back)
        elif k == "float":
            need(float(back) == float(v), "%r became %r", v, back)
        elif k == "guid":
            need(back.int == c["v"], "%s became %s", v, back)
        elif k in ("int", "pint", "char", "bool"):
            need(int(back) == int(c["v"]), "%s became %s", c["v"], int(back))
        else:
            need(bytes(back) == v, "%r became %r", v, back)


# ------------------------------------------------------------------ C08
ISO = re.compile(r"^(-?)P(?=.)(?:([0-9]+)D)?(?:T(?=.)(?:([0-9]+)H)?(?:([0-9]+)M)?(?:([0-9]+)(?:\.([0-9]{1,7}))?S)?)?$")


class C08:
    @staticmethod
    def cases(rng, n):
        base = {0, 1, 9, 10, 99, 100, 1000, 10 ** 4, 10 ** 5, 10 ** 6, 9999999}
        units = [10 ** 7, 6 * 10 ** 8, 36 * 10 ** 9, 864 * 10 ** 9]
        vals = set(base)
        for u in units:
            for m in [1, 2, 5, 9, 10, 11, 20, 23, 24, 30, 59, 60, 99, 100, 110, 365, 1000]:
                for d in (-1, 0, 1, 10, 500, 1000000, 5000000):
                    vals.add(u * m + d)
        for k in range(64):
            vals |= {2 ** k - 1, 2 ** k, 2 ** k + 1}
        for s in range(60):
            vals |= {s * 10 ** 7, s * 10 ** 7 + 1, s * 10 ** 7 + 1200000}
        for a, b, c_, d in itertools.product([0, 1, 10], [0, 1, 10, 23], [0, 1, 10, 59], [0, 1, 10, 20, 59]):
            for fr in (0, 1, 1000000, 9999999, 1000, 10):
                vals.add(a * units[3] + b * units[2] + c_ * units[1] + d * units[0] + fr)
        for v in sorted(vals) + src_ints(0, 2 ** 63 - 1):
            if v < 2 ** 63:
                yield dict(ns=v * 100)
                yield dict(ns=-v * 100)
        yield dict(ns=-2 ** 63 * 100)
        for _ in range(n):
            t = rng.randrange(5)
            if t == 0:
                v = rng.randrange(-2 ** 63, 2 ** 63)
            elif t == 1:
                v = rng.choice([-1, 1]) * sum(rng.choice([0, rng.randrange(m)]) * u for u, m in zip(units, (60, 60, 24, 10000))) + rng.choice([0, rng.randrange(10 ** 7)])
            elif t == 2:
                v = rng.choice([-1, 1]) * rng.randrange(10 ** rng.randrange(1, 19))
            else:
                v = bint(rng, -2 ** 63, 2 ** 63 - 1)
            v = max(-2 ** 63, min(2 ** 63 - 1, v))
            yield dict(ns=v * 100 + (rng.randrange(100) if t == 3 and v < 2 ** 63 - 1 else 0))

    @staticmethod
    def check(c):
        ns = c["ns"]
        vals = [T.PSDuration(nanoseconds=ns)]
        need(td_ns(vals[0]) == ns and 0 <= vals[0].nanoseconds <= 999, "PSDuration(nanoseconds=%d) is %d ns", ns, td_ns(vals[0]))
        if ns % 1000 == 0:
            vals.append(datetime.timedelta(microseconds=ns // 1000))
        for v in vals:
            el = serialize(v, NoCipher())
            m = ISO.match(el.text)
            need(m is not None, "%d ns became %r, not an ISO 8601 duration", ns, el.text)
            g = m.groups()
            ticks = ((int(g[1] or 0) * 86400 + int(g[2] or 0) * 3600 + int(g[3] or 0) * 60 + int(g[4] or 0)) * 10 ** 7 + int((g[5] or "").ljust(7, "0")))
            if g[0]:
                ticks = -ticks
            need(ticks == ns // 100, "%d ns became %r", ns, el.text)
            back = deserialize(ET.fromstring(ET.tostring(el)), NoCipher())
            need(type(back) is T.PSDuration, "became %s", type(back).__name__)
            need(td_ns(back) == ns // 100 * 100, "%d ns became %d ns", ns, td_ns(back))
            if ns % 100 == 0:
                need(back == v and v == back, "%d ns: the value read back is not equal", ns)


# ------------------------------------------------------------------ C09
class Zone(datetime.tzinfo):
    """a zone whose offset depends on the time of the year, as in zoneinfo"""

    def __init__(self, winter, summer):
        self.o = winter, summer

    def utcoffset(self, dt):
        return datetime.timedelta(minutes=self.o[3 < dt.month < 11])

    def dst(self, dt):
        return datetime.timedelta(minutes=self.o[1] - self.o[0] if 3 < dt.month < 11 else 0)

    def tzname(self, dt):
        return "zone"


class FoldZone(Zone):
    """a zone at the end of daylight saving time: the offset of the repeated hour depends on the fold"""

    def utcoffset(self, dt):
        return datetime.timedelta(minutes=self.o[dt.fold])

    def dst(self, dt):
        return datetime.timedelta(0)


class C09:
    @staticmethod
    def cases(rng, n):
        fr = [0, 1, 9, 10, 100, 1000, 10 ** 4, 10 ** 5, 10 ** 6, 9999999, 9999990, 1234567, 1234560, 5000000, 10, 20, 99]
        dates = [(1, 1, 1), (1, 12, 31), (9, 9, 9), (99, 10, 10), (100, 1, 1), (999, 12, 31), (1000, 1, 1), (1582, 10, 15), (1900, 2, 28), (1970, 1, 1), (2000, 2, 29), (2020, 10, 20), (2024, 2, 29), (9999, 12, 31)]
        offs = [None, 0, 1, -1, 59, -59, 60, -60, 330, -210, 600, -600, 1439, -1439, 61, -61, 10, -10, 845]
        for d in dates:
            for o in offs:
                f = rng.choice(fr)
                yield dict(d=list(d), t=[rng.randrange(24), rng.randrange(60), rng.randrange(60)], f=f, o=o)
        for f in fr:
            for o in offs:
                yield dict(d=[2021, 7, 4], t=[10, 20, 30], f=f, o=o)
        for o in range(-1439, 1440):
            yield dict(d=[2021, 7, 4], t=[o % 24, o % 60, o % 59], f=rng.choice(fr), o=o)
        for y in range(1, 10000, 37):
            yield dict(d=[y, rng.randrange(1, 13), rng.randrange(1, 29)], t=[0, 0, 0], f=rng.choice(fr), o=rng.choice(offs))
        for z in ([0, 60], [60, 120], [-300, -240], [-60, 0], [345, 345], [0, 0]):
            for d in ([2021, 1, 1], [2021, 7, 4]):
                for f in fr[:6]:
                    yield dict(d=d, t=[1, 2, 3], f=f, o=z)
        for z in ([-300, -360], [120, 60], [60, -60], [0, 60]):
            for fold in (0, 1):
                for f in fr[:4]:
                    yield dict(d=[2021, 10, 31], t=[1, 2, 3], f=f, o=z, fold=fold)
        for h, m, s in itertools.product([0, 9, 10, 12, 23], [0, 9, 59], [0, 1, 9, 10, 59]):
            yield dict(d=[2021, 1, 1], t=[h, m, s], f=0, o=None)
        for _ in range(n):
            yield dict(d=[rng.randrange(1, 10000), rng.randrange(1, 13), rng.randrange(1, 29)], t=[rng.randrange(24), rng.randrange(60), rng.randrange(60)],
                       f=rng.choice([0, rng.randrange(10 ** 7), rng.choice(fr), rng.randrange(10 ** rng.randrange(1, 8))]), o=rng.choice([None, rng.randrange(-1439, 1440)]))

    @staticmethod
    def check(c):
        fold = c.get("fold", 0)
        tz = None if c["o"] is None else FoldZone(*c["o"]) if "fold" in c else Zone(*c["o"]) if isinstance(c["o"], list) else datetime.timezone(datetime.timedelta(minutes=c["o"]))
        us, hns = divmod(c["f"], 10)
        a = list(c["d"]) + list(c["t"]) + [us]
        v = T.PSDateTime(*a, tzinfo=tz, nanosecond=hns * 100, **(dict(fold=fold) if fold else {}))
        need((v.nanosecond, v.microsecond) == (hns * 100, us), "PSDateTime fields")
        vals = [v]
        if hns == 0:
            vals.append(datetime.datetime(*a, tzinfo=tz, fold=fold))
            vals.append(T.PSDateTime(vals[-1]))
        vals.append(T.PSDateTime(datetime.datetime(*a, tzinfo=tz, fold=fold), nanosecond=hns * 100))
        for v in vals:
            if tz is not None:
                need(v.utcoffset() == tz.utcoffset(datetime.datetime(*a, fold=fold)), "the offset of %r is %s", v, v.utcoffset())
            back = wire(v)
            need(type(back) is T.PSDateTime, "became %s", type(back).__name__)
            got = [back.year, back.month, back.day, back.hour, back.minute, back.second, back.microsecond, back.nanosecond]
            need(got == a + [hns * 100], "%r became %r", a + [hns * 100], got)
            need(back.utcoffset() == v.utcoffset(), "offset %s became %s", v.utcoffset(), back.utcoffset())


# ------------------------------------------------------------------ C23
def _vt(v):
    return tuple(p for p in v if p is not None)


class C23:
    @staticmethod
    def cases(rng, n):
        small = [[a, b] + x for a in (0, 1, 2, 10) for b in (0, 1, 9, 10) for x in ([None, None], [0, None], [1, None], [0, 0], [10, 2])]
        for a in small:
            yield dict(k="ver", a=a, b=a)
            for b in rng.sample(small, 12):
                yield dict(k="ver", a=a, b=b)
        D = 86400 * 10 ** 9
        edge = [0, 1, -1, 999, 1000, -999, -1000, 1001, 10 ** 9, -10 ** 9, D, -D, D - 1, -D + 1, 1500, -1500, 999999999, 100, 500, -500]
        for a, b in itertools.product(edge, edge):
            yield dict(k="dur", a=a, b=b)
        for ns1, ns2 in itertools.product([0, 1, 500, 999], [0, 1, 500, 999]):
            for us in (0, 1, 999999):
                for ds in (0, 1, 86399, 10 ** 7):
                    yield dict(k="dt", a=[10 ** 15 + us, ns1], b=[10 ** 15 + ds * 10 ** 6, ns2], o=None)
        for _ in range(n):
            k = rng.randrange(3)
            if k == 0:
                def ver():
                    m = rng.randrange(2, 5)
                    return [bint(rng, 0, 2 ** rng.choice([31, 31, 64]) - 1) if rng.random() < 0.5 else rng.randrange(12) for _ in range(m)] + [None] * (4 - m)
                a = ver()
                b = ver() if rng.random() < 0.5 else list(a)
                if rng.random() < 0.5:
                    i = rng.randrange(4)
                    if b[i] is not None:
                        b[i] += 1
                yield dict(k="ver", a=a, b=b)
            elif k == 1:
                yield dict(k="dur", a=bint(rng, -2 ** 62, 2 ** 62), b=bint(rng, -2 ** 62, 2 ** 62))
            else:
                yield dict(k="dt", a=[rng.randrange(10 ** 14, 3 * 10 ** 17), rng.randrange(1000)], b=[rng.randrange(10 ** 14, 3 * 10 ** 17), rng.randrange(1000)],
                           o=rng.choice([None, 0, 330, -61]))

    @staticmethod
    def check(c):
        import operator
        if c["k"] == "ver":
            a, b = c["a"], c["b"]
            va = T.PSVersion(major=a[0], minor=a[1], build=a[2], revision=a[3])
            vb = T.PSVersion(major=b[0], minor=b[1], build=b[2], revision=b[3])
            ta, tb = _vt(a), _vt(b)
            for op in ("eq", "ne", "lt", "le", "gt", "ge"):
                f = getattr(operator, op)
                need(bool(f(va, vb)) == f(ta, tb), "%s %s %s is %s", va, op, vb, f(va, vb))
                need(bool(f(va, str(vb))) == f(ta, tb), "%s %s '%s' (text) is %s", va, op, vb, f(va, str(vb)))
            if ta == tb:
                need(hash(va) == hash(vb), "equal versions have different hashes")
            p = T.PSVersion(str(va))
            need(str(va) == ".".join(map(str, ta)), "text of %r is %s", ta, va)
            need(p == va and _vt([p.major, p.minor, p.build, p.revision]) == ta, "parsing %s gives %s", va, p)
            return
        if c["k"] == "dur":
            a, b = c["a"], c["b"]
            da, db = T.PSDuration(nanoseconds=a), T.PSDuration(nanoseconds=b)
            need(td_ns(da) == a, "PSDuration(nanoseconds=%d) is %d ns", a, td_ns(da))
            for nm, r, w in (("+", da + db, a + b), ("-", da - db, a - b), ("neg", -da, -a), ("pos", +da, a)):
                need(isinstance(r, T.PSDuration) and td_ns(r) == w and 0 <= r.nanoseconds <= 999, "%d ns %s %d ns is %d ns", a, nm, b, td_ns(r))
            tb = datetime.timedelta(microseconds=b // 1000)
            bb = b // 1000 * 1000
            for nm, r, w in (("+td", da + tb, a + bb), ("-td", da - tb, a - bb)):
                need(td_ns(r) == w, "%d ns %s %d ns is %d ns", a, nm, bb, td_ns(r))
            for nm, r, w in (("td+", tb + da, bb + a), ("td-", tb - da, bb - a)):
                need(isinstance(r, T.PSDuration) and td_ns(r) == w and 0 <= r.nanoseconds <= 999, "timedelta of %d ns %s %d ns is %d ns", bb, nm, a, td_ns(r))
            for op in ("eq", "ne", "lt", "le", "gt", "ge"):
                f = getattr(operator, op)
                need(bool(f(da, db)) == f(a, b), "%d ns %s %d ns is %s", a, op, b, f(da, db))
                need(bool(f(da, tb)) == f(a, bb), "%d ns %s timedelta of %d ns is %s", a, op, bb, f(da, tb))
            for x, y in ((da, T.PSDuration(nanoseconds=a)), (da, db), (da, tb), (T.PSDuration(nanoseconds=bb), tb)):
                if x == y:
                    need(hash(x) == hash(y), "equal durations have different hashes")
            need(td_ns(T.PSDuration(da)) // 1000 == a // 1000, "copy of a duration")
            return
        E = datetime.datetime(1, 1, 1)
        tz = None if c["o"] is None else datetime.timezone(datetime.timedelta(minutes=c["o"]))

        def mk(v):
            d = E + datetime.timedelta(microseconds=v[0])
            return T.PSDateTime(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, tzinfo=tz, nanosecond=v[1])

        def ns(d):
            x = datetime.datetime(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond) - E
            return td_ns(x) + d.nanosecond
        x, y = mk(c["a"]), mk(c["b"])
        nx, ny = ns(x), ns(y)
        need(nx == c["a"][0] * 1000 + c["a"][1], "PSDateTime fields")
        diff = x - y
        need(isinstance(diff, T.PSDuration) and td_ns(diff) == nx - ny, "difference is %d ns, expected %d", td_ns(diff), nx - ny)
        back = y + diff
        need(isinstance(back, T.PSDateTime) and ns(back) == nx and 0 <= back.nanosecond <= 999 and back.utcoffset() == x.utcoffset(), "y + (x - y) is off by %d ns", ns(back) - nx)
        back = x - diff
        need(ns(back) == ny, "x - (x - y) is off by %d ns", ns(back) - ny)
        back = diff + y
        need(isinstance(back, T.PSDateTime) and ns(back) == nx and 0 <= back.nanosecond <= 999 and back.utcoffset() == x.utcoffset(), "(x - y) + y is off by %d ns", ns(back) - nx)
        px, py = (datetime.datetime(v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond, tzinfo=tz) for v in (x, y))
        for nm, r, w in (("x - plain", x - py, nx - ny // 1000 * 1000), ("plain - y", px - y, nx // 1000 * 1000 - ny)):
            need(isinstance(r, T.PSDuration) and td_ns(r) == w and 0 <= r.nanoseconds <= 999, "%s is %d ns, expected %d", nm, td_ns(r), w)
        td = datetime.timedelta(microseconds=diff.microseconds, seconds=diff.seconds)
        r = td + x
        need(isinstance(r, T.PSDateTime) and ns(r) == nx + td_ns(td), "plain timedelta + date time")
        need(ns(x + td) == nx + td_ns(td) and ns(x - td) == nx - td_ns(td), "plain timedelta arithmetic")

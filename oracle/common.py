"""Concrete side of the checks: independent specification functions, input generators and replay helpers.

Everything here runs the *unmodified* code of /repo through its public interface in a plain
interpreter.  It is used (a) to replay counterexamples of failed obligations and (b) as the bounded
stand-in for what no obligation covers.  Nothing here counts as proved.
"""
import ast
import glob
import os
import random
import struct
import sys
import uuid

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
if REPO_SRC not in sys.path:
    sys.path.insert(0, REPO_SRC)

import psrpcore  # noqa: E402
from psrpcore import types as T  # noqa: E402
from psrpcore import (  # noqa: E402
    ClientPowerShell, ClientRunspacePool, ServerPipeline, ServerRunspacePool, StreamType, PSRPPayload,
)
from psrpcore.types import PSRPMessageType  # noqa: E402
from psrpcore.types import serialize, deserialize  # noqa: E402
import xml.etree.ElementTree as ET  # noqa: E402


class Bad(Exception):
    """The property does not hold for the case."""


def need(cond, msg, *args):
    if not cond:
        try:
            text = msg % args if args else msg
        except Exception:
            text = msg + " (values cannot be shown)"
        raise Bad(text)


# ------------------------------------------------------------------ harvested constants
_CONST = None


def harvest():
    """Integer, text and byte constants in the source: values around them make good inputs."""
    global _CONST
    if _CONST is None:
        ints, strs = set(), set()
        for f in sorted(glob.glob(os.path.join(REPO_SRC, "psrpcore", "**", "*.py"), recursive=True)):
            try:
                tree = ast.parse(open(f, encoding="utf-8").read())
            except Exception:
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant):
                    if isinstance(n.value, int) and not isinstance(n.value, bool):
                        ints.add(n.value)
                    elif isinstance(n.value, float):
                        ints.add(int(n.value)) if abs(n.value) < 1e30 else None
                    elif isinstance(n.value, str) and 0 < len(n.value) <= 24:
                        strs.add(n.value)
                    elif isinstance(n.value, bytes) and 0 < len(n.value) <= 24:
                        strs.add(n.value.decode("latin-1"))
        _CONST = (sorted(ints), sorted(strs))
    return _CONST


def src_ints(lo, hi):
    out = set()
    for v in harvest()[0]:
        for w in (v - 1, v, v + 1, -v):
            if lo <= w <= hi:
                out.add(w)
    return sorted(out)


def src_strs():
    return harvest()[1]


def bint(rng, lo, hi):
    """An integer in [lo, hi] biased to the ends, powers of two and constants of the source."""
    k = rng.randrange(6)
    if k == 0:
        return rng.choice([lo, hi, min(hi, lo + 1), max(lo, hi - 1)])
    if k == 1:
        b = rng.randrange(0, 65)
        v = rng.choice([1, -1]) * ((1 << b) + rng.choice([-1, 0, 1]))
        if lo <= v <= hi:
            return v
    if k == 2:
        c = src_ints(lo, hi)
        if c:
            return rng.choice(c)
    if k == 3:
        v = rng.randrange(-20, 300)
        if lo <= v <= hi:
            return v
    if k == 4:
        b = rng.randrange(1, 66)
        v = rng.getrandbits(b)
        if lo <= v <= hi:
            return v
    return rng.randint(lo, hi)


def amount(rng, small, big=0.015, top=1100):
    """how many elements: mostly fewer than small, now and then many"""
    if rng.random() >= big:
        return rng.randrange(small)
    return min(top, rng.choice([10, 17, 33, 40, 65, 101, 129, 257, 300, 520, 1001, 1030] + src_ints(8, top)))


INTERESTING = (list(range(0, 0x21)) + [0x22, 0x26, 0x27, 0x2d, 0x3c, 0x3e, 0x5b, 0x5d, 0x5f, 0x58, 0x78, 0x7f, 0x80, 0x85, 0x9f, 0xa0,
               0xff, 0x130, 0x131, 0x17f, 0x212a, 0x2028, 0xd7ff, 0xd800, 0xd801, 0xd8ff, 0xd900, 0xdbff, 0xdc00, 0xdcff, 0xdfff,
               0xe000, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x1fffe, 0x1ffff, 0x10ffff, 0x100, 0x5f00, 0x7800,
               0x3000, 0x3130, 0x2f, 0x30, 0x39, 0x41, 0x46, 0x61, 0x66, 0x67, 0x47, 0xe9, 0x4e2d])
PIECES = ["_", "x", "X", "_x", "_X", "_x0", "_x00", "_x005", "_x005F", "_x005F_", "_x005f_", "_X005F_", "_x000A_", "_xD83D_",
          "_xDE00_", "_xD83D_\ude00", "\ud83d_xDE00_", "_x005F_x005F_", "_xZZZZ_", "__x0041_", "_x0041__", "x0041_", "a", " ", "\n",
          "\r\n", "\t", "<", "&", "]]>", "\"", "'", "\U0001f600", "\ud83d", "\ude00", "\x00", "\ufffe", "é", "ſ", "K", "Deserialized.",
          "true", "None", "0", "-1", "#< CLIXML", "<Objs>", "\u0100\u5f00\u7800\u3000\u3000\u3400\u3100\u5f00"]


def rand_text(rng, maxlen=12, plain=False):
    out = []
    for _ in range(rng.randrange(0, maxlen)):
        k = rng.randrange(7)
        if plain:
            out.append(rng.choice("abcxyz ABC_012.é中"))
        elif k == 0:
            out.append(chr(rng.choice(INTERESTING)))
        elif k == 1:
            out.append(rng.choice(PIECES))
        elif k == 2:
            out.append("_x%04X_" % rng.randrange(0x10000))
        elif k == 3:
            out.append(chr(rng.randrange(0x110000)))
        elif k == 4 and rng.random() < 0.3:
            out.append(rng.choice(src_strs() or ["a"]))
        else:
            out.append(chr(rng.randrange(0x20, 0x7f)))
    return "".join(out)


def cps(s):
    return [ord(c) for c in s]


def uncps(l):
    return "".join(map(chr, l))


def utf16(s):
    return s.encode("utf-16-be", "surrogatepass")


def rand_bytes(rng, n):
    return bytes(rng.getrandbits(8) for _ in range(n)) if n < 4096 else rng.randbytes(n)


def rand_uuid(rng):
    k = rng.randrange(5)
    if k == 0:
        return uuid.UUID(int=rng.choice([0, 1, 2 ** 128 - 1, 2 ** 127, 255, 1 << 120, 0x0102030405060708090a0b0c0d0e0f10]))
    return uuid.UUID(int=rng.getrandbits(128))


# ------------------------------------------------------------------ wire format (written from the specification)
def spec_guid_le(u):
    v = u.int
    a, b, c, rest = v >> 96, (v >> 80) & 0xffff, (v >> 64) & 0xffff, v & (2 ** 64 - 1)
    return struct.pack("<IHH", a, b, c) + struct.pack(">Q", rest)


def spec_message(client, mtype, rpid, pid, body):
    return (struct.pack("<I", 2 if client else 1) + struct.pack("<I", mtype) + spec_guid_le(rpid)
            + (spec_guid_le(pid) if pid is not None else bytes(16)) + body)


def spec_fragment(oid, fid, end, data):
    return struct.pack(">QQBI", oid, fid, (1 if fid == 0 else 0) | (2 if end else 0), len(data)) + data


def spec_parse_fragments(data):
    out = []
    while data:
        need(len(data) >= 21, "payload ends inside a fragment header")
        oid, fid, fl, ln = struct.unpack(">QQBI", data[:21])
        need(len(data) >= 21 + ln, "payload ends inside a fragment")
        need(fl & ~3 == 0, "unknown bits in the start/end byte")
        need(bool(fl & 1) == (fid == 0), "start bit %s for fragment id %s", bool(fl & 1), fid)
        out.append((oid, fid, bool(fl & 2), data[21:21 + ln]))
        data = data[21 + ln:]
    return out


def spec_parse_message(b):
    need(len(b) >= 40, "message shorter than its header")
    d, t = struct.unpack("<II", b[:8])

    def guid(x):
        a, bb, c = struct.unpack("<IHH", x[:8])
        return uuid.UUID(int=(a << 96) | (bb << 80) | (c << 64) | int.from_bytes(x[8:], "big"))
    return d, t, guid(b[8:24]), guid(b[24:40]), b[40:]


# ------------------------------------------------------------------ sessions
def chunks(rng, data, mode=None):
    mode = rng.randrange(4) if mode is None else mode
    if mode == 0 or not data:
        return [data]
    if mode == 1:
        return [data[i:i + 1] for i in range(len(data))] if len(data) < 3000 else [data]
    out, i = [], 0
    while i < len(data):
        n = rng.choice([1, 2, 7, 17, 20, 21, 22, 61, 200, 4096]) if mode == 2 else rng.randrange(1, max(2, len(data)))
        out.append(data[i:i + n])
        i += n
    return out


def transfer(src, dst, rng=None, amount=None):
    """Moves everything queued in src to dst, gives back the events of dst."""
    events = []
    rounds = 0
    while True:
        rounds += 1
        need(rounds < 5000, "data_to_send never runs out of data")
        a = amount if rng is None or amount is not None else rng.choice([None, 22, 61, 100, 1000, 32768])
        p = src.data_to_send(a) if a is not None else src.data_to_send()
        if p is None:
            break
        for c in (chunks(rng, p.data) if rng is not None else [p.data]):
            dst.receive_data(PSRPPayload(c, p.stream_type, p.pipeline_id))
            while True:
                e = dst.next_event()
                if e is None:
                    break
                events.append(e)
    return events


def settle(a, b, rng=None):
    """Exchanges messages between a and b until nothing is left, gives back (events of a, events of b)."""
    ea, eb = [], []
    for _ in range(50):
        x = transfer(a, b, rng)
        y = transfer(b, a, rng)
        eb += x
        ea += y
        if not x and not y:
            return ea, eb
    raise Bad("peers exchange messages for ever")


def opened(rng=None, client_kw=None, server_kw=None):
    c = ClientRunspacePool(**(client_kw or {}))
    s = ServerRunspacePool(**(server_kw or {}))
    c.open()
    settle(c, s, rng)
    need(c.state == T.RunspacePoolState.Opened and s.state == T.RunspacePoolState.Opened, "pools are not opened after the handshake")
    return c, s


def with_key(rng=None):
    c, s = opened(rng)
    c.exchange_key()
    settle(c, s, rng)
    return c, s


_PAIR = {}


def cached_pair(kind):
    """An opened pair with exchanged keys that may be reused between cases that leave it clean."""
    if kind not in _PAIR:
        _PAIR[kind] = with_key() if kind == "key" else opened()
    return _PAIR[kind]


def reset_pairs():
    _PAIR.clear()


class NoCipher(T.PSCryptoProvider):
    def encrypt(self, v):
        raise psrpcore.MissingCipherError()

    def decrypt(self, v):
        raise psrpcore.MissingCipherError()


def xml_ok(s):
    for ch in s:
        o = ord(ch)
        if not (o in (9, 10) or 0x20 <= o <= 0xd7ff or 0xe000 <= o <= 0xfffd or 0x10000 <= o <= 0x10ffff):
            return False
    return True


def check_tree_xml(el):
    for e in el.iter():
        for t in [e.text or ""] + list(e.attrib.values()):
            need(xml_ok(t), "text %a cannot be carried by XML unchanged", t)


def wire(value, cipher=None, check_text=True, **kw):
    """value -> element -> XML bytes -> element -> value"""
    cipher = cipher or NoCipher()
    el = serialize(value, cipher, **kw)
    if check_text:
        check_tree_xml(el)
    data = ET.tostring(el, encoding="utf-8", method="xml")
    return deserialize(ET.fromstring(data), cipher, **kw)


# ------------------------------------------------------------------ structural equality
def meta(v):
    return getattr(v, "PSObject", None)


def props_of(v, group):
    m = meta(v)
    if m is None:
        return []
    return [(p.name, p.get_value(v)) for p in getattr(m, group)]


SCALARS = {bool: bool}


def norm_type(v):
    """The documented counterpart of a plain Python value."""
    import datetime
    import decimal
    import queue
    t = type(v)
    if t is bool or v is None:
        return t
    if t is int:
        return T.PSInt if -2 ** 31 <= v <= 2 ** 31 - 1 else T.PSInt64
    return {str: T.PSString, float: T.PSSingle, decimal.Decimal: T.PSDecimal, bytes: T.PSByteArray, uuid.UUID: T.PSGuid,
            datetime.datetime: T.PSDateTime, datetime.timedelta: T.PSDuration, list: T.PSList, dict: T.PSDict,
            queue.Queue: T.PSQueue, tuple: T.PSCustomObject}.get(t, t)


def items_of(v):
    import queue
    if isinstance(v, queue.Queue):
        return list(v.queue)
    if isinstance(v, list):
        return list(list.__iter__(v))
    return None


def td_ns(v):
    return ((v.days * 86400 + v.seconds) * 10 ** 6 + v.microseconds) * 1000 + getattr(v, "nanoseconds", 0)


def same(a, b, path="value", seen=None, ident=None):
    """Raises Bad unless b is what a becomes after a round trip (types by documented counterpart)."""
    import datetime
    import enum
    seen = {} if seen is None else seen
    if a is None or b is None:
        need(a is None and b is None, "%s: %a became %a", path, a, b)
        return
    ta, tb = norm_type(a), type(b)
    if isinstance(a, enum.Enum):
        if isinstance(a, T.PSObject):
            need(type(a) is tb and a is b or a == b and type(a) is tb, "%s: enum %r became %r", path, a, b)
        else:
            need(int(b) == int(a.value), "%s: enum %r became %r", path, a, b)
        return
    need(ta is tb, "%s: %s became %s", path, ta.__name__, tb.__name__)
    if isinstance(a, T.PSObject) and not isinstance(a, (T.PSListBase, T.PSStackBase, T.PSDictBase)):
        if id(a) in seen:
            need(seen[id(a)][1] is b, "%s: one object became several", path)
            return
        seen[id(a)] = (a, b)
    if isinstance(a, str):
        need(utf16(str.__str__(a)) == utf16(str.__str__(b)), "%s: text %a became %a", path, str.__str__(a), str.__str__(b))
    elif isinstance(a, datetime.datetime):
        fa = (a.year, a.month, a.day, a.hour, a.minute, a.second, a.microsecond, getattr(a, "nanosecond", 0) // 100 * 100, a.utcoffset())
        fb = (b.year, b.month, b.day, b.hour, b.minute, b.second, b.microsecond, b.nanosecond, b.utcoffset())
        need(fa == fb, "%s: date time %r became %r", path, fa, fb)
    elif isinstance(a, datetime.timedelta):
        need(td_ns(a) // 100 * 100 == td_ns(b), "%s: duration %s ns became %s ns", path, td_ns(a), td_ns(b))
    elif isinstance(a, (bool, int)):
        need(int(a) == int(b), "%s: %r became %r", path, int(a), int(b))
    elif isinstance(a, float):
        need(float(a) == float(b), "%s: %r became %r", path, a, b)
    elif isinstance(a, bytes):
        need(bytes(a) == bytes(b), "%s: bytes %r became %r", path, bytes(a), bytes(b))
    elif isinstance(a, uuid.UUID):
        need(a.int == b.int, "%s: %s became %s", path, a, b)
    elif items_of(a) is not None:
        la, lb = items_of(a), items_of(b)
        need(len(la) == len(lb), "%s: %d elements became %d", path, len(la), len(lb))
        for i, (x, y) in enumerate(zip(la, lb)):
            same(x, y, "%s[%d]" % (path, i), seen)
    elif isinstance(a, dict):
        la, lb = list(dict.items(a)), list(dict.items(b))
        need(len(la) == len(lb), "%s: %d entries became %d", path, len(la), len(lb))
        for i, ((k, x), (k2, y)) in enumerate(zip(la, lb)):
            same(k, k2, "%s.key%d" % (path, i), seen)
            same(x, y, "%s{%d}" % (path, i), seen)
    elif isinstance(a, T.PSVersion):
        need((a.major, a.minor, a.build, a.revision) == (b.major, b.minor, b.build, b.revision), "%s: %r became %r", path, a, b)
    elif not isinstance(a, T.PSObject):
        need(a == b, "%s: %r became %r", path, a, b)
    if isinstance(a, T.PSObject):
        for g in ("adapted_properties", "extended_properties"):
            pa, pb = props_of(a, g), props_of(b, g)
            need([utf16(n) for n, _ in pa] == [utf16(n) for n, _ in pb], "%s: %s %a became %a", path, g, [n for n, _ in pa], [n for n, _ in pb])
            for (n, x), (_, y) in zip(pa, pb):
                same(x, y, "%s.%s" % (path, ascii(n)), seen)


def snapshot(v, seen=None):
    """A value that changes whenever anything observable of v changes."""
    import enum
    import queue
    seen = {} if seen is None else seen
    if v is None or isinstance(v, (bool, enum.Enum)):
        return repr(v)
    if id(v) in seen:
        return ("ref", seen[id(v)])
    seen[id(v)] = len(seen)
    out = [type(v).__name__]
    if isinstance(v, queue.Queue):
        out.append(("unfinished", v.unfinished_tasks, v.maxsize))
        out += [snapshot(x, seen) for x in list(v.queue)]
    elif isinstance(v, dict):
        out += [(snapshot(k, seen), snapshot(x, seen)) for k, x in dict.items(v)]
    elif isinstance(v, (list, tuple)):
        out += [snapshot(x, seen) for x in (list.__iter__(v) if isinstance(v, list) else v)]
    elif isinstance(v, str):
        out.append(cps(str.__str__(v)))
    elif isinstance(v, int):
        out.append(int(v))
    elif isinstance(v, (float, bytes)):
        out.append(repr(v))
    elif not isinstance(v, T.PSObject) or isinstance(v, (uuid.UUID, T.PSVersion, T.PSSecureString)):
        out.append(repr(v))
        if isinstance(v, T.PSSecureString):
            out.append(str(v))
    elif type(v).__mro__[1] is not T.PSObject:
        try:
            out.append(repr(v))
        except Exception as e:
            out.append(type(e).__name__)
    m = meta(v)
    if m is not None and isinstance(v, T.PSObject):
        out.append(("types", list(m.type_names)))
        out.append(("str", m.to_string if not hasattr(m, "_to_string") else m._to_string))
        for g in ("adapted_properties", "extended_properties"):
            l = []
            for p in getattr(m, g):
                try:
                    l.append((p.name, snapshot(p.get_value(v), seen)))
                except Exception as e:  # a getter of the test class that fails on purpose
                    l.append((p.name, type(e).__name__))
            out.append((g, l))
        d = object.__getattribute__(v, "__dict__") if hasattr(type(v), "__dict__") else {}
        rest = []
        for k in sorted(d):
            if k in ("PSObject",):
                continue
            if isinstance(v, queue.Queue):
                continue
            rest.append((k, snapshot(d[k], seen) if not callable(d[k]) else "callable"))
        out.append(("attrs", rest))
    return out

"""Regular expressions on symbolic text: a backtracking matcher over the parse tree CPython's own `re` uses.

Text is a list of tokens: a character, a digit of a fixed width number, or an unpadded number split into its first
digit (H, 1-9) and the remaining digits (T, none or more).  A remainder is only ever consumed as a whole by an unbounded
repetition or rejected as a digit; anything else fixes the number of digits (one path per width) and starts again.
"""
import re
try:
    from re import _parser as sre_parse, _constants as sc
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sc
import z3

from .core import Unsupported
from .values import int_op, SStr, Fix, Dec, Txt, mkstr, isinstance_proxy, payload
from .rt import RT, HOOKS
from . import stream

MAXW = 24
DIGITS = "0123456789"


class _Restart(Exception):
    def __init__(self, i):
        self.i = i


class Tok:
    __slots__ = ("kind", "ch", "d", "src", "idx")

    def __init__(self, kind, ch=None, d=None, src=None, idx=0):
        self.kind, self.ch, self.d, self.src, self.idx = kind, ch, d, src, idx


def digits_of(g):
    """the decimal digits of a fixed width number, most significant first"""
    out, v = [], g.v
    for i in range(g.w):
        if i == g.w - 1:
            out.append(z3.IntVal(v) if isinstance(v, int) else v)
            break
        q, r = int_op("floordiv", v, 10), int_op("mod", v, 10)
        out.append(z3.IntVal(0) + r)
        v = q
    return out[::-1]


def tokens(s):
    segs = s.segs if type(s) is SStr else [s]
    out = []
    for g in segs:
        if isinstance(g, str):
            out += [Tok("c", ch=c) for c in g]
        elif isinstance(g, Fix):
            out += [Tok("d", d=d, src=g, idx=i) for i, d in enumerate(digits_of(g))]
        elif isinstance(g, Dec):
            if RT.ctx.branch(g.v == 0):
                out.append(Tok("c", ch="0"))
            elif RT.ctx.valid(g.v < 10):
                out.append(Tok("d", d=g.v, src=Fix(g.v, 1), idx=0))
            else:
                out.append(Tok("H", d=g.v, src=g))
                out.append(Tok("T", d=g.v, src=g))
        else:
            out.append(Tok("x", src=g))
    return out


def text_of(toks):
    segs = []
    i = 0
    while i < len(toks):
        t = toks[i]
        if t.kind == "c":
            segs.append(t.ch)
            i += 1
        elif t.kind == "d":
            j = i
            while j < len(toks) and toks[j].kind == "d" and toks[j].src is t.src and toks[j].idx == t.idx + j - i:
                j += 1
            w = j - i
            g = t.src
            if t.idx == 0 and w == g.w:
                segs.append(g)
            else:
                v = z3.IntVal(0)
                for x in toks[i:j]:
                    v = v * 10 + x.d
                segs.append(Fix(z3.simplify(v, som=True), w))
            i = j
        elif t.kind == "H":
            if i + 1 < len(toks) and toks[i + 1].kind == "T" and toks[i + 1].src is t.src:
                segs.append(t.src)
                i += 2
            else:
                raise Unsupported("part of an unpadded number")
        elif t.kind == "x":
            segs.append(t.src)
            i += 1
        else:
            raise Unsupported("part of an unpadded number")
    return mkstr(segs)


def fix_width(s, i):
    """the i-th token belongs to an unpadded number: fork on its number of digits"""
    toks = tokens(s)
    g = toks[i].src
    for w in range(1, MAXW):
        if RT.ctx.branch(g.v < 10 ** w):
            return SStr([Fix(g.v, w) if x is g else x for x in s.segs])
    raise Unsupported("number of unbounded width")


def _cat(code, ch):
    n = str(code)
    if n.endswith("NOT_DIGIT"):
        return not ch.isdecimal()
    if n.endswith("DIGIT"):
        return ch.isdecimal()
    if n.endswith("NOT_SPACE"):
        return not ch.isspace()
    if n.endswith("SPACE"):
        return ch.isspace()
    if n.endswith("NOT_WORD"):
        return not (ch.isalnum() or ch == "_")
    if n.endswith("WORD"):
        return ch.isalnum() or ch == "_"
    raise Unsupported("regex category")


def char_test(op, av, flags):
    """predicate on a concrete character"""
    ic = flags & re.I

    def same(a, b):
        return a == b or (ic and (a.lower() == b.lower() or a.upper() == b.upper()))
    if flags & re.A and op is not sc.LITERAL:
        pass
    if op is sc.LITERAL:
        return lambda ch: same(ch, chr(av))
    if op is sc.NOT_LITERAL:
        return lambda ch: not same(ch, chr(av))
    if op is sc.ANY:
        return (lambda ch: True) if flags & re.S else (lambda ch: ch != "\n")
    if op is sc.IN:
        def f(ch):
            neg = False
            hit = False
            for o, v in av:
                if o is sc.NEGATE:
                    neg = True
                elif o is sc.LITERAL:
                    hit = hit or same(ch, chr(v))
                elif o is sc.RANGE:
                    hit = hit or v[0] <= ord(ch) <= v[1] or bool(ic and (any(v[0] <= ord(c) <= v[1] for c in (ch.lower(), ch.upper()) if len(c) == 1)))
                elif o is sc.CATEGORY:
                    hit = hit or _cat(v, ch)
                else:
                    raise Unsupported("regex set")
            return hit != neg
        return f
    return None


class Matcher:
    def __init__(self, pattern, s):
        self.pat = pattern
        self.flags = pattern.flags
        self.tree = sre_parse.parse(pattern.pattern, pattern.flags & ~re.U if isinstance(pattern.pattern, str) else pattern.flags)
        self.toks = tokens(s)
        self.steps = 0

    # ---- one character
    def digits(self, f, lo=0):
        return [d for d in range(lo, 10) if f(DIGITS[d])]

    def char(self, f, pos):
        """position after the character at pos when it satisfies f, None otherwise"""
        self.steps += 1
        if self.steps > 20000:
            raise Unsupported("regex work")
        if pos >= len(self.toks):
            return None
        t = self.toks[pos]
        if t.kind == "c":
            return pos + 1 if f(t.ch) else None
        if t.kind == "d":
            ds = self.digits(f)
            if len(ds) == 10:
                return pos + 1
            if not ds:
                return None
            return pos + 1 if RT.ctx.branch(z3.Or(*[t.d == d for d in ds])) else None
        if t.kind == "H":
            ds = self.digits(f, 1)
            if len(ds) == 9:
                return pos + 1
            if not ds:
                return None
            raise _Restart(pos)
        if t.kind == "T":
            ds = self.digits(f)
            if not ds:
                if RT.ctx.branch(t.d < 10):
                    return self.char(f, pos + 1)
                return None
            raise _Restart(pos)
        raise Unsupported("regular expression on opaque text")

    def at_end(self, pos):
        while pos < len(self.toks):
            t = self.toks[pos]
            if t.kind == "T":
                if RT.ctx.branch(t.d < 10):
                    pos += 1
                    continue
                return False
            if t.kind == "x":
                if RT.ctx.branch(t.src.len == 0 if not isinstance(t.src.len, int) else z3.BoolVal(t.src.len == 0)):
                    pos += 1
                    continue
            return False
        return True

    # ---- matching with continuations; k(pos, groups) -> result or None
    def seq(self, ops, i, pos, gr, k):
        if i == len(ops):
            return k(pos, gr)
        op, av = ops[i]

        def nxt(p, g):
            return self.seq(ops, i + 1, p, g, k)
        f = char_test(op, av, self.flags)
        if f is not None:
            p = self.char(f, pos)
            return None if p is None else nxt(p, gr)
        if op is sc.SUBPATTERN:
            gid, add, dele, sub = av
            old = self.flags

            def done(p, g):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (pos, p)
                inner = self.flags
                self.flags = old
                try:
                    return nxt(p, g)
                finally:
                    self.flags = inner
            self.flags = (old | add) & ~dele
            try:
                return self.seq(list(sub), 0, pos, gr, done)
            finally:
                self.flags = old
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, pos, gr, nxt)
                if r is not None:
                    return r
            return None
        if op is sc.AT:
            n = str(av)
            if n in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                if self.flags & re.M and n == "AT_BEGINNING":
                    raise Unsupported("multi line")
                return nxt(pos, gr) if pos == 0 else None
            if n in ("AT_END", "AT_END_STRING"):
                if self.flags & re.M:
                    raise Unsupported("multi line")
                if self.at_end(pos):
                    return nxt(pos, gr)
                if n == "AT_END" and pos < len(self.toks) and self.toks[pos].kind == "c" and self.toks[pos].ch == "\n" and self.at_end(pos + 1):
                    return nxt(pos, gr)
                return None
            raise Unsupported("regex anchor " + n)
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            if av[0] != 1:
                raise Unsupported("look-behind")
            r = self.seq(list(av[1]), 0, pos, gr, lambda p, g: (p, g))
            if op is sc.ASSERT:
                return None if r is None else nxt(pos, r[1])
            return nxt(pos, gr) if r is None else None
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            unb = hi is sc.MAXREPEAT or hi == sc.MAXREPEAT
            one = char_test(sub[0][0], sub[0][1], self.flags) if len(sub) == 1 else None
            if op is sc.MIN_REPEAT:
                if any(t.kind in "HTx" for t in self.toks):
                    raise Unsupported("lazy repetition on symbolic text")

            def rep(n, p, g):
                if op is sc.MIN_REPEAT and n >= lo:
                    r = nxt(p, g)
                    if r is not None:
                        return r
                if unb or n < hi:
                    if one is not None and p < len(self.toks) and self.toks[p].kind == "T":
                        ds = self.digits(one)
                        if len(ds) == 10 and unb and n >= lo:
                            r = rep(n, p + 1, g)
                            if r is not None:
                                return r
                        elif ds:
                            raise _Restart(p)
                        elif RT.ctx.branch(self.toks[p].d < 10):
                            r = rep(n, p + 1, g)
                            if r is not None:
                                return r
                    else:
                        r = self.seq(sub, 0, p, g, lambda q, g2: rep(n + 1, q, g2) if q != p or n < lo else None)
                        if r is not None:
                            return r
                if op is sc.MAX_REPEAT and n >= lo:
                    return nxt(p, g)
                return None
            return rep(0, pos, gr)
        if op is sc.GROUPREF:
            raise Unsupported("back reference")
        raise Unsupported("regex operator %s" % op)

    def at(self, pos, full=False):
        r = self.seq(list(self.tree), 0, pos, {}, lambda p, g: (p, g) if not full or self.at_end(p) else None)
        return r


class SMatch:
    """match object"""

    def __init__(self, pat, s, toks, start, end, groups):
        self.re, self.string = pat, s
        self._toks, self._s, self._e, self._g = toks, start, end, groups

    def _span(self, g):
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError("no such group")
            g = self.re.groupindex[g]
        if g == 0:
            return self._s, self._e
        if g > self.re.groups:
            raise IndexError("no such group")
        return self._g.get(g)

    def _one(self, g, default=None):
        sp = self._span(g)
        return default if sp is None else text_of(self._toks[sp[0]:sp[1]])

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(n, default) for n in self.re.groupindex}

    def start(self, g=0):
        return self._pos(self._span(g)[0])

    def end(self, g=0):
        return self._pos(self._span(g)[1])

    def span(self, g=0):
        return (self.start(g), self.end(g))

    def _pos(self, i):
        if any(t.kind in "Tx" for t in self._toks[:i]):
            raise Unsupported("match position after text of unknown length")
        return i

    def __bool__(self):
        return True


def run(pat, s, mode):
    p = payload(s)
    if type(p) is stream.Stream and mode == "search":
        return stream.search(pat, p)
    if not isinstance_proxy(p):
        return getattr(pat, mode)(p)
    if type(p) is not SStr:
        raise Unsupported("regex on %s" % getattr(p, "_kind", p))
    while True:
        m = Matcher(pat, p)
        try:
            if mode in ("match", "fullmatch"):
                r = m.at(0, mode == "fullmatch")
                return None if r is None else SMatch(pat, p, m.toks, 0, r[0], r[1])
            if mode == "search":
                for i in range(len(m.toks) + 1):
                    r = m.at(i)
                    if r is not None:
                        return SMatch(pat, p, m.toks, i, r[0], r[1])
                return None
            raise Unsupported("Pattern." + mode)
        except _Restart as e:
            p = fix_width(p, e.i)


def sub(pat, repl, s, count=0):
    p = payload(s)
    if type(p) is stream.Stream:
        return stream.sub(pat, repl, p, count)
    if type(p) is not SStr:
        return HOOKS.call(pat.sub, repl, p)
    while True:
        m = Matcher(pat, p)
        try:
            out, i, n = [], 0, 0
            while i <= len(m.toks):
                r = m.at(i) if not count or n < count else None
                if r is None or r[0] == i:
                    if r is not None:
                        raise Unsupported("empty regex match")
                    if i < len(m.toks):
                        out.append(m.toks[i])
                    i += 1
                    continue
                mo = SMatch(pat, p, m.toks, i, r[0], r[1])
                n += 1
                if callable(repl):
                    t = HOOKS.call(repl, mo)
                else:
                    t = template(pat, repl, mo)
                out += tokens(t if type(t) is SStr else SStr([t]))
                i = r[0]
            return text_of(out)
        except _Restart as e:
            p = fix_width(p, e.i)


def template(pat, repl, mo):
    if isinstance_proxy(repl):
        raise Unsupported("symbolic replacement")
    parts = sre_parse.parse_template(repl, pat)
    segs = []
    for x in parts:
        if isinstance(x, str):
            segs.append(x)
        else:
            v = mo.group(x)
            segs += SStr._segs_of(v) if v is not None else []
    return mkstr(segs)


def pattern_method(pat, name, a, k):
    if name in ("match", "search", "fullmatch") and len(a) == 1 and not k:
        return run(pat, a[0], name)
    if name == "sub":
        return sub(pat, a[0], a[1], *a[2:], **k)
    raise Unsupported("Pattern.%s" % name)


def module_func(name, a, k):
    if name in ("match", "search", "fullmatch") and len(a) >= 2:
        return run(re.compile(*([a[0]] + list(a[2:])), **k), a[1], name)
    if name == "sub":
        fl = k.pop("flags", 0)
        return sub(re.compile(a[0], fl) if fl else re.compile(a[0]), a[1], a[2], *a[3:], **k)
    raise Unsupported("re.%s" % name)

"""Strings of any length and content as streams of characters (property C05).

A Stream stands for one arbitrary string.  What the code does to it is recorded as a chain of stages: re.sub with the real
compiled pattern and the real replacement, str.replace, str.translate, a UTF-16 encode and decode.  Every stage is an online
machine: it keeps the characters it cannot decide yet (those on which a run of the pattern's automaton is still alive), and asks
the real compiled pattern as soon as no later character can change the answer.  `decide` explores every reachable state of the
whole chain, one transition per character class, with the invariant

    characters read so far, as UTF-16 units == units emitted so far + lag(state)     and     flush(state) == lag(state)

which is inductive, so it holds for strings of every length.  Classes of characters whose replacement is computed by a function
are enumerated character by character; characters no replacement function can see are represented by two of their class (a
stage copies them, drops them or inserts constants, so two different characters show every difference).
"""
import re
from re import _parser as sre_parse, _constants as sc, _compiler
from .core import Unsupported
from .values import Proxy
from .rt import RT

MAXCP = 0x110000


class Node:
    """a predicate on one character, decided by the real `re`"""
    def __init__(self, item, flags, state):
        self.pat = _compiler.compile(sre_parse.SubPattern(state, [item]), flags)
        self.memo = {}

    def __call__(self, c):
        r = self.memo.get(c)
        if r is None:
            r = self.memo[c] = self.pat.match(c) is not None
        return r

    def members(self, every):
        return [m.start() for m in self.pat.finditer(every)]


class Nfa:
    """over approximation (assertions hold) of the texts a pattern can match, followed by `ahead` arbitrary characters"""
    def __init__(self, pat):
        if not isinstance(pat.pattern, str):
            raise Unsupported("pattern on bytes")
        self.edges, self.eps, self.nodes = [], [], []
        self.flags, self.behind, self.ahead = pat.flags, 0, 0
        p = sre_parse.parse(pat.pattern, pat.flags)
        self.state = p.state
        if p.getwidth()[0] == 0:
            raise Unsupported("pattern that matches the empty text")
        a = self.new()
        b = self.seq(p, a, self.flags)
        for _ in range(self.ahead):
            c = self.new()
            self.edges[b].append((None, c))
            self.eps[b].append(c)
            b = c
        self.start = a
        self.memo, self.canons = {}, {}

    def canon(self, hist):
        """characters already passed: only the predicates of the pattern see them, so one of each kind is enough"""
        return "".join(self.canons.setdefault(tuple(n(c) for n in self.nodes), c) for c in hist)

    def new(self):
        self.edges.append([])
        self.eps.append([])
        return len(self.edges) - 1

    def node(self, item, flags):
        n = Node(item, flags, self.state)
        self.nodes.append(n)
        return n

    def seq(self, items, a, flags):
        for it in items:
            a = self.item(it, a, flags)
        return a

    def item(self, it, a, flags):
        op, av = it
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.IN, sc.ANY):
            b = self.new()
            self.edges[a].append((self.node(it, flags), b))
            return b
        if op is sc.SUBPATTERN:
            _, add, drop, p = av
            return self.seq(p, a, (flags | add) & ~drop)
        if op is sc.ATOMIC_GROUP:
            return self.seq(av, a, flags)
        if op is sc.BRANCH:
            b = self.new()
            for p in av[1]:
                s = self.new()
                self.eps[a].append(s)
                self.eps[self.seq(p, s, flags)].append(b)
            return b
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT):
            lo, hi, p = av
            if lo > 64 or hi is not sc.MAXREPEAT and hi > 64:
                raise Unsupported("large repetition")
            for _ in range(lo):
                a = self.seq(p, a, flags)
            if hi is sc.MAXREPEAT:
                s = self.new()
                self.eps[a].append(s)
                self.eps[self.seq(p, s, flags)].append(s)
                return s
            end = self.new()
            self.eps[a].append(end)
            for _ in range(hi - lo):
                a = self.seq(p, a, flags)
                self.eps[a].append(end)
            return end
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            d, p = av
            lo, hi = p.getwidth()
            if hi > 16:
                raise Unsupported("wide assertion")
            if d > 0:
                self.ahead = max(self.ahead, hi)
            else:
                self.behind = max(self.behind, hi)
            self.seq(p, self.new(), flags)  # for the character classes only
            return a
        if op is sc.AT:
            self.behind, self.ahead = max(self.behind, 1), max(self.ahead, 2)
            self.node((sc.LITERAL, 10), flags)
            self.node((sc.IN, [(sc.CATEGORY, sc.CATEGORY_WORD)]), flags)
            return a
        raise Unsupported("pattern item %s" % op)

    def close(self, s):
        todo, s = list(s), set(s)
        while todo:
            for b in self.eps[todo.pop()]:
                if b not in s:
                    s.add(b)
                    todo.append(b)
        return frozenset(s)

    def alive(self, text):
        """some run reads all of text and can read on"""
        r = self.memo.get(text)
        if r is None:
            cur = self.close([self.start])
            for c in text:
                cur = self.close([b for a in cur for p, b in self.edges[a] if p is None or p(c)])
                if not cur:
                    break
            r = self.memo[text] = any(self.edges[a] for a in cur)
        return r


class MO:
    """the part of a match a replacement may depend on"""
    def __init__(self, m):
        self._m = m
        self.re = m.re
        self.lastindex, self.lastgroup = m.lastindex, m.lastgroup

    def group(self, *a):
        return self._m.group(*a)

    def __getitem__(self, k):
        return self._m[k]

    def groups(self, *a, **k):
        return self._m.groups(*a, **k)

    def groupdict(self, *a, **k):
        return self._m.groupdict(*a, **k)

    def expand(self, t):
        return self._m.expand(t)

    def __getattr__(self, k):
        raise Unsupported("Match.%s" % k)


def outside(f, *a):
    """runs code of the repository on concrete values"""
    c, RT.ctx = RT.ctx, None
    try:
        return f(*a)
    finally:
        RT.ctx = c


class Sub:
    start = ("", "")

    def __init__(self, pat, repl):
        self.pat, self.repl, self.nfa = pat, repl, Nfa(pat)
        self.fn = callable(repl)
        self.memo = {}
        self.steps = {}

    def nodes(self):
        return [(n, self.fn) for n in self.nfa.nodes]

    def out(self, m):
        if not self.fn:
            return m.expand(self.repl)
        k = (m.group(0), m.groups())
        r = self.memo.get(k)
        if r is None:
            r = outside(self.repl, MO(m))
            if not isinstance(r, str) or isinstance(r, Proxy):
                raise Unsupported("replacement is not text")
            if len(self.memo) < 5000:
                self.memo[k] = r = str(r)
        return r

    def run(self, st, end):
        hist, pend = st
        res = []
        match, behind, alive = self.pat.match, self.nfa.behind, self.nfa.alive
        while pend and (end or not alive(pend)):
            m = match(hist + pend, len(hist))
            if m:
                res.append(self.out(m))
                n = m.end() - len(hist)
            else:
                res.append(pend[0])
                n = 1
            if behind:
                hist = self.nfa.canon((hist + pend[:n])[-behind:])
            pend = pend[n:]
        return "".join(res), (hist, pend)

    def step(self, st, c):
        k = (st, c)
        r = self.steps.get(k)
        if r is None:
            r = self.run((st[0], st[1] + c), False)
            if len(self.steps) < 5000:
                self.steps[k] = r
        return r

    def flush(self, st):
        return self.run(st, True)[0]


class Join:
    """encode and decode as UTF-16 with surrogatepass: the same code units, surrogate pairs joined"""
    start = ""

    def nodes(self):
        return []

    def step(self, st, c):
        if "\ud800" <= c <= "\udbff":
            return st, c
        if st and "\udc00" <= c <= "\udfff":
            return chr(0x10000 + ((ord(st) - 0xd800) << 10) + ord(c) - 0xdc00), ""
        return st + c, ""

    def flush(self, st):
        return st


class Watch:
    """copies, and remembers whether the needle has been seen (needle: a Sub whose matches count)"""
    start = (("", ""), False)

    def __init__(self, pat, want):
        self.pat, self.want, self.nfa = pat, want, Nfa(pat)

    def nodes(self):
        return [(n, False) for n in self.nfa.nodes]

    def _run(self, st, end):
        (hist, pend), seen = st
        while pend and not seen and (end or not self.nfa.alive(pend)):
            if self.pat.match(hist + pend, len(hist)):
                seen = True
                break
            if self.nfa.behind:
                hist = self.nfa.canon((hist + pend[:1])[-self.nfa.behind:])
            pend = pend[1:]
        return (("", "") if seen else (hist, pend)), seen

    def step(self, st, c):
        if st[1]:
            return c, st
        return c, self._run(((st[0][0], st[0][1] + c), False), False)

    def flush(self, st):
        return ""

    def allowed(self, st):
        """some string that goes on from here satisfies the condition"""
        return self.want or not st[1]

    def accepts(self, st):
        return self._run(st, True)[1] == self.want


class Stream(Proxy):
    """one arbitrary string after some stages"""
    _kind = "stream"
    __slots__ = ("root", "stages")

    def __init__(self, root, stages=()):
        self.root, self.stages = root, tuple(stages)

    @property
    def __class__(self):
        return str

    def then(self, st):
        return Stream(self.root, self.stages + (st,))

    def watch(self, pat):
        t = RT.ctx.branch(RT.ctx.bool("contains"))
        self.root.watch.append((self.stages, Watch(pat, t)))
        return t

    def sub(self, pat, repl, count=0):
        if count:
            raise Unsupported("limited number of replacements")
        return self.then(Sub(pat, repl))

    def replace(self, old, new, count=-1):
        if count >= 0 or not old or isinstance(old, Proxy) or isinstance(new, Proxy):
            raise Unsupported("replace")
        return self.then(Sub(re.compile(re.escape(old)), new.replace("\\", "\\\\")))

    def translate(self, table):
        keys = [k for k in table if isinstance(k, int)]
        if not keys:
            return self

        def f(m):
            r = table[ord(m.group(0))]
            return "" if r is None else chr(r) if isinstance(r, int) else r
        return self.then(Sub(re.compile("[" + "".join("\\U%08x" % k for k in keys) + "]"), f))

    def encode(self, encoding="utf-8", errors="strict"):
        return Coded(self, norm(encoding), errors)

    def __bool__(self):
        return self.watch(re.compile(r"(?s:.)"))

    def sym_contains(self, x):
        if isinstance(x, Proxy) or not x:
            raise Unsupported("in")
        return self.watch(re.compile(re.escape(x)))

    def isascii(self):
        return not self.watch(re.compile("[^\\x00-\\x7f]"))

    def __str__(self):
        raise Unsupported("native str of stream")

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, str) and not isinstance(o, Proxy) and o == "":
            return not self
        raise Unsupported("comparison of a stream")

    def __ne__(self, o):
        return not self == o

    __hash__ = Proxy.__hash__


def norm(e):
    return e.lower().replace("_", "-")


class Coded(Proxy):
    _kind = "encoded stream"
    __slots__ = ("s", "enc", "errors")

    def __init__(self, s, enc, errors):
        self.s, self.enc, self.errors = s, enc, errors

    @property
    def __class__(self):
        return bytes

    def decode(self, encoding="utf-8", errors="strict"):
        if norm(encoding) == self.enc and self.enc in ("utf-16-be", "utf-16-le") and errors == self.errors == "surrogatepass":
            from .models import assumed
            assumed("codec", "decoding the UTF-16 bytes of a string with surrogatepass gives the string with the same code units, pairs joined")
            return self.s.then(Join())
        raise Unsupported("encode and decode with %s/%s" % (self.enc, self.errors))


class Root:
    def __init__(self):
        self.watch = []


def fresh():
    return Stream(Root())


def sub(pat, repl, s, count=0):
    if isinstance(repl, Proxy):
        raise Unsupported("symbolic replacement")
    return s.sub(pat, repl, count)


def search(pat, s):
    return MO0() if s.watch(pat) else None


class MO0:
    def __getattr__(self, k):
        raise Unsupported("match on a stream: .%s" % k)


# ------------------------------------------------------------------ decision
def units(s):
    return "".join(c if c < "\U00010000" else chr(0xd800 + ((ord(c) - 0x10000) >> 10)) + chr(0xdc00 + ((ord(c) - 0x10000) & 0x3ff)) for c in s)


class Chain:
    def __init__(self, stages):
        self.stages = stages
        self.start = tuple(s.start for s in stages)

    def feed(self, st, text, i=0, taps=None):
        """(output, new state) for the text entering at stage i"""
        st = list(st)
        for k in range(i, len(self.stages)):
            s, q, out = self.stages[k], st[k], []
            for c in text:
                o, q = s.step(q, c)
                out.append(o)
            st[k] = q
            text = "".join(out)
            if taps is not None:
                taps(k, text)
        return text, tuple(st)


def _feed1(chain, st, k, text):
    s, q, out = chain.stages[k], st[k], []
    for c in text:
        o, q = s.step(q, c)
        out.append(o)
    return "".join(out), q


def flush(chain, st, taps=None):
    """what comes out when the string ends here; also the final states"""
    text, fin = "", []
    for k, s in enumerate(chain.stages):
        o, q = _feed1(chain, st, k, text)
        fin.append(q)
        text = o + s.flush(q)
        if taps is not None:
            taps(k, text)
    return text, fin


def letters(stages):
    """(representatives, characters to enumerate one by one)"""
    every = "".join(map(chr, range(MAXCP)))
    bits = [0] * MAXCP
    fn = 0
    for i, (n, f) in enumerate([x for s in stages for x in s.nodes()]):
        b = 1 << i
        if f:
            fn |= b
        for j in n.members(every):
            bits[j] |= b
    groups = {}
    for j, b in enumerate(bits):
        groups.setdefault(b, []).append(j)
    reps, each, few = [], [], []
    for b, js in groups.items():
        few += js[:1] + js[-1:]
        if b & fn and len(js) > 64:
            each += js
            reps += js[:2] + js[-2:] + js[len(js) // 2:len(js) // 2 + 2]
        else:
            reps += js if b & fn else js[:2] + js[-1:]
    for j in (0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x5f, 0x78, 0x58, 0x30, 0x39, 0x41, 0x46, 0x61, 0x66):
        reps.append(j)
    return sorted(set(reps)), sorted(set(each)), sorted(set(few))


class Bad(Exception):
    def __init__(self, what, text):
        self.what, self.text = what, text


def decide(out, tap, safe, part, parts, maxstates=400):
    """`out` is the stream after everything, `tap` the number of stages after which the serialized text stands, `safe(c)` the
    characters allowed there.  Raises Bad with a string that breaks the claim; returns (states, transitions, characters)."""
    stages = list(out.stages)
    if not stages or type(stages[-1]) is not Join:
        final = None
    else:
        final = stages.pop()
    for s in stages:
        if type(s) is Join:
            raise Unsupported("UTF-16 round trip before the end")
    # conditions the path depends on: inserted after the stages they looked at
    for pre, w in out.root.watch:
        if tuple(pre) != out.stages[:len(pre)]:
            raise Unsupported("condition on another stream")
        if pre and type(pre[-1]) is Join:
            raise Unsupported("condition on the final text")
    ins = sorted(((len(pre), w) for pre, w in out.root.watch), key=lambda x: -x[0])
    for n, w in ins:
        stages.insert(n, w)
        if n < tap or n == tap and n == 0:
            tap += 1
    chain = Chain(stages)
    watches = [(k, s) for k, s in enumerate(stages) if type(s) is Watch]
    reps, each, few = letters(stages)
    chars = {c: units(chr(c)) for c in reps}
    seen, parent, order = {}, {}, []

    def text_to(q):
        t = ""
        while q in parent:
            q, c = parent[q]
            t = chr(c) + t
        return t

    bad_char = [None]

    def taps(k, t):
        if k == tap - 1:
            for c in t:
                if not safe(c):
                    bad_char[0] = c
    ncount = [0]

    def transition(q, c, enter):
        st, lag = q
        ncount[0] += 1
        o, st2 = chain.feed(st, chr(c), 0, taps)
        for k, w in watches:
            if not w.allowed(st2[k]):
                return
        if tap == 0 and not safe(chr(c)):
            bad_char[0] = chr(c)
        if bad_char[0] is not None:
            raise Bad("character %#x in the serialized text" % ord(bad_char[0]), text_to(q) + chr(c))
        want = lag + units(chr(c))
        got = units(o)
        if want[:len(got)] != got:
            raise Bad("text changed", text_to(q) + chr(c))
        q2 = (st2, want[len(got):])
        if q2 not in seen:
            enter(q2, q, c)

    def check_end(q):
        o, fin = flush(chain, q[0], taps)
        for k, w in watches:
            if not w.accepts(fin[k]):
                bad_char[0] = None
                return
        if bad_char[0] is not None:
            raise Bad("character %#x in the serialized text" % ord(bad_char[0]), text_to(q))
        if units(o) != q[1]:
            raise Bad("text changed", text_to(q))

    def enter(q2, q, c):
        if len(seen) >= limit[0]:
            raise Unsupported("more than %d states" % maxstates)
        seen[q2] = True
        order.append(q2)
        if q is not None:
            parent[q2] = (q, c)
        check_end(q2)
    limit = [10 * maxstates]
    try:  # a first look with two characters of each class
        enter((chain.start, ""), None, None)
        i = 0
        while i < len(order):
            i += 1
            for c in few:
                transition(order[i - 1], c, enter)
    except Unsupported:
        pass
    limit[0] = maxstates
    seen.clear()
    parent.clear()
    order.clear()
    bad_char[0] = None
    enter((chain.start, ""), None, None)
    if final is None and not watches:  # a character stays one character
        for c in reps:
            o, st = chain.feed(chain.start, chr(c))
            if o + flush(chain, st)[0] != chr(c):
                raise Bad("text changed", chr(c))
    i = 0
    while i < len(order):
        q = order[i]
        i += 1
        for c in reps:
            transition(q, c, enter)

    def late(q2, q, c):
        enter(q2, q, c)
        raise Unsupported("a state only character %#x reaches" % c)
    mine = each[part::parts]
    for q in list(order):
        for c in mine:
            transition(q, c, late)
    if final is None:
        raise Unsupported("surrogate pairs are not joined by a UTF-16 round trip at the end")
    return len(order), ncount[0], len(reps) + len(mine)

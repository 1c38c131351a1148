"""Regular expressions over symbolic text: a backtracking matcher over the cells of a Seq, in Python's match order.

Whether a symbolic cell belongs to a character class is decided by the engine (both outcomes are explored), so every path
sees the match the real `re` module finds for all texts of that path.  Concrete strings go to the real module."""
import re
from re import _parser as P, _constants as C
import z3
from . import engine as E
from . import text as T
from .text import Seq, Ch, UCh, Tok, Dbl, ByteOf
from .values import Sym, SInt

MAXU = 0x10FFFF
_INTERVALS = {}


def intervals(pred, key, top):
    r = _INTERVALS.get((key, top))
    if r is None:
        r, start = [], None
        for c in range(top + 1):
            if pred(c):
                if start is None:
                    start = c
            elif start is not None:
                r.append((start, c - 1))
                start = None
        if start is not None:
            r.append((start, top))
        _INTERVALS[(key, top)] = r
    return r


def category(cat, isstr, flags):
    """(intervals of codes in the category)"""
    name = str(cat)
    neg = 'NOT_' in name
    asc = not isstr or flags & re.ASCII
    top = MAXU if isstr else 255
    base = 'digit' if 'DIGIT' in name else 'space' if 'SPACE' in name else 'word' if 'WORD' in name else 'linebreak'
    pat = {'digit': r'\d', 'space': r'\s', 'word': r'\w', 'linebreak': r'\n'}[base]
    rx = re.compile(pat, re.ASCII if asc else 0)
    return intervals(lambda c: bool(rx.match(chr(c))) != neg, (base, neg, bool(asc)), top)


class Cls:
    """A set of character codes (sorted disjoint intervals)."""

    def __init__(self, iv):
        self.iv = iv

    def has(self, c):
        return any(a <= c <= b for a, b in self.iv)

    def covers(self, lo, hi):
        return any(a <= lo and hi <= b for a, b in self.iv)

    def meets(self, lo, hi):
        return any(a <= hi and lo <= b for a, b in self.iv)


def norm(iv):
    out = []
    for a, b in sorted(iv):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return out


def invert(iv, top):
    out, p = [], 0
    for a, b in norm(iv):
        if a > p:
            out.append((p, a - 1))
        p = b + 1
    if p <= top:
        out.append((p, top))
    return out


def fold(iv, top):
    out = list(iv)
    for a, b in iv:
        if b - a > 2000:
            continue
        for c in range(a, b + 1):
            for d in (chr(c).lower(), chr(c).upper()):
                if len(d) == 1 and ord(d) <= top:
                    out.append((ord(d), ord(d)))
    return norm(out)


def cls_of(op, av, isstr, flags):
    """The class of a one-character node."""
    top = MAXU if isstr else 255
    if op is C.LITERAL:
        iv = [(av, av)]
    elif op is C.NOT_LITERAL:
        iv = [(av, av)]
        if flags & re.IGNORECASE:
            iv = fold(iv, top)
        return Cls(invert(iv, top))
    elif op is C.ANY:
        return Cls([(0, top)] if flags & re.DOTALL else invert([(10, 10)], top))
    elif op is C.CATEGORY:
        return Cls(category(av, isstr, flags))
    else:
        iv, neg = [], False
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                iv.append((a, a))
            elif o is C.RANGE:
                iv.append(a)
            elif o is C.CATEGORY:
                iv += category(a, isstr, flags)
        iv = norm(iv)
        if flags & re.IGNORECASE:
            iv = fold(iv, top)
        return Cls(invert(iv, top) if neg else iv)
    if flags & re.IGNORECASE:
        iv = fold(iv, top)
    return Cls(norm(iv))


ONE = (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN, C.CATEGORY)


class Cells:
    """Cell-wise access to a text; narrowed tokens are replaced by their concrete text as the match goes."""

    def __init__(self, s):
        self.kind = s.kind
        self.load(s.fixed())

    def load(self, s):
        self.s = s
        self.c = c = []
        for it in s.items:
            if isinstance(it, str):
                c.extend(map(ord, it))
            elif isinstance(it, bytes):
                c.extend(it)
            else:
                c.extend((it, k) for k in range(T.width(it)))
        self.memo = {}

    def __len__(self):
        return len(self.c)

    def narrow(self, it):
        if isinstance(it, Tok):
            new = self.s._enc(T.conc_tok(it))
        else:
            new = chr(T.conc_int_narrow(SInt(it.ch.z))).encode()
        self.load(Seq(self.kind, [new if x is it else x for x in self.s.items]))

    def isin(self, p, cls):
        """Whether the character at p is in the class (decided on this path)."""
        x = self.c[p]
        if isinstance(x, int):
            return cls.has(x)
        it, a = x
        e = E.eng()
        if isinstance(it, Ch):
            if cls.covers(it.lo, it.hi):
                return True
            if not cls.meets(it.lo, it.hi):
                return False
            return e.decide(z3.Or(*[it.z == l if l == h else z3.And(it.z >= l, it.z <= h) for l, h in cls.iv
                                    if l <= it.hi and it.lo <= h]))
        if isinstance(it, (Dbl, ByteOf)):
            z = it.bytez()[a] if isinstance(it, Dbl) else it.d.bytez()[it.j]
            if cls.covers(0, 255):
                return True
            return e.decide(z3.Or(*[z3.And(z >= l, z <= min(h, 255)) for l, h in cls.iv if l <= 255]))
        if isinstance(it, UCh):
            if cls.covers(128, 255):
                return True
            if not cls.meets(128, 255):
                return False
            self.narrow(it)
            return self.isin(p, cls)
        return self.tok_isin(it, a, p, cls)

    def tok_isin(self, t, a, p, cls):
        e = E.eng()
        digits = sum(cls.has(ord(c)) for c in '0123456789')
        if t.conv == 'i':
            if digits not in (0, 10):
                conds = []
                for c in '0123456789- ':
                    if cls.has(ord(c)):
                        w = T.window(t, a, c)
                        if w is not False:
                            conds.append(w)
                return e.decide(z3.Or(*conds)) if conds else False
            blank = z3.BoolVal(False) if t.tight or t.w - a - 1 < 1 else t.len_le(t.w - a - 1)
            lo = t.v.lo
            if lo is not None and lo >= 0:
                minus = z3.BoolVal(False)
            else:
                minus = z3.And(t.v.z < 0, z3.Not(blank), z3.BoolVal(True) if a == 0 else
                               z3.BoolVal(False) if t.tight else t.len_le(t.w - a))
            parts = []
            if cls.has(32):
                parts.append(blank)
            if cls.has(45):
                parts.append(minus)
            if digits:
                parts.append(z3.And(z3.Not(blank), z3.Not(minus)))
            return e.decide(z3.Or(*parts)) if parts else False
        if t.conv == 'e':
            alts, yes, no = [], True, True
            for sg in ((0,) if t.v.nonneg else (0, 1)):
                for e3 in ((0,) if t.v.small else (0, 1)):
                    body = '-' * sg + 'd' + ('.' + 'd' * t.prec if t.prec else '') + 'msdd' + 'd' * e3
                    if len(body) > t.w or t.tight and len(body) != t.w:
                        continue
                    ch = body.rjust(t.w)[a]
                    here = z3.And(T.neg(t.v) if sg else z3.Not(T.neg(t.v)), T.exp3(t.v, t.prec) if e3 else z3.Not(T.exp3(t.v, t.prec)))
                    if ch == 'd':
                        if 0 < digits < 10:
                            self.narrow(t)
                            return self.isin(p, cls)
                        k = z3.BoolVal(digits == 10)
                    elif ch in 'ms':
                        ng = T.expneg(t.v, t.prec)
                        cn, cp = (t.mn, t.mp) if ch == 'm' else ('-', '+')
                        n, q = cls.has(ord(cn)), cls.has(ord(cp))
                        k = z3.BoolVal(n) if n == q else (ng if n else z3.Not(ng))
                    else:
                        k = z3.BoolVal(cls.has(ord(ch)))
                    if not z3.is_true(k):
                        yes = False
                    if not z3.is_false(k):
                        no = False
                    alts.append(z3.And(here, k))
            if yes:
                return True
            if no:
                return False
            return e.decide(z3.Or(*alts))
        self.narrow(t)
        return self.isin(p, cls)

    def lit(self, p, sub):
        """Whether the literal sub occurs at p."""
        if p + len(sub) > len(self.c):
            return False
        k = self.memo.get((p, sub))
        if k is None:
            k = self._lit(p, sub)
            self.memo[(p, sub)] = k
        return k

    def _lit(self, p, sub):
        raw = sub if self.kind == 'str' else sub.encode('latin-1')
        for q, ch in enumerate(sub):            # quick refusal
            x = self.c[p + q]
            if isinstance(x, int) and x != ord(ch):
                return False
        while True:
            r = T.match_at(self.s, p, raw)
            if isinstance(r, list):
                return E.eng().decide(z3.And(*r)) if r else True
            if r is None:
                return False
            self.narrow(r)


class Matcher:
    def __init__(self, tree, flags, cells, end):
        self.flags = flags
        self.cells = cells
        self.isstr = cells.kind == 'str'
        self.end = end
        self.cls = {}

    def one(self, op, av, flags):
        k = (op, repr(av), flags)
        r = self.cls.get(k)
        if r is None:
            r = self.cls[k] = cls_of(op, av, self.isstr, flags)
        return r

    def at(self, av, p, flags):
        n = self.end
        nl = Cls([(10, 10)])
        if av is C.AT_BEGINNING or av is C.AT_BEGINNING_STRING:
            if p == 0:
                return True
            return bool(av is C.AT_BEGINNING and flags & re.MULTILINE and self.cells.isin(p - 1, nl))
        if av is C.AT_END_STRING:
            return p == n
        if av is C.AT_END:
            if p == n:
                return True
            if flags & re.MULTILINE or p == n - 1:
                return self.cells.isin(p, nl)
            return False
        word = Cls(category(C.CATEGORY_WORD, self.isstr, flags))
        a = p > 0 and self.cells.isin(p - 1, word)
        b = p < n and self.cells.isin(p, word)
        return (a != b) == ('NON' not in str(av))

    def run(self, nodes, i, p, g, flags):
        """Yields (position, groups) of the matches of nodes[i:] at p, in order of preference."""
        while i < len(nodes):
            op, av = nodes[i]
            if op in ONE:
                if op is C.LITERAL and not flags & re.IGNORECASE:
                    j = i
                    while j < len(nodes) and nodes[j][0] is C.LITERAL:
                        j += 1
                    s = ''.join(chr(nodes[k][1]) for k in range(i, j))
                    if p + len(s) > self.end or not self.cells.lit(p, s):
                        return
                    p += len(s)
                    i = j
                    continue
                if p >= self.end or not self.cells.isin(p, self.one(op, av, flags)):
                    return
                p += 1
                i += 1
                continue
            if op is C.AT:
                if not self.at(av, p, flags):
                    return
                i += 1
                continue
            if op is C.ASSERT or op is C.ASSERT_NOT:
                d, sub = av
                q = p
                if d < 0:
                    w = sub.getwidth()[0]
                    q = p - w
                hit = None
                if q >= 0:
                    for r in self.run(list(sub), 0, q, g, flags):
                        if d > 0 or r[0] == p:
                            hit = r
                            break
                if (hit is not None) != (op is C.ASSERT):
                    return
                if hit is not None and op is C.ASSERT:
                    g = hit[1]
                i += 1
                continue
            if op is C.SUBPATTERN:
                group, addf, delf, sub = av
                f = (flags | addf) & ~delf
                for q, h in self.run(list(sub), 0, p, g, f):
                    if group is not None:
                        h = dict(h)
                        h[group] = (p, q)
                    yield from self.run(nodes, i + 1, q, h, flags)
                return
            if op is C.ATOMIC_GROUP:
                for q, h in self.run(list(av), 0, p, g, flags):
                    yield from self.run(nodes, i + 1, q, h, flags)
                    return
                return
            if op is C.BRANCH:
                for alt in av[1]:
                    for q, h in self.run(list(alt), 0, p, g, flags):
                        yield from self.run(nodes, i + 1, q, h, flags)
                return
            if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
                yield from self.repeat(op, av, nodes, i, p, g, flags)
                return
            if op is C.GROUPREF:
                if av not in g:
                    return
                a, b = g[av]
                n = b - a
                if p + n > self.end:
                    return
                if n and not bool(self.cells.s[a:b] == self.cells.s[p:p + n]):
                    return
                p += n
                i += 1
                continue
            if op is C.GROUPREF_EXISTS:
                cond, y, no = av
                sub = y if cond in g else no
                for q, h in (self.run(list(sub), 0, p, g, flags) if sub is not None else [(p, g)]):
                    yield from self.run(nodes, i + 1, q, h, flags)
                return
            raise E.Unsupported('regular expression with %s' % op)
        yield p, g

    def repeat(self, op, av, nodes, i, p, g, flags):
        lo, hi, sub = av
        sub = list(sub)
        if len(sub) == 1 and sub[0][0] in ONE:
            cls = self.one(sub[0][0], sub[0][1], flags)
            if hi is C.MAXREPEAT or hi > self.end - p:
                hi = self.end - p
            if hi < lo:
                return
            n = 0
            if op is C.MIN_REPEAT:
                while n < lo:
                    if not self.cells.isin(p + n, cls):
                        return
                    n += 1
                while True:
                    yield from self.run(nodes, i + 1, p + n, g, flags)
                    if n >= hi or not self.cells.isin(p + n, cls):
                        return
                    n += 1
            while n < hi and self.cells.isin(p + n, cls):
                n += 1
            if op is C.POSSESSIVE_REPEAT:
                if n >= lo:
                    yield from self.run(nodes, i + 1, p + n, g, flags)
                return
            while n >= lo:
                yield from self.run(nodes, i + 1, p + n, g, flags)
                n -= 1
            return

        def rep(n, q, h):
            if op is C.MIN_REPEAT and n >= lo:
                yield q, h
            if hi is C.MAXREPEAT or n < hi:
                for r, k in self.run(sub, 0, q, h, flags):
                    if r == q and n >= lo:
                        continue
                    yield from rep(n + 1, r, k)
            if op is not C.MIN_REPEAT and n >= lo:
                yield q, h
        for q, h in rep(0, p, g):
            yield from self.run(nodes, i + 1, q, h, flags)
            if op is C.POSSESSIVE_REPEAT:
                return


def prefix(nodes):
    """A literal every match begins with ('' if none), to jump to candidates."""
    out = ''
    for op, av in nodes:
        if op is C.LITERAL:
            out += chr(av)
        elif op is C.SUBPATTERN and not av[1] and not av[2]:
            sub = list(av[3])
            q = prefix(sub)
            out += q
            if len(q) != len(sub):
                break
        elif op is C.ASSERT and av[0] > 0 and not out:
            return prefix(list(av[1]))
        else:
            break
    return out


class SMatch:
    def __init__(self, rx, string, cells, pos, endpos, span, groups):
        self.re, self.string, self.pos, self.endpos = rx, string, pos, endpos
        self._c, self._g = cells, dict(groups)
        self._g[0] = span

    def _n(self, k):
        if isinstance(k, Sym):
            k = k.__index__()
        if isinstance(k, str):
            return self.re.groupindex[k]
        if not 0 <= k <= self.re.groups:
            raise IndexError('no such group')
        return k

    def _one(self, k, default=None):
        k = self._n(k)
        if k not in self._g:
            return default
        a, b = self._g[k]
        return self._c.s[a:b]

    def group(self, *ks):
        if len(ks) <= 1:
            return self._one(ks[0] if ks else 0)
        return tuple(self._one(k) for k in ks)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(k, default) for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(k, default) for n, k in self.re.groupindex.items()}

    def span(self, k=0):
        return self._g.get(self._n(k), (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    @property
    def lastindex(self):
        ks = [k for k in self._g if k]
        return max(ks, key=lambda k: (self._g[k][1], -k)) if ks else None

    def expand(self, t):
        return expand(self, t)


def expand(m, t):
    """A replacement template."""
    if isinstance(t, Seq):
        t = t.concrete()
    if not (b'\\' if isinstance(t, bytes) else '\\') in t:
        return t
    tmpl = P.parse_template(t, m.re)
    lit = '' if isinstance(t, str) else b''
    out = []
    for x in tmpl if isinstance(tmpl, list) else tmpl[1]:
        out.append(x if not isinstance(x, int) else m._one(x, lit))
    return T.join(lit, out)


class SPattern:
    """A compiled pattern that also matches symbolic text."""

    def __init__(self, rx):
        self.rx = rx
        self.pattern, self.flags = rx.pattern, rx.flags
        self.groups, self.groupindex = rx.groups, rx.groupindex
        self._tree = None

    def _nodes(self):
        if self._tree is None:
            t = P.parse(self.pattern, self.flags & ~(re.UNICODE if isinstance(self.pattern, bytes) else 0))
            self._tree = list(t)
            self._pre = '' if self.flags & re.IGNORECASE else prefix(self._tree)
        return self._tree

    def _matches(self, s, pos=0, endpos=None, mode='search'):
        """Yields the successive matches of s."""
        if s.kind != ('str' if isinstance(self.pattern, str) else 'bytes'):
            raise TypeError('cannot use a %s pattern on a %s-like object' % (('string', 'bytes') if s.kind == 'bytes' else ('bytes', 'string')))
        nodes = self._nodes()
        cells = Cells(s)
        n = len(cells)
        pos = 0 if pos is None else max(0, min(pos.__index__(), n))
        end = n if endpos is None else max(0, min(endpos.__index__(), n))
        if end < n:
            cells.load(as_seq(cells.s[:end], s.kind))
        mt = Matcher(nodes, self.flags, cells, end)
        flags = self.flags
        p, empty_at, allow = pos, None, True
        while p <= end:
            q = p
            if mode == 'search' and self._pre:
                raw = self._pre if s.kind == 'str' else self._pre.encode('latin-1')
                q = T.find(cells.s, raw, p)
                if q < 0:
                    return
            hit = None
            for r, g in mt.run(nodes, 0, q, {}, flags):
                if mode == 'full' and r != end:
                    continue
                if r == q and empty_at == q:
                    continue                # an empty match right after a match that ended here is taken; a second one is not
                hit = (r, g)
                break
            if hit is None:
                if mode != 'search':
                    return
                p = q + 1
                continue
            r, g = hit
            yield SMatch(self, s, cells, pos, end, (q, r), g)
            if r == q:
                empty_at = q
            else:
                empty_at = None
            p = r
            if r == q:
                # try a non-empty match at the same place, then move on
                empty_at = q

    def _sym(self, s):
        return isinstance(s, Seq)

    def search(self, s, pos=0, endpos=None):
        if not self._sym(s):
            return self.rx.search(s, *lim(pos, endpos))
        return next(self._matches(s, pos, endpos), None)

    def match(self, s, pos=0, endpos=None):
        if not self._sym(s):
            return self.rx.match(s, *lim(pos, endpos))
        return next(self._matches(s, pos, endpos, 'match'), None)

    def fullmatch(self, s, pos=0, endpos=None):
        if not self._sym(s):
            return self.rx.fullmatch(s, *lim(pos, endpos))
        return next(self._matches(s, pos, endpos, 'full'), None)

    def finditer(self, s, pos=0, endpos=None):
        if not self._sym(s):
            return self.rx.finditer(s, *lim(pos, endpos))
        return self._matches(s, pos, endpos)

    def findall(self, s, pos=0, endpos=None):
        if not self._sym(s):
            return self.rx.findall(s, *lim(pos, endpos))
        if self.pattern in (r'\S+', rb'\S+', r'[^\s]+', rb'[^\s]+') and not pos and endpos is None:
            return s.split()
        out = []
        lit = s.lit
        for m in self._matches(s, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m._one(1, lit))
            else:
                out.append(m.groups(lit))
        return out

    def split(self, s, maxsplit=0):
        if not self._sym(s):
            return self.rx.split(s, maxsplit)
        if self.pattern in (r'\s+', rb'\s+') and not maxsplit:
            # blank runs: the words, with empty ones where the text begins or ends with a blank
            t = s.lstrip()
            if not t:
                return [s.lit, s.lit]
            u = t.rstrip() if isinstance(t, Sym) else t.rstrip()
            same = lambda a, b: a is b or isinstance(a, Seq) and isinstance(b, Seq) and len(a) == len(b) or not isinstance(a, Seq) and a == b
            return ([] if same(t, s.new(s.items)) else [s.lit]) + u.split() + ([] if same(u, t) else [s.lit])
        out, p = [], 0
        cells = None
        for m in self._matches(s):
            if maxsplit and len(out) >= maxsplit * (1 + self.groups):
                break
            a, b = m.span()
            out.append(m._c.s[p:a])
            out.extend(m.groups())
            p = b
            cells = m._c
        src = cells.s if cells is not None else s
        out.append(src[p:])
        return out

    def subn(self, repl, s, count=0):
        if not self._sym(s) and not isinstance(repl, Sym):
            if callable(repl):
                return self._subn(repl, Seq('str' if isinstance(s, str) else 'bytes', [s]), count)
            return self.rx.subn(repl, s, count)
        return self._subn(repl, as_seq(s, 'str' if isinstance(self.pattern, str) else 'bytes'), count)

    def _subn(self, repl, s, count=0):
        out, p, n, cells = [], 0, 0, None
        for m in self._matches(s):
            if count and n >= count:
                break
            a, b = m.span()
            out.append(m._c.s[p:a])
            out.append(repl(m) if callable(repl) else expand(m, repl))
            p = b
            n += 1
            cells = m._c
        src = cells.s if cells is not None else s
        out.append(src[p:])
        return T.join(s.lit, out), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def scanner(self, *a):
        raise E.Unsupported('regular expression scanner')

    def __repr__(self):
        return repr(self.rx)

    def __hash__(self):
        return hash(self.rx)

    def __eq__(self, o):
        return isinstance(o, SPattern) and self.rx == o.rx


def lim(pos, endpos):
    pos = pos.__index__()
    return (pos,) if endpos is None else (pos, endpos.__index__())


def as_seq(x, kind):
    return x if isinstance(x, Seq) else Seq(kind, [x])


def s_compile(pattern, flags=0):
    if isinstance(pattern, SPattern):
        return pattern
    if isinstance(pattern, re.Pattern):
        return SPattern(pattern)
    if isinstance(pattern, Seq):
        pattern = pattern.concrete()
    return SPattern(re.compile(pattern, flags))


def fn(name):
    def g(pattern, *a, flags=0, **k):
        npos = {'sub': 3, 'subn': 3, 'split': 2}.get(name, 1)
        if name in ('search', 'match', 'fullmatch', 'finditer', 'findall') and len(a) == 2:
            a, flags = a[:1], a[1]
        elif name in ('sub', 'subn', 'split') and len(a) > npos:
            a, flags = a[:npos], a[npos]
        if 'string' in k:
            k = dict(k)
            a = a + (k.pop('string'),)
        return getattr(s_compile(pattern, flags), name)(*a, **k)
    return g


def s_escape(p):
    return re.escape(p.concrete() if isinstance(p, Seq) else p)


FUNCS = [(re.compile, s_compile), (re.escape, s_escape)] + [(getattr(re, n), fn(n)) for n in (
    'search', 'match', 'fullmatch', 'finditer', 'findall', 'split', 'sub', 'subn')]

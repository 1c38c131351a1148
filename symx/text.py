"""Symbolic text and bytes: sequences with concrete structure and symbolic contents.

A Seq is a list of items: literal chunks, symbolic characters (Ch), multi-byte encoded characters (UCh, bytes
only), formatted numbers (Tok: the text of a symbolic number in a field), binary floats (Dbl, bytes only).
"""
import codecs
import re
import struct
import unicodedata
from fractions import Fraction
import z3
from . import engine as E
from .values import (Sym, SBool, SInt, SFloat, mkbool, mkint, zb, rnd, rnd_single, round_int, trunc, conc_float,
                     conc_int, nice_float, is_sym, _is_int, _is_float, int_of, model_value)

WS = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000'
BWS = ' \t\n\r\x0b\x0c'
LB = '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'
BLB = '\n\r'


class Ch:
    """A symbolic character or byte with static bounds lo..hi on its code."""
    __slots__ = ('z', 'lo', 'hi', 'excl')

    def __init__(self, z, lo, hi, excl=frozenset()):
        self.z, self.lo, self.hi, self.excl = z, lo, hi, excl

    def can(self, code):
        return self.lo <= code <= self.hi and code not in self.excl

    def eqc(self, code):
        return (self.z == code) if self.can(code) else z3.BoolVal(False)

    def is_in(self, chars):
        cs = [ord(c) for c in chars if self.can(ord(c))]
        return z3.Or(*[self.z == c for c in cs]) if cs else z3.BoolVal(False)


class TokCh(Ch):
    """Character j of a narrow integer token; the characters of one token in a row become the token again."""
    __slots__ = ('tok', 'j')

    def __init__(self, z, lo, hi, tok, j):
        Ch.__init__(self, z, lo, hi)
        self.tok, self.j = tok, j


def remerge(items):
    out = []
    for it in items:
        out.append(it)
        if isinstance(it, TokCh) and it.j == it.tok.w - 1 and len(out) >= it.tok.w:
            last = out[-it.tok.w:]
            if all(isinstance(x, TokCh) and x.tok is it.tok and x.j == j for j, x in enumerate(last)):
                out[-it.tok.w:] = [it.tok]
    return out


class UCh:
    """The utf-8 encoding (k bytes) of a symbolic character."""
    __slots__ = ('ch', 'k')

    def __init__(self, ch, k):
        self.ch, self.k = ch, k


class Dbl:
    """The IEEE encoding of a number: size 4 or 8 bytes, little ('<') or big ('>') endian.  Single precision
    stores v rounded (rnd_single)."""
    __slots__ = ('v', 'size', 'en', 'bz', 'key')

    def __init__(self, v, size, en):
        self.v, self.size, self.en = v, size, en
        e = E.eng()
        self.key = 'dbl%d' % len(e.dbls)
        self.bz = None
        e.dbls.append(self)

    def bytez(self):
        if self.bz is None:
            e = E.eng()
            k = None
            if isinstance(self.v, SFloat):
                # equal numbers have equal bytes
                k = ('bz', e.keep(self.v.z), self.size, self.en)
                if k in e.memo:
                    self.bz = e.memo[k]
                    return self.bz
            self.bz = [z3.Int('%s_%d' % (self.key, j)) for j in range(self.size)]
            if k is not None:
                e.memo[k] = self.bz
            for b in self.bz:
                e.add(z3.And(b >= 0, b <= 255))
            # exponents in the middle range: the bytes denote an ordinary finite number
            top = self.bz[-1] if self.en == '<' else self.bz[0]
            e.add(z3.Or(z3.And(top >= 1, top <= 126), z3.And(top >= 129, top <= 254)))
        return self.bz


class Tok:
    """The text of number v: conv 'i' (%i), 'e' (%.<prec>e), 'r' (repr of a float).
    w: total field width, right-aligned and padded with blanks (the number fits); None: no padding and a
    length not determined yet (tight).  mp/mn: exponent marks for a non-negative / negative exponent."""
    __slots__ = ('conv', 'v', 'prec', 'w', 'mp', 'mn', 'tight')

    def __init__(self, conv, v, prec=None, w=None, mp='e', mn='e', tight=False):
        self.conv, self.v, self.prec, self.w, self.mp, self.mn, self.tight = conv, v, prec, w, mp, mn, tight

    def copy(self, **kw):
        t = Tok(self.conv, self.v, self.prec, self.w, self.mp, self.mn, self.tight)
        for k, x in kw.items():
            setattr(t, k, x)
        return t

    # -- lengths
    def maxlen(self):
        if self.conv == 'i':
            if self.v.lo is None or self.v.hi is None:
                return None
            return max(len(str(self.v.lo)), len(str(self.v.hi)))
        if self.conv == 'e':
            base = self.prec + (2 if self.prec else 1) + 4
            return base + (0 if self.v.nonneg else 1) + (0 if self.v.small else 1)
        return None

    def minlen(self):
        if self.conv == 'i':
            if self.v.lo is not None and self.v.lo > 0:
                return len(str(self.v.lo))
            return 1
        if self.conv == 'e':
            return self.prec + (2 if self.prec else 1) + 4
        return 1

    def len_le(self, k):
        """Condition: the number's text has at most k characters."""
        m = self.maxlen()
        if m is not None and m <= k:
            return z3.BoolVal(True)
        if k < self.minlen():
            return z3.BoolVal(False)
        if self.conv == 'i':
            z = self.v.z
            lo = -(10 ** (k - 1)) if k >= 2 else 0
            return z3.And(z < 10 ** k, z > lo) if k >= 2 else z3.And(z >= 0, z < 10)
        if self.conv == 'e':
            x = k - self.minlen()
            n = neg(self.v)
            e3 = exp3(self.v, self.prec)
            if x >= 2:
                return z3.BoolVal(True)
            if x == 1:
                return z3.Not(z3.And(n, e3))
            return z3.And(z3.Not(n), z3.Not(e3))
        raise E.Unsupported('length of repr text')

    def full(self):
        """Condition: no padding blank on the left."""
        if self.w is None or self.tight:
            return z3.BoolVal(True)
        return z3.Not(self.len_le(self.w - 1))

    def text_value(self):
        """The float value of the text."""
        if self.conv == 'i':
            return SFloat.of_int(self.v)
        if self.conv == 'e':
            return rnd(self.v, self.prec)
        return self.v

    def charset(self):
        s = '0123456789-'
        if self.conv == 'e':
            s += '.+' + self.mp + self.mn
        if self.conv == 'r':
            s += '.+e'
        if self.w is not None and not self.tight:
            s += ' '
        return s


def neg(v):
    return z3.BoolVal(False) if v.nonneg else v.z < 0


def exp3(v, prec):
    if v.small:
        return z3.BoolVal(False)
    r = v.z
    hi = Fraction(10) ** 100 * (1 - Fraction(1, 2 * 10 ** (prec + 1)))
    lo = Fraction(1, 10 ** 99) * (1 - Fraction(1, 2 * 10 ** (prec + 1)))
    H, L = z3.RealVal(str(hi)), z3.RealVal(str(lo))
    return z3.Or(r >= H, r <= -H, z3.And(r != 0, r < L, r > -L))


def expneg(v, prec):
    """Condition: the exponent in the text is negative."""
    L = z3.RealVal(str(1 - Fraction(1, 2 * 10 ** (prec + 1))))
    return z3.And(v.z != 0, v.z < L, v.z > -L)


def width(it):
    if isinstance(it, (str, bytes)):
        return len(it)
    if isinstance(it, Ch):
        return 1
    if isinstance(it, UCh):
        return it.k
    if isinstance(it, Dbl):
        return it.size
    return it.w


def fix_tok(t):
    """Give a tight token of undetermined length its concrete length on this path."""
    if t.w is not None:
        return t
    e = E.eng()
    if t.conv == 'r':
        return conc_tok(t)
    lo, hi = t.minlen(), t.maxlen()
    k = lo
    while True:
        if hi is not None and k >= hi:
            break
        if e.decide(t.len_le(k)):
            break
        k += 1
        if k > 60:
            e.dead = E.Budget('integer text longer than 60 digits')
            raise e.dead
    return t.copy(w=k, tight=True)


def conc_tok(t):
    """The concrete text of a token (the number is narrowed to one value on this path)."""
    if t.conv == 'i':
        e = E.eng()
        v = conc_int_narrow(t.v)
        s = str(v)
    elif t.conv == 'e':
        x = conc_float(t.v)
        s = '%.*e' % (t.prec, x)
        m = t.mn if 'e-' in s else t.mp
        s = s.replace('e', m)
    else:
        s = repr(conc_float(t.v))
    if t.w is not None and not t.tight:
        s = s.rjust(t.w)
    return s


WIDE = (9876543210, 987654321, 98765432, 9876543, 98765, 12345, 4321, 987, 98)


def wide_value(e, z):
    """A value of z with many digits, if it has one."""
    s = z3.Solver()
    s.set('timeout', 3000)
    s.add(*e.cone(E.vars_of(z)))
    for v in WIDE:
        if s.check(z == v) == z3.sat:
            return v
    return None


def conc_int_narrow(x, wide=False):
    """One value of an integer on this path (the path is marked as narrowed); wide: one with many digits."""
    e = E.eng()
    z = z3.simplify(x.z)
    if z3.is_int_value(z):
        return z.as_long()
    key = ('cin', e.keep(z))
    if key in e.memo:
        return e.memo[key]
    v = e.value(lambda: wide_value(e, z)) if wide else None
    if v is None:
        v = model_value(z)
    if v is None:
        e.dead = E.Infeasible('no value')
        raise e.dead
    c = z3.simplify(z == v)
    if e.sat(z3.Not(c)) != 'unsat':
        e.flag('integer narrowed to %d' % v)
        e.add(c)
    e.memo[key] = v
    return v


class Seq(Sym):
    __slots__ = ('kind', 'items', '_off')

    def __init__(self, kind, items):
        self.kind = kind
        if any(type(it) is TokCh for it in items):
            items = remerge(items)
        out = []
        typ = str if kind == 'str' else bytes
        for it in items:
            if isinstance(it, typ):
                if not it:
                    continue
                if out and isinstance(out[-1], typ):
                    out[-1] = out[-1] + it
                    continue
            out.append(it)
        self.items = out
        self._off = None

    # ---- basics
    @property
    def lit(self):
        return '' if self.kind == 'str' else b''

    def new(self, items):
        s = Seq(self.kind, items)
        if not s.items:
            return self.lit
        if len(s.items) == 1 and isinstance(s.items[0], (str, bytes)):
            return s.items[0]
        return s

    def has_open(self):
        return any(isinstance(i, Tok) and i.w is None for i in self.items)

    def fixed(self):
        """Same text with every token length concrete."""
        if self.has_open():
            return Seq(self.kind, [fix_tok(i) if isinstance(i, Tok) else i for i in self.items])
        return self

    def offsets(self):
        if self._off is None:
            o, off = 0, []
            for it in self.items:
                off.append(o)
                o += width(it)
            off.append(o)
            self._off = off
        return self._off

    def __len__(self):
        if self.has_open():
            return self.fixed().offsets()[-1]
        return self.offsets()[-1]

    def __bool__(self):
        return bool(self.items)

    def concrete(self):
        """The concrete text on this path; narrows every symbolic part."""
        e = E.eng()
        out = []
        for it in self.items:
            if isinstance(it, (str, bytes)):
                out.append(it)
            elif isinstance(it, Tok):
                s = conc_tok(it)
                out.append(s if self.kind == 'str' else s.encode())
            elif isinstance(it, Ch):
                c = conc_int_narrow(SInt(it.z))
                out.append(chr(c) if self.kind == 'str' else bytes([c]))
            elif isinstance(it, UCh):
                out.append(chr(conc_int_narrow(SInt(it.ch.z))).encode())
            elif isinstance(it, Dbl):
                v = it.v
                v = conc_float(v) if isinstance(v, SFloat) else float(v)
                out.append(struct.pack(it.en + ('d' if it.size == 8 else 'f'), v))
        return self.lit.join(out)

    __str__ = lambda self: self.concrete() if self.kind == 'str' else repr(self.concrete())

    def __repr__(self):
        return '<Seq %s>' % ''.join(i if isinstance(i, str) else repr(i) if isinstance(i, bytes) else
                                    '{%s:%s}' % (type(i).__name__, getattr(i, 'w', '')) for i in self.items)

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __hash__(self):
        return hash(self.concrete())

    def __bytes__(self):
        return self.concrete()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __add__(self, o):
        if isinstance(o, Seq) and o.kind == self.kind:
            return self.new(self.items + o.items)
        if isinstance(o, (str if self.kind == 'str' else bytes)):
            return self.new(self.items + [o])
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str if self.kind == 'str' else bytes)):
            return self.new([o] + self.items)
        return NotImplemented

    def __mul__(self, n):
        if isinstance(n, Sym):
            n = n.__index__()
        return self.new(self.items * max(int(n), 0))
    __rmul__ = __mul__

    # ---- cells
    def split_at(self, pos):
        """(left items, right items); a token is cut at pos (its blank part may be cut off)."""
        if pos <= 0:
            return [], self.items
        off = self.offsets()
        if pos >= off[-1]:
            return self.items, []
        import bisect
        k = bisect.bisect_right(off, pos) - 1
        if off[k] == pos:
            return self.items[:k], self.items[k:]
        it = self.items[k]
        a, b = cut(it, pos - off[k], self.kind)
        return self.items[:k] + a, b + self.items[k + 1:]

    def __getitem__(self, ix):
        s = self.fixed()
        n = s.offsets()[-1]
        if isinstance(ix, slice):
            st, sp, step = ix.start, ix.stop, ix.step
            st = st.__index__() if isinstance(st, Sym) else st
            sp = sp.__index__() if isinstance(sp, Sym) else sp
            a, b, step = slice(st, sp, step).indices(n)
            if step != 1:
                idx = range(a, b, step)
                cells = [s[i:i + 1] for i in idx]
                return join(self.lit, cells)
            if b <= a:
                return self.lit
            _, right = s.split_at(a)
            mid, _ = Seq(self.kind, right).split_at(b - a)
            return self.new(mid)
        ix = ix.__index__()
        if ix < 0:
            ix += n
        if not 0 <= ix < n:
            raise IndexError('string index out of range' if self.kind == 'str' else 'index out of range')
        c = s[ix:ix + 1]
        if self.kind == 'bytes':
            if isinstance(c, bytes):
                return c[0]
            it = c.items[0]
            if isinstance(it, Ch):
                return SInt(it.z, it.lo, it.hi)
            if isinstance(it, ByteOf):
                return SInt(it.d.bytez()[it.j], 0, 255)
            return c.concrete()[0]
        return c

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __contains__(self, o):
        return contains(o, self)

    # ---- comparison
    def __eq__(self, o):
        if isinstance(o, (str if self.kind == 'str' else bytes)):
            o = Seq(self.kind, [o])
        if not isinstance(o, Seq) or o.kind != self.kind:
            return False
        return seq_eq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else not r

    def __lt__(self, o):
        return self.concrete() < (o.concrete() if isinstance(o, Seq) else o)

    def __gt__(self, o):
        return self.concrete() > (o.concrete() if isinstance(o, Seq) else o)

    def __le__(self, o):
        return self.concrete() <= (o.concrete() if isinstance(o, Seq) else o)

    def __ge__(self, o):
        return self.concrete() >= (o.concrete() if isinstance(o, Seq) else o)

    # ---- whitespace
    def _stripset(self, chars):
        if chars is None:
            return WS if self.kind == 'str' else BWS
        if isinstance(chars, Seq):
            chars = chars.concrete()
        return chars if isinstance(chars, str) else chars.decode('latin-1')

    def lstrip(self, chars=None):
        cs = self._stripset(chars)
        items = list(self.items)
        e = E.eng()
        while items:
            it = items[0]
            if isinstance(it, (str, bytes)):
                t = it.lstrip(cs if self.kind == 'str' else cs.encode('latin-1'))
                if t:
                    items[0] = t
                    break
                items.pop(0)
            elif isinstance(it, Ch):
                if not e.decide(it.is_in(cs)):
                    break
                items.pop(0)
            elif isinstance(it, Tok):
                if not set(it.charset()) & set(cs):
                    break
                if not (set(it.charset()) - {' '}) & set(cs):
                    items[0] = it.copy(w=None, tight=True) if not it.tight and it.w is not None else it
                    break
                items[0:1] = [self._enc(conc_tok(it))]
            elif isinstance(it, UCh):
                break
            elif isinstance(it, Dbl):
                b = it.bytez()[0]
                if not e.decide(z3.Or(*[b == ord(c) for c in cs if ord(c) < 256])):
                    break
                items[0:1] = [ByteOf(it, j) for j in range(1, it.size)]
            else:
                if not e.decide(z3.Or(*[it.d.bytez()[it.j] == ord(c) for c in cs if ord(c) < 256])):
                    break
                items.pop(0)
        return self.new(items)

    def rstrip(self, chars=None):
        cs = self._stripset(chars)
        items = list(self.items)
        e = E.eng()
        while items:
            it = items[-1]
            if isinstance(it, (str, bytes)):
                t = it.rstrip(cs if self.kind == 'str' else cs.encode('latin-1'))
                if t:
                    items[-1] = t
                    break
                items.pop()
            elif isinstance(it, Ch):
                if not e.decide(it.is_in(cs)):
                    break
                items.pop()
            elif isinstance(it, Tok):
                if not (set(it.charset()) - {' '}) & set(cs):
                    break
                items[-1:] = [self._enc(conc_tok(it))]
            elif isinstance(it, UCh):
                break
            elif isinstance(it, Dbl):
                b = it.bytez()[-1]
                if not e.decide(z3.Or(*[b == ord(c) for c in cs if ord(c) < 256])):
                    break
                items[-1:] = [ByteOf(it, j) for j in range(it.size - 1)]
            else:
                if not e.decide(z3.Or(*[it.d.bytez()[it.j] == ord(c) for c in cs if ord(c) < 256])):
                    break
                items.pop()
        return self.new(items)

    def _enc(self, s):
        return s if self.kind == 'str' else s.encode()

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars if not isinstance(r, (str, bytes)) or chars is None else self._cs(chars))

    def _cs(self, chars):
        return chars.concrete() if isinstance(chars, Seq) else chars

    def isspace(self):
        if not self.items:
            return False
        r = self.strip()
        return not r

    def split(self, sep=None, maxsplit=-1):
        if sep is not None:
            return self._split_sep(sep, maxsplit)
        e = E.eng()
        ws = self._stripset(None)
        words, cur = [], []

        def flush():
            if cur:
                words.append(self.new(list(cur)))
                cur.clear()
        rest = None
        for n, it in enumerate(self.items):
            if maxsplit >= 0 and len(words) >= maxsplit and not cur:
                tail = self.new(self.items[n:])
                tail = tail.lstrip()
                if tail:
                    words.append(tail)
                return words
            if isinstance(it, (str, bytes)):
                s = it if isinstance(it, str) else it.decode('latin-1')
                pos = 0
                for m in re.finditer('[' + re.escape(ws) + ']+|[^' + re.escape(ws) + ']+', s):
                    g = m.group(0)
                    if g[0] in ws:
                        flush()
                    else:
                        cur.append(g if self.kind == 'str' else g.encode('latin-1'))
            elif isinstance(it, Ch):
                if e.decide(it.is_in(ws)):
                    flush()
                else:
                    cur.append(it)
            elif isinstance(it, Tok):
                if it.tight or it.w is None:
                    cur.append(it)
                else:
                    if cur and not e.decide(it.full()):
                        flush()
                    if cur:
                        cur.append(it.copy(tight=True))
                    else:
                        cur.append(it.copy(w=None, tight=True))
            elif isinstance(it, UCh):
                cur.append(it)
            else:
                return self.concrete().split(None, maxsplit)
        flush()
        return words

    def _split_sep(self, sep, maxsplit):
        if isinstance(sep, Seq):
            sep = sep.concrete()
        out, s = [], self
        while maxsplit < 0 or len(out) < maxsplit:
            i = find(s, sep, 0)
            if i < 0:
                break
            out.append(s[:i])
            s = s[i + len(sep):]
            if isinstance(s, (str, bytes)):
                s = Seq(self.kind, [s])
        out.append(s.new(s.items))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is not None:
            out, s = [], self
            while len(out) < maxsplit and isinstance(s, Seq):
                i = s.rfind(sep)
                if i < 0:
                    break
                out.append(s[i + len(sep):])
                s = s[:i]
            return [s] + out[::-1]
        ws = self.split()
        if len(ws) <= maxsplit:
            return ws
        return self.concrete().rsplit(sep, maxsplit)

    def partition(self, sep):
        i = find(self, sep, 0)
        if i < 0:
            return (self, self.lit, self.lit)
        return (self[:i], sep, self[i + len(sep):])

    # ---- lines
    def splitlines(self, keepends=False):
        e = E.eng()
        lb = LB if self.kind == 'str' else BLB
        lines, cur = [], []
        cr = False          # previous cell was '\r' ending a line whose '\n' may follow

        def end(term):
            lines.append(list(cur) + ([term] if keepends and term else []))
            cur.clear()
        items = list(self.items)
        k = 0
        while k < len(items):
            it = items[k]
            if isinstance(it, (str, bytes)):
                s = it if isinstance(it, str) else it.decode('latin-1')
                pos = 0
                if cr and s[:1] == '\n':
                    if keepends:
                        lines[-1].append(self._e1('\n'))
                    pos = 1
                cr = False
                i = pos
                start = pos
                L = len(s)
                while i < L:
                    c = s[i]
                    if c in lb:
                        t = c
                        if c == '\r' and i + 1 < L and s[i + 1] == '\n':
                            t = '\r\n'
                        if i > start:
                            cur.append(self._e1(s[start:i]))
                        end(self._e1(t))
                        if t == '\r' and i + 1 == L:
                            cr = True
                        i += len(t)
                        start = i
                    else:
                        i += 1
                if start < L:
                    cur.append(self._e1(s[start:]))
            elif isinstance(it, Ch):
                if e.decide(it.is_in(lb)):
                    if cr and e.decide(it.eqc(10)):
                        if keepends:
                            lines[-1].append(it)
                        cr = False
                        k += 1
                        continue
                    end(it)
                    cr = it.can(13) and e.decide(it.eqc(13))
                else:
                    cr = False
                    cur.append(it)
            elif isinstance(it, Dbl):
                if self.kind == 'str':
                    raise E.Unsupported('binary number in text')
                # all payload bytes up to the next non-Dbl item
                j = k
                while j < len(items) and isinstance(items[j], Dbl):
                    j += 1
                any_lb = z3.Or(*[z3.Or(b == 10, b == 13) for d in items[k:j] for b in d.bytez()])
                if not e.decide(any_lb, prefer=False):
                    cur.extend(items[k:j])
                    cr = False
                    k = j
                    continue
                # expose the bytes; at most two line breaks are explored
                items[k:j] = [ByteOf(d, q) for d in items[k:j] for q in range(d.size)]
                continue
            elif isinstance(it, ByteOf):
                b = it.d.bytez()[it.j]
                isb = z3.Or(b == 10, b == 13)
                brk = e.memo.get('brk')
                if brk is not None and e.memo.get(('isb', isb.get_id())) is None and \
                        not (k > 0 and isinstance(items[k - 1], ByteOf) and (items[k - 1].d, items[k - 1].j) == brk):
                    # one line break, or a pair of adjacent ones, is explored per path
                    e.memo[('isb', e.keep(isb))] = isb
                    e.assume(z3.Not(isb))
                if e.decide(isb, prefer=False):
                    if brk is None:
                        e.memo['brk'] = (it.d, it.j)
                    e.memo[('isb', e.keep(isb))] = isb
                    n10 = e.decide(b == 10)
                    if n10 and cr:
                        if keepends:
                            lines[-1].append(it)
                        cr = False
                    else:
                        end(it)
                        cr = not n10
                else:
                    cr = False
                    cur.append(it)
            else:
                cr = False
                cur.append(it)
            k += 1
        if cur:
            lines.append(list(cur))
        return [self.new(regroup(l)) for l in lines]

    def _e1(self, s):
        return s if self.kind == 'str' else s.encode('latin-1')

    # ---- searching
    def find(self, sub, start=None, end=None):
        s, start = self._range(start, end)
        return find(s, sub, start)

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def _range(self, start, end):
        """(the text up to end, start) as str.find takes them."""
        s = self
        if end is not None:
            s = s[:end]
            if isinstance(s, (str, bytes)):
                s = Seq(self.kind, [s])
        start = 0 if start is None else start.__index__()
        if start < 0:
            start = max(0, start + len(self))
        return s, start

    def rfind(self, sub, start=None, end=None):
        s, i = self._range(start, end)
        last = -1
        while True:
            i = find(s, sub, i)
            if i < 0:
                return last
            last, i = i, i + 1

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        s, i = self._range(start, end)
        n = 0
        while True:
            i = find(s, sub, i)
            if i < 0:
                return n
            n, i = n + 1, i + len(sub)

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(x, start, end) for x in p)
        s, start = self._range(start, end)
        return s[start:start + len(p)] == p

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(self.endswith(x, start, end) for x in p)
        if start is not None or end is not None:
            s, start = self._range(start, end)
            s = s[start:]
            return s.endswith(p)
        if len(p) == 0:
            return True
        return self[-len(p):] == p if len(self) >= len(p) else False

    def removeprefix(self, p):
        return self[len(p):] if len(p) and self.startswith(p) else self

    def removesuffix(self, p):
        return self[:-len(p)] if len(p) and self.endswith(p) else self

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return (self.lit, self.lit, self)
        return (self[:i], sep, self[i + len(sep):])

    def center(self, n, fill=None):
        fill = fill if fill is not None else (' ' if self.kind == 'str' else b' ')
        s = self.fixed()
        k = len(s)
        n = n.__index__()
        if n <= k:
            return s.new(s.items)
        d = n - k
        left = d // 2 + (d & n & 1)
        return fill * left + s + fill * (d - left)

    def translate(self, table, delete=b''):
        if self.kind == 'bytes':
            r = self
            for c in (delete.concrete() if isinstance(delete, Seq) else delete):
                r = r.replace(bytes([c]), b'')
                if not isinstance(r, Seq):
                    return r.translate(table)
            if table is None:
                return r
            m = {i: bytes([t]) for i, t in enumerate(table) if i != t}
        else:
            r, m = self, {}
            for c in table:
                v = table[c]
                m[c if isinstance(c, int) else ord(c)] = '' if v is None else chr(v) if isinstance(v, int) else v
        e = E.eng()
        out = []
        for it in r.items:
            if isinstance(it, str):
                out.append(it.translate(table))
            elif isinstance(it, bytes):
                out.append(it.translate(table))
            elif isinstance(it, Ch):
                for c, v in sorted(m.items()):
                    if it.can(c) and e.decide(it.eqc(c)):
                        out.append(v)
                        break
                else:
                    out.append(it)
            elif isinstance(it, Tok):
                hit = [c for c in it.charset() if ord(c) in m]
                s = Seq(r.kind, [it])
                if len(hit) == 1:
                    c = hit[0]
                    s = s.replace(self._e1(c), m[ord(c)])
                    out.extend(s.items if isinstance(s, Seq) else [s])
                elif hit:
                    out.append(self._e1(conc_tok(it)).translate(table))
                else:
                    out.append(it)
            else:
                return self.concrete().translate(table, *([delete] if delete else []))
        return self.new(out)

    def _each(self, pred, cond, empty=False):
        """isdigit and the like over ASCII: pred on literal text, cond on a character's code."""
        if not self.items:
            return empty
        zs = []
        for it in self.items:
            if isinstance(it, (str, bytes)):
                if not pred(it):
                    return False
            elif isinstance(it, Ch) and (it.hi < 128 or self.kind == 'bytes'):
                zs.append(cond(it.z))
            elif isinstance(it, Tok):
                s = conc_tok(it)
                if not pred(self._e1(s)):
                    return False
            else:
                return pred(self.concrete())
        return mkbool(z3.And(*zs)) if zs else True

    def isdigit(self):
        if len(self.items) == 1 and isinstance(self.items[0], Tok):
            t = self.items[0]
            if t.conv == 'i' and t.tight and isinstance(t.v, SInt):
                return t.v >= 0
        return self._each(lambda s: s.isdigit(), lambda z: z3.And(z >= 48, z <= 57))
    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._each(lambda s: s.isalpha(), lambda z: z3.Or(z3.And(z >= 65, z <= 90), z3.And(z >= 97, z <= 122)))

    def isalnum(self):
        return self._each(lambda s: s.isalnum(), lambda z: z3.Or(z3.And(z >= 48, z <= 57), z3.And(z >= 65, z <= 90),
                                                                 z3.And(z >= 97, z <= 122)))

    def isascii(self):
        zs = []
        for it in self.items:
            if isinstance(it, (str, bytes)):
                if not it.isascii():
                    return False
            elif isinstance(it, Ch):
                if it.hi > 127:
                    zs.append(it.z < 128)
            elif not isinstance(it, Tok):
                return self.concrete().isascii()
        return mkbool(z3.And(*zs)) if zs else True

    def isprintable(self):
        return self._each(lambda s: s.isprintable(), lambda z: z3.And(z >= 32, z <= 126), True)

    # ---- transformation
    def replace(self, old, new, count=-1):
        old, new = (x.concrete() if isinstance(x, Seq) else x for x in (old, new))
        if count >= 0:
            return self.concrete().replace(old, new, count)
        if not len(old):
            return self.concrete().replace(old, new)
        o = old if isinstance(old, str) else old.decode('latin-1')
        w = new if isinstance(new, str) else new.decode('latin-1')
        out = []
        e = E.eng()
        if len(o) > 1 and any(not isinstance(i, (str, bytes, Tok)) for i in self.items):
            # multi-character pattern over symbolic characters: search
            r, s, i = [], self, 0
            while True:
                i = find(s, old, 0)
                if i < 0:
                    break
                r.append(s[:i])
                r.append(new)
                s = s[i + len(old):]
                if isinstance(s, (str, bytes)):
                    s = Seq(self.kind, [s])
            r.append(s)
            return join(self.lit, r)
        for it in self.items:
            if isinstance(it, (str, bytes)):
                out.append(it.replace(old, new))
            elif isinstance(it, Tok):
                cs = set(it.charset())
                if not set(o) <= cs:
                    out.append(it)
                elif it.conv == 'e' and len(o) == 1 and o.isalpha() and len(w) == 1:
                    out.append(it.copy(mp=w if it.mp == o else it.mp, mn=w if it.mn == o else it.mn))
                elif it.conv == 'e' and len(o) == 2 and o[0].isalpha() and len(w) == 2 and w[1] == o[1] and o[1] in '+-':
                    if o[1] == '+':
                        out.append(it.copy(mp=w[0] if it.mp == o[0] else it.mp))
                    else:
                        out.append(it.copy(mn=w[0] if it.mn == o[0] else it.mn))
                elif o == ' ' and w == '':
                    out.append(it.copy(w=None, tight=True) if not it.tight else it)
                else:
                    t = conc_tok(it).replace(o, w)
                    out.append(self._enc(t))
            elif isinstance(it, Ch):
                if it.can(ord(o)) and e.decide(it.eqc(ord(o))):
                    out.append(new)
                else:
                    out.append(it)
            else:
                out.append(it)
        return self.new(out)

    def _map(self, lo, hi, d, f):
        out = []
        for it in self.items:
            if isinstance(it, (str, bytes)):
                out.append(f(it))
            elif isinstance(it, Tok):
                out.append(it.copy(mp=f(it.mp), mn=f(it.mn)))
            elif isinstance(it, Ch):
                if it.hi > 127 and self.kind == 'str':
                    out.append(map_char(it, f))
                elif it.hi < lo or it.lo > hi:
                    out.append(it)
                else:
                    out.append(Ch(z3.If(z3.And(it.z >= lo, it.z <= hi), it.z + d, it.z), min(it.lo, it.lo + d, lo + d),
                                  max(it.hi, hi + d)))
            else:
                return f(self.concrete())
        return self.new(out)

    def lower(self):
        return self._map(65, 90, 32, lambda s: s.lower())

    def upper(self):
        return self._map(97, 122, -32, lambda s: s.upper())

    def casefold(self):
        return self._map(65, 90, 32, lambda s: s.casefold() if isinstance(s, str) else s.lower())

    def title(self):
        return self.concrete().title()

    def capitalize(self):
        return self[:1].upper() + self[1:].lower()

    def swapcase(self):
        return self.concrete().swapcase()

    def ljust(self, n, fill=None):
        fill = fill if fill is not None else (' ' if self.kind == 'str' else b' ')
        k = len(self)
        s = self.fixed()
        return s + fill * (n.__index__() - k) if n > k else s.new(s.items)

    def rjust(self, n, fill=None):
        fill = fill if fill is not None else (' ' if self.kind == 'str' else b' ')
        s = self.fixed()
        k = len(s)
        if n > k:
            return fill * (n.__index__() - k) + s
        return s.new(s.items)

    def zfill(self, n):
        k = len(self)
        s = self.fixed()
        n = n.__index__()
        if n <= k:
            return s.new(s.items)
        zero = '0' if self.kind == 'str' else b'0'
        for sign in '+-':
            if s.startswith(self._e1(sign)):
                return self._e1(sign) + zero * (n - k) + s[1:]
        return zero * (n - k) + s

    def expandtabs(self, n=8):
        return self if all(isinstance(i, Tok) or isinstance(i, (str, bytes)) and not ('\t' if self.kind == 'str' else b'\t') in i
                           for i in self.items) else self.concrete().expandtabs(n)

    def join(self, seqs):
        return join(self, list(seqs))

    def encode(self, encoding='utf-8', errors='strict'):
        enc = norm_enc(encoding)
        if enc == 'utf-8-sig':
            return join(b'', [b'\xef\xbb\xbf', self.encode('utf-8', errors)])
        e = E.eng()
        if enc not in ('utf-8', 'ascii', 'latin-1'):
            return self.concrete().encode(encoding, errors)
        out = []
        for it in self.items:
            if isinstance(it, str):
                out.append(it.encode(encoding, errors))
            elif isinstance(it, Tok):
                out.append(it)
            elif isinstance(it, Ch):
                if it.hi < 128 or e.decide(it.z < 128):
                    out.append(it if it.hi < 128 else Ch(it.z, it.lo, 127, it.excl))
                elif enc == 'utf-8':
                    if it.hi < 0x800 or (it.lo < 0x800 and e.decide(it.z < 0x800)):
                        k = 2
                    elif it.hi < 0x10000 or (it.lo < 0x10000 and e.decide(it.z < 0x10000)):
                        k = 3
                    else:
                        k = 4
                    out.append(UCh(it, k))
                elif enc == 'latin-1' and (it.hi < 256 or e.decide(it.z < 256)):
                    out.append(Ch(it.z, it.lo, min(it.hi, 255), it.excl))
                elif errors == 'ignore':
                    pass
                elif errors == 'replace':
                    out.append(b'?')
                else:
                    t = chr(conc_int_narrow(SInt(it.z)))
                    out.append(t.encode(encoding, errors))
            else:
                raise E.Unsupported('encode')
        b = Seq('bytes', out)
        return b.new(b.items)

    def decode(self, encoding='utf-8', errors='strict'):
        enc = norm_enc(encoding)
        if enc == 'utf-8-sig':
            b = self[3:] if self[:3] == b'\xef\xbb\xbf' else self
            return b.decode('utf-8', errors)
        if enc not in ('utf-8', 'ascii', 'latin-1'):
            return self.concrete().decode(encoding, errors)
        if any(isinstance(i, (Dbl, ByteOf)) for i in self.items):
            return self._decode_payload(encoding, errors)
        return decode_items(self.items, enc, encoding, errors)

    def _decode_payload(self, encoding, errors):
        return self.concrete().decode(encoding, errors)

    def tobytes(self):
        return self

    # anything else: on the concrete text
    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(str if self.kind == 'str' else bytes, name):
            raise AttributeError(name)
        return getattr(self.concrete(), name)


# lead bytes of utf-8 and the continuation bytes each takes
UTF8 = [(0xC2, 0xDF, [(0x80, 0xBF)]), (0xE0, 0xE0, [(0xA0, 0xBF), (0x80, 0xBF)]), (0xE1, 0xEC, [(0x80, 0xBF)] * 2), (0xED, 0xED, [(0x80, 0x9F), (0x80, 0xBF)]),
        (0xEE, 0xEF, [(0x80, 0xBF)] * 2), (0xF0, 0xF0, [(0x90, 0xBF)] + [(0x80, 0xBF)] * 2), (0xF1, 0xF3, [(0x80, 0xBF)] * 3), (0xF4, 0xF4, [(0x80, 0x8F)] + [(0x80, 0xBF)] * 2)]


def decode_items(items, enc, encoding, errors):
    """bytes.decode for utf-8, ascii and latin-1, the branches decided byte by byte."""
    e = E.eng()
    cells = []              # bytes (ASCII runs), single byte values, Ch, Tok, UCh
    for it in items:
        if isinstance(it, bytes):
            if it.isascii():
                cells.append(it)
                continue
            for m in re.finditer(rb'[\x00-\x7f]+|[\x80-\xff]', it):
                g = m.group(0)
                cells.append(g if g[0] < 128 else g[0])
        else:
            cells.append(it)

    def within(c, lo, hi):
        if isinstance(c, int):
            return lo <= c <= hi
        if not isinstance(c, Ch) or c.hi < lo or c.lo > hi:
            return False
        if c.lo >= lo and c.hi <= hi:
            return True
        return e.decide(z3.And(c.z >= lo, c.z <= hi))

    def bad(run):
        n = len(run)
        if errors == 'strict':
            raise UnicodeDecodeError(encoding, b'?' * n, 0, n, 'invalid byte')
        if errors == 'replace':
            return ['\ufffd']
        if errors == 'ignore':
            return []
        if errors == 'surrogateescape':
            return [chr(0xDC00 + c) if isinstance(c, int) else Ch(c.z + 0xDC00, max(c.lo, 128) + 0xDC00, c.hi + 0xDC00) for c in run]
        if errors in ('backslashreplace', 'surrogatepass'):
            raise E.Unsupported('decode with ' + errors)
        r, pos = codecs.lookup_error(errors)(UnicodeDecodeError(encoding, b'\xff' * n, 0, n, 'invalid byte'))
        if pos != n or not isinstance(r, str):
            raise E.Unsupported('decode with ' + errors)
        return [r]

    out, k, n = [], 0, len(cells)
    while k < n:
        c = cells[k]
        k += 1
        if isinstance(c, bytes):
            out.append(c.decode('ascii'))
        elif isinstance(c, Tok):
            out.append(c)
        elif isinstance(c, UCh):
            if enc == 'utf-8':
                out.append(c.ch)
            elif enc == 'latin-1':
                raise E.Unsupported('latin-1 decoding of utf-8')
            else:
                for _ in range(c.k):
                    out += bad([0xff])
        elif within(c, 0, 127):
            out.append(Ch(c.z, c.lo, min(c.hi, 127), c.excl))
        elif enc == 'latin-1':
            out.append(chr(c) if isinstance(c, int) else c)
        elif enc == 'ascii':
            out += bad([c])
        else:
            run = [c]
            nxt = cells[k] if k < n else None
            more = isinstance(nxt, int) and 0x80 <= nxt < 0xC0 or isinstance(nxt, Ch) and any(nxt.can(q) for q in range(0x80, 0xC0))
            for lo, hi, cont in UTF8 if more else ():
                if within(c, lo, hi):
                    for l, h in cont:
                        if k < n and within(cells[k], l, h):
                            run.append(cells[k])
                            k += 1
                        else:
                            break
                    break
            else:
                cont = None
            if cont is None or len(run) <= len(cont):
                out += bad(run)
            elif all(isinstance(r, int) for r in run):
                out.append(bytes(run).decode('utf-8'))
            else:
                z = (run[0].z if isinstance(run[0], Ch) else z3.IntVal(run[0])) - {1: 0xC0, 2: 0xE0, 3: 0xF0}[len(cont)]
                for r in run[1:]:
                    z = z * 64 + (r.z if isinstance(r, Ch) else r) - 0x80
                lo, hi = {1: (0x80, 0x7FF), 2: (0x800, 0xFFFF), 3: (0x10000, 0x10FFFF)}[len(cont)]
                out.append(Ch(z, lo, hi))
    s = Seq('str', out)
    return s.new(s.items)


class ByteOf:
    """Byte j of a binary number."""
    __slots__ = ('d', 'j')
    w = 1

    def __init__(self, d, j):
        self.d, self.j = d, j


def regroup(items):
    """Join runs of consecutive bytes 0..size-1 of the same number back into it."""
    out, k = [], 0
    while k < len(items):
        it = items[k]
        if isinstance(it, ByteOf) and it.j == 0:
            n = it.d.size
            run = items[k:k + n]
            if len(run) == n and all(isinstance(r, ByteOf) and r.d is it.d and r.j == q for q, r in enumerate(run)):
                out.append(it.d)
                k += n
                continue
        out.append(it)
        k += 1
    return out


def norm_enc(e):
    e = e.lower().replace('_', '-')
    return {'utf8': 'utf-8', 'u8': 'utf-8', 'latin1': 'latin-1', 'iso-8859-1': 'latin-1', 'us-ascii': 'ascii'}.get(e, e)


_changed = {}


def map_char(ch, f):
    """f (which maps text character by character) of one symbolic character: those it keeps stay symbolic, the others
    are taken one by one where they do not all move by the same distance."""
    e = E.eng()
    key = (f.__code__, ch.lo, ch.hi, ch.excl)
    if key not in _changed:
        cs = [c for c in range(ch.lo, ch.hi + 1) if c not in ch.excl and not 0xD800 <= c < 0xE000 and f(chr(c)) != chr(c)]
        rs = []
        for c in cs:
            d = f(chr(c))
            d = ord(d) - c if len(d) == 1 else None
            if rs and rs[-1][1] == c - 1 and rs[-1][2] == d:
                rs[-1][1] = c
            else:
                rs.append([c, c, d])
        _changed[key] = rs
    rs = _changed[key]
    if not rs:
        return ch
    moved = [r for r in rs if r[2] is not None]
    other = [r for r in rs if r[2] is None]
    if len(moved) > 12:
        moved, other = [], rs
    if other and e.decide(z3.Or(*[ch.z == a if a == b else z3.And(ch.z >= a, ch.z <= b) for a, b, _ in other]), False):
        return f(chr(conc_int_narrow(SInt(ch.z))))
    z, lo, hi = ch.z, ch.lo, ch.hi
    for a, b, d in moved:
        z = z3.If(z3.And(ch.z >= a, ch.z <= b), ch.z + d, z)
        lo, hi = min(lo, a + d), max(hi, b + d)
    return Ch(z, lo, hi) if moved else ch


def normalize(form, s):
    """unicodedata.normalize"""
    if not isinstance(s, Seq):
        return unicodedata.normalize(form, s)
    f = _normal[form]
    out = []
    for it in s.items:
        if isinstance(it, str):
            if any(unicodedata.combining(c) or 0x1100 <= ord(c) < 0x1200 for c in it):
                return f(s.concrete())
            out.append(f(it))
        elif isinstance(it, Tok):
            out.append(it)
        elif isinstance(it, Ch):
            if it.lo <= 0x36F and it.hi >= 0x300:
                return f(s.concrete())
            out.append(map_char(it, f) if it.hi > 127 else it)
        else:
            return f(s.concrete())
    return s.new(out)


_normal = {'NFC': lambda s: unicodedata.normalize('NFC', s), 'NFD': lambda s: unicodedata.normalize('NFD', s),
           'NFKC': lambda s: unicodedata.normalize('NFKC', s), 'NFKD': lambda s: unicodedata.normalize('NFKD', s)}


def int_cells(t):
    """The characters of an integer token, one by one: its digits become symbolic characters."""
    e = E.eng()
    if t.tight:
        n = t.w
    else:
        n = t.minlen()
        while n < t.w and not e.decide(t.len_le(n)):
            n += 1
    out = [' '] * (t.w - n)
    z = t.v.z
    minus = False if t.v.lo is not None and t.v.lo >= 0 else e.decide(z < 0)
    if minus:
        out.append('-')
        z = -z
        n -= 1
    key = ('dig', e.keep(z3.simplify(z)), n)
    if key not in e.memo:
        ds = [z3.Int(e.fresh('dg')) for _ in range(n)]
        tot = ds[0]
        for d in ds[1:]:
            tot = tot * 10 + d
        cs = [z3.And(d >= 0, d <= 9) for d in ds]
        if n > 1:
            cs.append(ds[0] >= 1)
        e.add(z3.simplify(z3.And(z == tot, *cs)))
        e.memo[key] = [Ch(48 + d, 48, 57) for d in ds]
    return out + list(e.memo[key])


def narrow_cells(t):
    """The characters of a short non-negative integer token, blanks included, without a fork."""
    e = E.eng()
    key = ('cells', e.keep(t.v.z), t.w)
    if key not in e.memo:
        ds = [z3.Int(e.fresh('dg')) for _ in range(t.w)]
        tot = ds[0]
        for d in ds[1:]:
            tot = tot * 10 + d
        e.add(z3.simplify(z3.And(t.v.z == tot, *[z3.And(d >= 0, d <= 9) for d in ds])))
        tok = t.copy()
        e.memo[key] = [TokCh(z3.If(t.v.z < 10 ** (t.w - 1 - j), 32, 48 + d) if j < t.w - 1 else 48 + d,
                             32 if j < t.w - 1 else 48, 57, tok, j) for j, d in enumerate(ds)]
    return list(e.memo[key])


def cut(it, k, kind):
    """Cut an item k cells from its left: (left items, right items)."""
    if isinstance(it, (str, bytes)):
        return [it[:k]], [it[k:]]
    if isinstance(it, Dbl):
        bs = [ByteOf(it, j) for j in range(it.size)]
        return bs[:k], bs[k:]
    if isinstance(it, Tok):
        e = E.eng()
        if it.conv == 'i' and not it.tight and it.w <= 3 and isinstance(it.v, SInt) and it.v.lo is not None and it.v.lo >= 0:
            c = narrow_cells(it)
            return c[:k], c[k:]
        if not it.tight:
            # are the first k cells blank?
            if e.decide(it.len_le(it.w - k)):
                bl = ' ' * k
                return [bl if kind == 'str' else bl.encode()], [it.copy(w=it.w - k)]
        if it.conv == 'i' and isinstance(it.v, SInt):
            c = int_cells(it)
            if kind != 'str':
                c = [x.encode() if isinstance(x, str) else x for x in c]
            return c[:k], c[k:]
        s = conc_tok(it)
        s = s if kind == 'str' else s.encode()
        return [s[:k]], [s[k:]]
    if isinstance(it, UCh):
        b = chr(conc_int_narrow(SInt(it.ch.z))).encode()
        return [b[:k]], [b[k:]]
    raise E.Unsupported('cut')


def as_seq(x, kind):
    return x if isinstance(x, Seq) else Seq(kind, [x])


def join(sep, parts):
    kind = sep.kind if isinstance(sep, Seq) else 'str' if isinstance(sep, str) else 'bytes'
    typ = str if kind == 'str' else bytes
    items = []
    for n, p in enumerate(parts):
        if n and sep:
            items.extend(sep.items if isinstance(sep, Seq) else [sep])
        if isinstance(p, Seq) and p.kind == kind:
            items.extend(p.items)
        elif isinstance(p, typ):
            items.append(p)
        else:
            raise TypeError('sequence item %d: expected str instance, %s found' % (n, type(p).__name__))
    s = Seq(kind, regroup(items) if kind == 'bytes' else items)
    return s.new(s.items)


def contains(x, c):
    """x in c for symbolic text."""
    if isinstance(c, Seq) or isinstance(x, Seq):
        kind = c.kind if isinstance(c, Seq) else x.kind
        if isinstance(x, Seq) and isinstance(c, (str, bytes)):
            # a symbolic string in a literal one
            n, L = len(x), len(c)
            for i in range(L - n + 1):
                r = x == c[i:i + n]
                if bool(r):
                    return True
            return False
        if isinstance(x, (int, SInt)):
            for i in range(len(c)):
                if bool(c[i] == x):
                    return True
            return False
        if isinstance(x, (str, bytes)) and len(x) == 1:
            # a character that is there whatever the numbers are
            y = x if isinstance(x, str) else x.decode('latin-1')
            for it in c.items:
                if isinstance(it, type(x)) and x in it:
                    return True
                if isinstance(it, Tok) and it.conv == 'e' and (y == '.' and it.prec or y == it.mp == it.mn):
                    return True
        return find(as_seq(c, kind), x, 0) >= 0
    raise TypeError


# ---- searching ----------------------------------------------------------------------------------

def digits_cond(av, L, a, s):
    """av (a non-negative z3 Int with exactly L digits): digit characters at positions a.. equal s."""
    m = len(s)
    q = av if L - a - m == 0 else av / (10 ** (L - a - m))
    if a > 0:
        q = q % (10 ** m)
    return q == int(s)


WINDOWS = {}


def window(t, a, s):
    """tok_window, simplified and remembered; False when impossible."""
    z = t.v.z
    key = (t.conv, t.prec, t.w, t.tight, t.mp, t.mn, t.v.lo if t.conv == 'i' else (t.v.nonneg, t.v.small), t.v.hi if t.conv == 'i' else None, z.get_id(), a, s)
    r = WINDOWS.get(key)
    if r is not None:
        return r[0]
    c = tok_window(t, a, s)
    if c is not None:
        c = z3.simplify(c)
        if z3.is_false(c):
            c = False
    if len(WINDOWS) > 200000:
        WINDOWS.clear()
    WINDOWS[key] = (c, z)           # z keeps the term, and so its id, alive
    return c


def tok_window(t, a, s):
    """Condition: cells a..a+len(s) of token t (concrete width) read s."""
    if isinstance(s, bytes):
        s = s.decode('latin-1')
    if set(s) - set(t.charset()):
        return z3.BoolVal(False)
    if s.strip(' ') == '':
        if t.tight:
            return z3.BoolVal(False)
        return t.len_le(t.w - a - len(s)) if t.w - a - len(s) >= 1 else z3.BoolVal(False)
    if t.conv == 'i':
        alts = []
        z = t.v.z
        hi = t.maxlen() or t.w
        for L in range(t.minlen(), min(t.w, hi) + 1):
            if t.tight and L != t.w:
                continue
            pad = t.w - L
            # split the window in its blank part and its number part
            nb = max(0, min(len(s), pad - a))
            if s[:nb].strip(' ') or ' ' in s[nb:]:
                continue
            num = s[nb:]
            p = max(a - pad, 0)          # position inside the number text
            for sg in (0, 1):
                if sg and t.v.lo is not None and t.v.lo >= 0:
                    continue
                n, q = num, p
                D = L - sg
                if D < 1:
                    continue
                if sg:
                    if q == 0 and n:
                        if n[0] != '-':
                            continue
                        n = n[1:]
                        q = 0
                    elif q > 0:
                        q -= 1
                if '-' in n:
                    continue
                av = -z if sg else z
                c = [z < 0 if sg else z >= 0, av >= (10 ** (D - 1) if D > 1 else 0), av < 10 ** D]
                if sg and D == 1:
                    c.append(av >= 1)
                if n:
                    c.append(digits_cond(av, D, q, n))
                alts.append(z3.And(*c))
        return z3.Or(*alts) if alts else z3.BoolVal(False)
    if t.conv == 'e':
        ok = False
        for sg in ((0,) if t.v.nonneg else (0, 1)):
            for e3 in ((0,) if t.v.small else (0, 1)):
                body = '-' * sg + 'd' + ('.' + 'd' * t.prec if t.prec else '') + 'msdd' + 'd' * e3
                if len(body) > t.w:
                    continue
                txt = body.rjust(t.w)
                win = txt[a:a + len(s)]
                if all(c == w or w == 'd' and c.isdigit() or w == 's' and c in '+-' or w == 'm' and c in (t.mp, t.mn)
                       for c, w in zip(s, win)):
                    ok = True
        if not ok:
            return z3.BoolVal(False)
        if a == 0 and len(s) == t.w:
            # the whole text: one decimal number
            try:
                fr = Fraction(s.strip(' ').replace(t.mp, 'e').replace(t.mn, 'e'))
            except ValueError:
                return None
            txt = ('%.*e' % (t.prec, float(fr))).replace('e-', t.mn + '-').replace('e+', t.mp + '+').rjust(t.w)
            return rnd(t.v, t.prec).z == z3.RealVal(str(fr)) if txt == s else z3.BoolVal(False)
        if not any(c.isdigit() for c in s):
            # signs, marks and points: decided by the sign and the size of the number
            alts = []
            for sg in ((0,) if t.v.nonneg else (0, 1)):
                for e3 in ((0,) if t.v.small else (0, 1)):
                    for en in (0, 1):
                        body = '-' * sg + 'd' + ('.' + 'd' * t.prec if t.prec else '') + (t.mn + '-' if en else t.mp + '+') + 'dd' + 'd' * e3
                        if len(body) <= t.w and not (t.tight and len(body) != t.w) and body.rjust(t.w)[a:a + len(s)] == s:
                            x = expneg(t.v, t.prec)
                            alts.append(z3.And(neg(t.v) if sg else z3.Not(neg(t.v)), exp3(t.v, t.prec) if e3 else z3.Not(exp3(t.v, t.prec)), x if en else z3.Not(x)))
            return z3.Or(*alts) if alts else z3.BoolVal(False)
    return None


def open_window(t, a, piece):
    """Whether token t reads piece at a, where that is not decided by arithmetic: a free choice for the first one of a path,
    no for the later ones (marked as narrowed)."""
    e = E.eng()
    key = ('open', t.conv, t.prec, t.w, t.tight, e.keep(t.v.z), a, piece)
    if key not in e.memo:
        if ('opened',) in e.memo:
            e.flag('%r assumed not to begin at %d in a number' % (piece, a))
            e.memo[key] = False
        else:
            e.memo[('opened',)] = True
            e.memo[key] = z3.Bool(e.fresh('open'))
    return e.memo[key]


def find(s, sub, start):
    """First index >= start where the literal sub occurs; forks where the occurrence is open."""
    if isinstance(sub, SInt) or isinstance(sub, int):
        sub = bytes([sub.__index__()])
    if isinstance(sub, Seq):
        sub = sub.concrete()
    if not isinstance(sub, (str if s.kind == 'str' else bytes)):
        raise TypeError('argument should be %s' % s.kind)
    s = s.fixed()
    e = E.eng()
    total = s.offsets()[-1]
    m = len(sub)
    subs = sub if isinstance(sub, str) else sub.decode('latin-1')
    if m == 0:
        return start if start <= total else -1
    # skeleton: literal characters, or wildcards
    pats = []
    for it in s.items:
        if isinstance(it, str):
            pats.append(it)
        elif isinstance(it, bytes):
            pats.append(it.decode('latin-1'))
        else:
            w = width(it)
            if isinstance(it, Tok):
                if set(subs) & set(it.charset()):
                    pats.append('\ue000' * w)
                else:
                    pats.append('\ue001' * w)
            elif isinstance(it, Ch):
                pats.append('\ue000')
            elif isinstance(it, UCh):
                pats.append('\ue001' * w if all(ord(c) < 128 for c in subs) else '\ue000' * w)
            elif isinstance(it, ByteOf):
                pats.append('\ue000')
            else:
                pats.append('\ue000' * w)
    sk = ''.join(pats)
    rx = re.compile('(?=' + ''.join('[' + re.escape(c) + '\ue000]' for c in subs) + ')')
    for mt in rx.finditer(sk, start):
        p = mt.start()
        if p + m > total:
            break
        c = match_at(s, p, sub, start)
        if isinstance(c, Tok):
            # open: on one path this token is narrowed and searched again
            return find(narrowed(s, c), sub, start)
        if c is not None and (not c or e.decide(z3.And(*c) if len(c) > 1 else c[0])):
            return p
    return -1


def narrowed(s, tok):
    return Seq(s.kind, [s._enc(conc_tok(x)) if x is tok else x for x in s.items])


def match_at(s, p, sub, start=0):
    """The conditions under which the literal sub occurs at p of a text of fixed cells: a list, None when it cannot, or
    the token that is to be narrowed first (a free choice on this path)."""
    import bisect
    e = E.eng()
    off = s.offsets()
    m = len(sub)
    subs = sub if isinstance(sub, str) else sub.decode('latin-1')
    if p + m > off[-1]:
        return None
    conds = []
    k = bisect.bisect_right(off, p) - 1
    i = 0
    while i < m:
        it = s.items[k]
        a = p + i - off[k]
        n = min(width(it) - a, m - i)
        piece = subs[i:i + n]
        if isinstance(it, str):
            if it[a:a + n] != piece:
                return None
        elif isinstance(it, bytes):
            if it[a:a + n] != sub[i:i + n]:
                return None
        elif isinstance(it, Ch):
            if not it.can(ord(piece)):
                return None
            conds.append(it.eqc(ord(piece)))
        elif isinstance(it, Tok):
            c = window(it, a, piece)
            if c is None:
                b = open_window(it, a, piece)
                if b is True or b is not False and e.decide(b, prefer=False):
                    return it
                return None
            if c is False:
                return None
            conds.append(c)
        elif isinstance(it, (Dbl, ByteOf)) and m > 1 and not e.memo.get('payload_markers'):
            # a multi-byte pattern overlapping payload bytes: assumed absent (checked on the concrete bytes)
            e.nonmarker.append(sub)
            return None
        elif isinstance(it, Dbl):
            bz = it.bytez()
            conds.extend(bz[a + q] == ord(piece[q]) for q in range(n))
        elif isinstance(it, ByteOf):
            conds.append(it.d.bytez()[it.j] == ord(piece))
        else:
            return None
        i += n
        k += 1
    return conds


# ---- equality -----------------------------------------------------------------------------------

def same_tok(a, b):
    return a.conv == b.conv and a.prec == b.prec and a.v.z.eq(b.v.z) and a.mp == b.mp and a.mn == b.mn


def seq_eq(a, b):
    # drop open tokens where possible
    if len(a.items) == 1 and len(b.items) == 1 and isinstance(a.items[0], Tok) and isinstance(b.items[0], Tok) \
            and a.items[0].w is None and b.items[0].w is None and a.items[0].conv == 'i' == b.items[0].conv:
        return a.items[0].v == b.items[0].v
    if len(a.items) == len(b.items) and all(
            (x is y) or isinstance(x, (str, bytes)) and x == y or isinstance(x, Tok) and isinstance(y, Tok) and
            same_tok(x, y) and x.w == y.w and x.tight == y.tight or isinstance(x, Ch) and isinstance(y, Ch) and x.z.eq(y.z)
            for x, y in zip(a.items, b.items)):
        return True
    a, b = a.fixed(), b.fixed()
    if a.offsets()[-1] != b.offsets()[-1]:
        return False
    conds = []
    ia, ib = list(a.items), list(b.items)
    i = j = 0
    while i < len(ia):
        x, y = ia[i], ib[j]
        wx, wy = width(x), width(y)
        if isinstance(x, Tok) and isinstance(y, Tok) and wx == wy and x.conv == y.conv == 'i':
            conds.append(x.v.z == y.v.z)
            i, j = i + 1, j + 1
            continue
        if isinstance(x, Tok) and isinstance(y, Tok) and wx == wy and x.conv == y.conv == 'e' and x.prec == y.prec \
                and x.mp == y.mp and x.mn == y.mn:
            if not x.v.z.eq(y.v.z):
                fx, fy = rnd(x.v, x.prec), rnd(y.v, y.prec)
                conds.append(fx.z == fy.z)
            i, j = i + 1, j + 1
            continue
        if isinstance(x, Dbl) and isinstance(y, Dbl) and x.size == y.size and x.en == y.en:
            if x is not y:
                c = x.v == y.v
                conds.append(zb(c))
            i, j = i + 1, j + 1
            continue
        if isinstance(x, UCh) and isinstance(y, UCh) and x.k == y.k:
            conds.append(x.ch.z == y.ch.z)
            i, j = i + 1, j + 1
            continue
        if isinstance(y, Tok) and not isinstance(x, Tok):
            ia, ib, i, j = ib, ia, j, i
            continue
        if isinstance(x, Tok):
            # token against literals / characters
            if isinstance(y, (str, bytes)) and wy >= wx:
                c = tok_window(x, 0, y[:wx])
                if c is None:
                    s = conc_tok(x)
                    ia[i:i + 1] = [a._enc(s)]
                    continue
                conds.append(c)
                i += 1
                if wy > wx:
                    ib[j] = y[wx:]
                else:
                    j += 1
                continue
            ia[i:i + 1] = [a._enc(conc_tok(x))]
            continue
        if isinstance(x, Dbl) or isinstance(y, Dbl):
            if isinstance(x, Dbl):
                ia[i:i + 1] = [ByteOf(x, q) for q in range(x.size)]
            if isinstance(y, Dbl):
                ib[j:j + 1] = [ByteOf(y, q) for q in range(y.size)]
            continue
        if isinstance(x, UCh) or isinstance(y, UCh):
            if isinstance(x, UCh) and isinstance(y, bytes) and len(y) >= x.k:
                try:
                    c = y[:x.k].decode('utf-8')
                except UnicodeDecodeError:
                    return False
                if len(c) != 1:
                    return False
                conds.append(x.ch.eqc(ord(c)))
                i += 1
                if len(y) > x.k:
                    ib[j] = y[x.k:]
                else:
                    j += 1
                continue
            if isinstance(y, UCh):
                ia, ib, i, j = ib, ia, j, i
                if isinstance(ib[j], UCh) or isinstance(ib[j], bytes) and len(ib[j]) >= ia[i].k:
                    continue
            ia[i:i + 1] = [chr(conc_int_narrow(SInt(ia[i].ch.z))).encode()]
            continue
        if isinstance(x, (str, bytes)) and isinstance(y, (str, bytes)):
            n = min(wx, wy)
            if x[:n] != y[:n]:
                return False
            if wx > n:
                ia[i] = x[n:]
            else:
                i += 1
            if wy > n:
                ib[j] = y[n:]
            else:
                j += 1
            continue
        cx, x = code1(x)
        cy, y = code1(y)
        conds.append(cx == cy)
        if x is None:
            i += 1
        else:
            ia[i] = x
        if y is None:
            j += 1
        else:
            ib[j] = y
    if not conds:
        return True
    return mkbool(z3.And(*conds))


def code1(x):
    """(z3 code of the first cell, remaining literal or None)."""
    if isinstance(x, Ch):
        return x.z, None
    if isinstance(x, ByteOf):
        return x.d.bytez()[x.j], None
    if isinstance(x, str):
        return z3.IntVal(ord(x[0])), x[1:] or None
    if isinstance(x, bytes):
        return z3.IntVal(x[0]), x[1:] or None
    raise E.Unsupported('cell')


# ---- numbers from text --------------------------------------------------------------------------

def parse_int(s):
    """int(s) for symbolic text."""
    t = s.strip()
    if isinstance(t, (str, bytes)):
        return int(t)
    items = t.items
    if len(items) == 1 and isinstance(items[0], Tok):
        k = items[0]
        if k.conv == 'i':
            return k.v
        raise ValueError('invalid literal for int() with base 10')
    if all(isinstance(i, (str, bytes, Ch)) for i in items):
        return parse_int_cells(items, s.kind)
    return int(t.concrete())


def cells_of(items):
    for it in items:
        if isinstance(it, str):
            for c in it:
                yield ord(c)
        elif isinstance(it, bytes):
            for c in it:
                yield c
        else:
            yield it


def parse_int_cells(items, kind='str'):
    """int() of text of literal and symbolic characters without surrounding whitespace."""
    e = E.eng()
    cells = list(cells_of(items))
    err = ValueError('invalid literal for int() with base 10')
    sign, val, nd, prev_us = 1, 0, 0, False
    for n, c in enumerate(cells):
        if isinstance(c, int):
            ch = chr(c)
            if n == 0 and ch in '+-':
                sign = -1 if ch == '-' else 1
                continue
            if ch == '_':
                if nd == 0 or prev_us:
                    raise err
                prev_us = True
                continue
            if not ch.isdecimal():
                raise err
            val = val * 10 + int(ch)
            nd += 1
            prev_us = False
            continue
        dig = z3.And(c.z >= 48, c.z <= 57)
        if c.lo > 57 or c.hi < 48:
            d = False
        elif c.lo >= 48 and c.hi <= 57:
            d = True
        else:
            d = e.decide(dig)
        if d:
            val = SInt(c.z - 48, 0, 9) + val * 10
            nd += 1
            prev_us = False
            continue
        if n == 0 and e.decide(c.is_in('+-')):
            sign = -1 if c.can(45) and e.decide(c.eqc(45)) else 1
            continue
        if nd and not prev_us and c.can(95) and e.decide(c.eqc(95)):
            prev_us = True
            continue
        if kind == 'str' and c.hi > 127 and e.decide(c.z > 127):
            return int(Seq('str', items).concrete())
        raise err
    if nd == 0 or prev_us:
        raise err
    return val * sign if sign < 0 else val


def parse_float(s):
    t = s.strip()
    if isinstance(t, (str, bytes)):
        return float(t)
    items = t.items
    if len(items) == 1 and isinstance(items[0], Tok):
        k = items[0]
        if k.conv == 'e':
            bad_p, bad_n = k.mp not in 'eE', k.mn not in 'eE'
            if bad_p and bad_n:
                raise ValueError('could not convert string to float')
            if bad_p or bad_n:
                n = E.eng().decide(expneg(k.v, k.prec))
                if (n and bad_n) or (not n and bad_p):
                    raise ValueError('could not convert string to float')
        return k.text_value()
    if all(isinstance(i, (str, bytes, Ch)) for i in items):
        return parse_float_cells(items, t)
    if sum(isinstance(i, Tok) and i.conv == 'e' and i.prec > 0 for i in items) > 1:
        raise ValueError('could not convert string to float')      # two decimal points
    for a, b in zip(items, items[1:]):
        if isinstance(a, Tok) and isinstance(b, Tok) and b.conv in 'ei' and E.eng().decide(zb(b.v < 0)):
            raise ValueError('could not convert string to float')  # a sign after a digit
    return float(t.concrete())


def parse_float_cells(items, t):
    """float() of text made of literal and symbolic characters: digits stay symbolic when the layout is a
    plain decimal with symbolic digits; anything else is narrowed."""
    e = E.eng()
    out = []
    for c in cells_of(items):
        if isinstance(c, int):
            out.append(c)
            continue
        if c.lo >= 48 and c.hi <= 57:
            out.append(c)
            continue
        return float(t.concrete())
    txt = ''.join(chr(c) if isinstance(c, int) else '0' for c in out)
    m = re.fullmatch(r'([+-]?)(\d*)(\.?)(\d*)(?:[eE]([+-]?\d+))?', txt)
    if not m or not (m.group(2) or m.group(4)):
        return float(t.concrete())
    es = m.start(5) if m.group(5) else len(txt)
    if any(not isinstance(c, int) for c in out[es:]):
        return float(t.concrete())
    val, nd = z3.IntVal(0), 0
    for p in list(range(m.start(2), m.end(2))) + list(range(m.start(4), m.end(4))):
        c = out[p]
        val = val * 10 + (z3.IntVal(c - 48) if isinstance(c, int) else c.z - 48)
        nd += 1
    ex = int(m.group(5) or 0) - len(m.group(4))
    r = z3.ToReal(val) * z3.RealVal(str(Fraction(10) ** ex))
    if m.group(1) == '-':
        r = -r
    return SFloat(z3.simplify(r), nd=nd, small=abs(ex) < 80, nonneg=m.group(1) != '-')


# ---- formatting ---------------------------------------------------------------------------------

SPEC = re.compile(r'%(?:\((\w+)\))?([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([a-zA-Z%])')


def conv_int(v):
    """The integer '%i' prints for v."""
    if isinstance(v, SBool):
        return v.as_int()
    if isinstance(v, SFloat):
        return trunc(v)
    return v


def place(tok, wd, left=False, flags=''):
    """A token in a field of (at least) wd characters: list of items."""
    if not wd:
        return [tok]
    m = tok.maxlen()
    e = E.eng()
    if left:
        t = fix_tok(tok)
        if isinstance(t, str):
            return [t.ljust(wd)]
        return [t, ' ' * max(0, wd - t.w)]
    if tok.conv == 'r':
        return [conc_tok(tok).rjust(wd)]
    if (m is not None and m <= wd) or e.decide(tok.len_le(wd)):
        return [tok.copy(w=wd, tight=False)]
    t = fix_tok(tok)
    return [t]


def fmt_number(v, conv, wd, prec, flags):
    """Items for one numeric conversion of a symbolic value."""
    left = '-' in flags
    if '0' in flags or '+' in flags or ' ' in flags or '#' in flags:
        c = narrow(v)
        return [('%' + flags + (str(wd) if wd else '') + ('.%d' % prec if prec is not None else '') + conv) % c]
    if conv in 'diu':
        x = conv_int(v)
        if not is_sym(x):
            return [('%' + flags + (str(wd) if wd else '') + 'd') % x]
        if prec is not None:
            return [('%' + flags + (str(wd) if wd else '') + '.%d' % prec + 'd') % narrow(v)]
        return place(Tok('i', x, tight=True), wd, left)
    if conv in 'eE':
        x = v
        if isinstance(x, (SInt, SBool)):
            x = SFloat.of_int(x)
        return place(Tok('e', x, 6 if prec is None else prec, None, conv, conv, tight=True), wd, left)
    if conv in 'fF':
        if prec == 0:
            if isinstance(v, SBool):
                v = v.as_int()
            x = v if isinstance(v, SInt) else round_int(v)
            if not is_sym(x):
                return [('%' + flags + (str(wd) if wd else '') + 'd') % x]
            return place(Tok('i', x, tight=True), wd, left)
    c = narrow(v)
    return [('%' + flags + (str(wd) if wd else '') + ('.%d' % prec if prec is not None else '') + conv) % c]


def narrow(v):
    if isinstance(v, SBool):
        return bool(v)
    if isinstance(v, SInt):
        return conc_int_narrow(v, wide=True)
    if isinstance(v, SFloat):
        return conc_float(v)
    if isinstance(v, Seq):
        return v.concrete()
    return complex(v)


def str_of(v):
    """str(v) as items."""
    if isinstance(v, Seq):
        return v.items if v.kind == 'str' else [repr(v.concrete())]
    if isinstance(v, SInt):
        return [Tok('i', v, tight=True)]
    if isinstance(v, SFloat):
        if v.intof is None:
            return [Tok('r', v, tight=True)]
        return [str(conc_float(v))]
    return [str(narrow(v))]


def pad_items(items, wd, left):
    if not wd:
        return items
    if not left and len(items) == 1 and isinstance(items[0], Tok) and items[0].conv == 'i' and items[0].w is None:
        return place(items[0], wd)
    s = Seq('str', items).fixed()
    n = len(s)
    if n >= wd:
        return s.items
    return s.items + [' ' * (wd - n)] if left else [' ' * (wd - n)] + s.items


def percent(fmt, args):
    """fmt % args with symbolic arguments or a symbolic format."""
    isb = isinstance(fmt, bytes)
    if isinstance(fmt, Seq):
        fmt = fmt.concrete()
    if isb:
        fmt = fmt.decode('latin-1')
    if isinstance(args, dict):
        mapping, args = args, None
    elif not isinstance(args, tuple):
        mapping, args = None, (args,)
    else:
        mapping = None
    out, pos, ai = [], 0, 0

    def nxt():
        nonlocal ai
        if ai >= len(args):
            raise TypeError('not enough arguments for format string')
        ai += 1
        return args[ai - 1]
    while True:
        i = fmt.find('%', pos)
        if i < 0:
            out.append(fmt[pos:])
            break
        out.append(fmt[pos:i])
        m = SPEC.match(fmt, i)
        if not m:
            raise ValueError('unsupported format character')
        pos = m.end()
        name, flags, wd, prec, conv = m.groups()
        if conv == '%':
            out.append('%')
            continue
        if wd == '*':
            wd = nxt().__index__()
        if prec == '*':
            prec = nxt().__index__()
        wd = int(wd) if wd else 0
        prec = int(prec) if prec is not None else None
        v = mapping[name] if mapping is not None else nxt()
        if not is_sym(v):
            spec = '%' + flags + (str(wd) if wd else '') + ('.%d' % prec if prec is not None else '') + conv
            v = unarr(v)
            if not is_sym(v):
                out.append(spec % (v,) if not isb or conv not in 'sb' else (spec.encode() % (v,)).decode('latin-1'))
                continue
        if conv in 'sr' or isb and conv == 'b':
            it = str_of(v) if conv == 's' else [repr(narrow(v))]
            if prec is not None:
                s = Seq('str', it)[:prec]
                it = s.items if isinstance(s, Seq) else [s]
            out.extend(pad_items(it, wd, '-' in flags))
            continue
        if conv == 'c':
            out.extend(v.items if isinstance(v, Seq) else [chr(narrow(v))])
            continue
        if isinstance(v, Seq):
            if conv in 'diueEfFgGxXo':
                raise TypeError('%%%s format: a real number is required, not str' % conv)
        if type(v).__name__ == 'SComplex':
            raise TypeError('must be real number, not complex')
        out.extend(fmt_number(v, conv, wd, prec, flags))
    if args is not None and ai < len(args):
        raise TypeError('not all arguments converted during string formatting')
    if isb:
        out = [o.encode('latin-1') if isinstance(o, str) else o for o in out]
        s = Seq('bytes', out)
    else:
        s = Seq('str', out)
    return s.new(s.items)


def unarr(v):
    """A 0-d or 1-element object array stands for its element in formatting."""
    import numpy as np
    if isinstance(v, np.ndarray) and v.dtype == object and v.size == 1 and v.ndim == 0:
        return v.reshape(-1)[0]
    return v


FSPEC = re.compile(r'(?:(.)?([<>=^]))?([-+ ])?(z)?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([a-zA-Z%])?$')


def format_value(v, spec):
    """format(v, spec) as items, v symbolic."""
    if isinstance(spec, Seq):
        spec = spec.concrete()
    m = FSPEC.match(spec)
    if not m:
        raise ValueError('Invalid format specifier')
    fill, align, sign, z, alt, zero, wd, sep, prec, conv = m.groups()
    wd = int(wd) if wd else 0
    prec = int(prec) if prec is not None else None
    if isinstance(v, Seq):
        if conv not in (None, 's'):
            raise ValueError("Unknown format code '%s' for object of type 'str'" % conv)
        if align == '=' or zero or sign:
            raise ValueError("'=' alignment not allowed in string format specifier")
        it = str_of(v)
        if prec is not None:
            s = Seq('str', it)[:prec]
            it = s.items if isinstance(s, Seq) else [s]
        if align == '^' or (fill not in (None, ' ')):
            return [format(Seq('str', it).concrete(), spec)]
        return pad_items(it, wd, align != '>')
    if type(v).__name__ == 'SComplex' or align == '^' or align == '=' or fill not in (None, ' ') or sep or alt or zero or sign in ('+', ' '):
        return [format(narrow(v), spec)]
    flags = '-' if align == '<' else ''
    if isinstance(v, SBool):
        if not spec:
            return [str(narrow(v))]
        v = v.as_int()
    if conv is None:
        if prec is not None:
            return [format(narrow(v), spec)]
        return pad_items(str_of(v), wd, align == '<') if wd and isinstance(v, SFloat) else \
            (place(Tok('i', v, tight=True), wd, align == '<') if isinstance(v, SInt) else str_of(v))
    if conv in 'd':
        if isinstance(v, SFloat):
            raise ValueError("Unknown format code 'd' for object of type 'float'")
        return fmt_number(v, 'd', wd, None, flags)
    if conv in 'eEfF':
        return fmt_number(v, conv, wd, prec, flags)
    return [format(narrow(v), spec)]


FIELD = re.compile(r'\{\{|\}\}|\{([^{}!:]*)(?:!([rsa]))?(?::((?:[^{}]|\{[^{}]*\})*))?\}')


def str_format(fmt, args, kw):
    out, pos, auto = [], 0, 0
    for m in FIELD.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(0) in ('{{', '}}'):
            out.append(m.group(0)[0])
            continue
        name, cv, spec = m.group(1), m.group(2), m.group(3) or ''
        if name == '':
            v = args[auto]
            auto += 1
        else:
            mm = re.match(r'(\w+)(.*)$', name)
            base, rest = mm.groups()
            v = args[int(base)] if base.isdigit() else kw[base]
            for r in re.finditer(r'\.(\w+)|\[([^\]]+)\]', rest):
                v = getattr(v, r.group(1)) if r.group(1) else v[int(r.group(2)) if r.group(2).lstrip('-').isdigit() else r.group(2)]

        def sub(mm):
            nonlocal auto
            if mm.group(1) == '':
                x = args[auto]
                auto += 1
            else:
                x = args[int(mm.group(1))] if mm.group(1).isdigit() else kw[mm.group(1)]
            return str(x)
        spec = re.sub(r'\{(\w*)\}', sub, spec)
        if cv:
            v = Seq('str', str_of(v)) if is_sym(v) and cv == 's' else (str(v) if cv == 's' else repr(v))
        out.extend(format_value(v, spec) if is_sym(v) else [format(v, spec)])
    out.append(fmt[pos:])
    s = Seq('str', out)
    return s.new(s.items)


# ---- struct -------------------------------------------------------------------------------------

def s_pack(fmt, *vals):
    if isinstance(fmt, Seq):
        fmt = fmt.concrete()
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    f = fmt.replace(' ', '')
    en = '<'
    if f and f[0] in '<>=!@':
        en = {'<': '<', '=': '<', '@': '<', '>': '>', '!': '>'}[f[0]]
        f = f[1:]
    out, i = [], 0
    vals = list(vals)
    for m in re.finditer(r'(\d*)([a-zA-Z?])', f):
        n = int(m.group(1)) if m.group(1) else 1
        c = m.group(2)
        if c in 'df':
            for _ in range(n):
                if i >= len(vals):
                    raise struct.error('pack expected more items for packing')
                v = vals[i]
                i += 1
                if isinstance(v, (SInt, SBool)):
                    v = SFloat.of_int(v if isinstance(v, SInt) else v.as_int())
                if isinstance(v, SFloat):
                    if c == 'f':
                        v = rnd_single(v)
                    out.append(Dbl(v, 8 if c == 'd' else 4, en))
                elif isinstance(v, Sym):
                    raise struct.error('required argument is not a float')
                else:
                    out.append(struct.pack(en + c, v))
        elif c == 's':
            v = vals[i]
            i += 1
            out.append(struct.pack(en + m.group(0), v if not isinstance(v, Seq) else v.concrete()))
        elif c == 'x':
            out.append(b'\0' * n)
        else:
            a = [narrow(v) if is_sym(v) else v for v in vals[i:i + n]]
            i += n
            out.append(struct.pack(en + m.group(0), *a))
    if i != len(vals):
        raise struct.error('pack expected %d items for packing (got %d)' % (i, len(vals)))
    s = Seq('bytes', out)
    return s.new(s.items)


def s_unpack(fmt, data):
    if isinstance(fmt, Seq):
        fmt = fmt.concrete()
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if not isinstance(data, Seq):
        return struct.unpack(fmt, data)
    f = fmt.replace(' ', '')
    en = '<'
    if f and f[0] in '<>=!@':
        en = {'<': '<', '=': '<', '@': '<', '>': '>', '!': '>'}[f[0]]
        f = f[1:]
    need = struct.calcsize(en + f)
    if need != len(data):
        raise struct.error('unpack requires a buffer of %d bytes' % need)
    data = Seq('bytes', regroup(data.items))
    out, pos = [], 0
    for m in re.finditer(r'(\d*)([a-zA-Z?])', f):
        n = int(m.group(1)) if m.group(1) else 1
        c = m.group(2)
        if c in 'df':
            sz = 8 if c == 'd' else 4
            for _ in range(n):
                out.append(unpack1(data[pos:pos + sz], sz, en, c))
                pos += sz
        else:
            sz = struct.calcsize(en + m.group(0))
            x = data[pos:pos + sz]
            pos += sz
            out.extend(struct.unpack(en + m.group(0), x.concrete() if isinstance(x, Seq) else x))
    return tuple(out)


def unpack1(x, sz, en, c):
    if isinstance(x, bytes):
        return struct.unpack(en + c, x)[0]
    it = regroup(x.items)
    if len(it) == 1 and isinstance(it[0], Dbl) and it[0].size == sz and it[0].en == en:
        return it[0].v
    if all(isinstance(i, (Ch, bytes)) for i in it):
        # free bytes: the number is an uninterpreted function of them
        zs = []
        for i in it:
            zs += [i.z] if isinstance(i, Ch) else [z3.IntVal(b) for b in i]
        f = z3.Function('ieee%d%s' % (sz, 'be' if en == '>' else 'le'), *([z3.IntSort()] * sz + [z3.RealSort()]))
        return SFloat(f(*zs))
    return struct.unpack(en + c, x.concrete())[0]

"""P24: text keeps its characters; undecodable bytes never stop reading."""
from checks.f58 import header, LAB, UNITS
from checks import layout
from checks.sets import make, KINDS, set_type
from checks.p16 import written
from checks.p17 import render, other

MIXES = {'latin': ('latin',), 'greek': ('greek',), 'cyrillic': ('cyrillic',), 'arabic': ('arabic',), 'cjk': ('cjk',), 'hangul': ('hangul',), 'han2': ('han2',), 'emoji': ('emoji',),
         'mixed': ('nonws', 'latin', 'cjk', 'han2', 'greek'), 'ascii-cjk': ('nonws', 'cjk'), 'cjk-ascii': ('cjk', 'nonws'), 'emoji-latin': ('emoji', 'latin', 'nonws')}
BOUNDS = {'quick': 'every text field of every kind of set holding symbolic letters of %d scripts and mixtures of them (one to four bytes each), 1..4 characters, and each text field at its full width; all header texts of set 58 '
                   'and 58b at once with 1, 5 and full columns; for every text field of every kind: 3 free bytes out of all that start a sequence, all that continue one, and two to four truncated sequences of two and three bytes, in '
                   'LF and CR-LF files, padded and trimmed; undecodable bytes in sets of other types, before, between and after the sets' % len(MIXES),
          'thorough': 'as quick, all combinations of fields, styles and byte classes, 5 free bytes'}
ASSUMPTIONS = ['text neither begins nor ends with a blank; letters only beyond ASCII', 'the fixed columns of a record count characters; a byte that cannot be decoded counts as one']
TEXT_KINDS = tuple(k for k in KINDS if k not in ('15', '2411', '2412', '58b'))


def word(cx, name, n, mix):
    m = MIXES[mix]
    return cx.cat([''] + [cx.text('%s_%d' % (name, j), 1, m[j % len(m)]) for j in range(n)]) if len(m) > 1 else cx.text(name, n, m[0])


def kw(kind):
    return {'complex_': False} if kind == '55' else {'complex_': False, 'even': True, 'double': True} if kind == '58' else {}


def build(cx, kind, n, text, rich=True):
    """Set with the text fields by text(name, length)."""
    if kind not in ('58', '58b'):
        return make(cx, kind, 'a', n, rich, text)
    d, _ = make(cx, kind, 'a', n, rich, lambda nm, k: 'x')
    h = header(cx, 0, 'h')
    for k in ['id%d' % k for k in range(1, 6)] + ['rsp_ent_name', 'ref_ent_name'] + [x[a] for a in LAB for x in (LAB, UNITS)]:
        h[k] = text(k, 4)
    d.update(h)
    want, data = dict(h), list(d['data'])

    def verify(cx, r):
        for k in want:
            if k == 'z_axis_value':
                cx.check_close(cx.get(r, k), want[k], k, 5)
            else:
                cx.check_eq(cx.get(r, k), want[k], k)
        cx.check_close(cx.get(r, 'data'), data, 'data', None if kind == '58b' else 11)
    return d, verify


def letters(cx, kind, mix, length, n=1, mode='add', before=False):
    """All text fields of a set at once."""
    if before:
        # overwritten, or appended to what another program wrote
        e, _ = make(cx, '82', 'z', 1, rich=False)
        cx.pyuff.UFF(cx.path('a.uff')).write_sets(e)
    if mode != 'add' or before:
        return modes(cx, kind, mix, length, n, mode, before)
    d, v = build(cx, kind, n, lambda nm, k: word(cx, 't' + nm, min(length, k), mix))
    w = dict(d)
    written(cx, kind, d, layout.body(cx, kind, w, **kw(kind)) if kind != '58b' else None)
    if kind == '58b':
        f = cx.read_file('a.uff')
        lines, p = [], 0
        for _ in range(13):
            q = f.find(b'\n', p)
            lines.append(f[p:q].decode('utf-8'))
            p = q + 1
        layout.check_records(cx, lines[2:], layout.head58(cx, w, False, True, True), '58b header')
    u = cx.pyuff.UFF(cx.path('a.uff'))
    cx.check_eq(u.get_set_types(), [set_type(kind)], 'types')
    v(cx, u.read_sets())


def modes(cx, kind, mix, length, n, mode, before):
    """The text is in the file as UTF-8 and read back, in either mode."""
    d, v = build(cx, kind, n, lambda nm, k: word(cx, 't' + nm, min(length, k), mix))
    w = dict(d)
    if mode != 'add' and kind != '58b':
        written(cx, kind, d, layout.body(cx, kind, w, **kw(kind)), mode=mode)
        v(cx, cx.pyuff.UFF(cx.path('a.uff')).read_sets())
    cx.pyuff.UFF(cx.path('a.uff')).write_sets([d, d], mode)
    u = cx.pyuff.UFF(cx.path('a.uff'))
    k = 1 if before and mode == 'add' else 0
    cx.check_eq(u.get_set_types(), [82] * k + [set_type(kind)] * 2, 'types')
    r = u.read_sets()
    for j in (0, 1):
        v(cx, r[k + j])


def places(cx, kind):
    """The text fields of a kind: names and column widths."""
    names = []

    def text(nm, k):
        names.append((nm, k))
        return 'Q%dQ' % (len(names) - 1) if k > 2 else 'Q' + chr(65 + len(names))
    from checks.layout import body
    d, _ = build(cx, kind, 1, text, rich=False)
    out = []
    for rec in body(cx, kind, d, **kw(kind)):
        for code, width, value, _ in rec:
            if code == 'A' and isinstance(value, str) and value.startswith('Q'):
                out.append((value, width))
    return [(names[int(v[1:-1]) if v.endswith('Q') else ord(v[1]) - 66][0], w) for v, w in out]


def full(cx, kind, target, width, mix):
    """One text field filled to its last column."""
    j = [0]

    def text(nm, k):
        j[0] += 1
        if nm == target:
            return word(cx, 't', width, mix)
        return 'w%d' % j[0]
    d, v = build(cx, kind, 1, text)
    w = dict(d)
    written(cx, kind, d, layout.body(cx, kind, w, **kw(kind)))
    v(cx, cx.pyuff.UFF(cx.path('a.uff')).read_sets())


def free_bytes(cx, cls, n):
    LEAD, CONT = list(range(0xC0, 256)) + [ord('A')], list(range(0x80, 0xC0)) + [ord('A')]
    if cls == 'lead':
        return cx.bytestr('f', n, LEAD)
    if cls == 'cont':
        return cx.bytestr('f', n, CONT)
    if cls == 'bad':        # bytes that never occur
        return cx.bytestr('f', n, [0xC0, 0xC1] + list(range(0xF5, 256)))
    out = []
    for k in range(2 if n < 4 else 3):
        if cls == 'trunc3':
            out += [cx.bytestr('l%d' % k, 1, list(range(0xE1, 0xED)) + [0xEE, 0xEF]), cx.bytestr('c%d' % k, 1, list(range(0x80, 0xC0)))]
        elif cls == 'trunc4':
            out += [cx.bytestr('l%d' % k, 1, [0xF1, 0xF2, 0xF3]), cx.bytestr('c%d' % k, 1, list(range(0x80, 0xC0))), cx.bytestr('e%d' % k, 1, list(range(0x80, 0xC0)))]
    return cx.cat(out)


def mark_of(width):
    return 'QV' if width < 6 else 'QVWXYZQ' if width < 12 else 'QVWXYZVWXQ'


def undecodable(cx, kind, target, width, cls, n, style, where='only'):
    """Free bytes in the middle of one text field; everything else is read as it is."""
    m = mark_of(width)
    j = [0]

    def text(nm, k):
        j[0] += 1
        return m if nm == target else 'w%d' % j[0]
    d, v = build(cx, kind, 1, text)
    k2 = dict(kw(kind))
    if kind == '58':
        k2['inc'] = 0.5
    raw = render(cx, kind, layout.body(cx, kind, d, **k2), style)
    fb = free_bytes(cx, cls, n)
    i = raw.find(m.encode())
    cx.check(i >= 0, 'the field is there')
    ln = len(m)
    b = cx.length(fb)
    if b > ln - 2:
        b = ln - 2 if ln > 2 else ln
        fb = fb[:b]
    a = 1 if ln > 2 else 0
    raw = cx.cat([raw[:i + a], fb, raw[i + a + b:]])
    o = [] if where == 'only' else [other(cx, style['eol'])]
    cx.write_file('a.uff', cx.cat([raw] + o if where == 'first' else o + [raw]))
    u = cx.pyuff.UFF(cx.path('a.uff'))
    q = 1 if where == 'second' else 0
    cx.check_eq(u.get_set_types()[q], set_type(kind), 'type')
    r = u.read_sets(q)
    hit = []

    def walk(w, g, lab):
        """g with the marked text put back where the model has it"""
        if isinstance(w, dict):
            for k in list(w):
                if k in g:
                    g[k] = walk(w[k], g[k], '%s %s' % (lab, k))
            return g
        if isinstance(w, list) and w and isinstance(w[0], (dict, str)):
            return [walk(x, y, lab) for x, y in zip(w, g)] if len(w) == len(g) else g
        if isinstance(w, str) and w == m:
            hit.append((lab, g))
            return m
        return g
    r = walk(d, dict(r), '')
    cx.check(len(hit) == 1, 'the text field is returned')
    for lab, g in hit:
        if ln > 2:
            cx.check_eq(g[:1], m[:1], lab + ': text before')
            cx.check_eq(g[cx.length(g) - (ln - 1 - b):], m[1 + b:], lab + ': text after')
    v(cx, r)


def between(cx, cls, n, kind, eol, where):
    """Undecodable bytes outside the sets and in sets of other types."""
    fb = free_bytes(cx, cls, n)
    d, v = make(cx, kind, 'a', 1)
    cx.pyuff.UFF(cx.path('w.uff')).write_sets(d)
    raw = cx.read_file('w.uff')
    e = eol.encode()
    foreign = cx.cat([b'    -1', e, b'   757', e, b'a', fb if where == 'inside' else b'', b'b', e, b'    -1', e])
    parts = [raw, foreign, raw]
    if where == 'before':
        parts = [cx.cat([fb, e]), raw]
    elif where == 'after':
        parts = [raw, fb]
    elif where == 'middle':
        parts = [raw, fb, e, foreign, cx.cat([b'x', fb, e]), raw]
    cx.write_file('a.uff', cx.cat(parts))
    u = cx.pyuff.UFF(cx.path('a.uff'))
    t = set_type(kind)
    cx.check_eq(u.get_set_types(), [t] if where in ('before', 'after') else [t, 757, t], 'types')
    r = u.read_sets()
    for k, g in enumerate(r if isinstance(r, list) else [r]):
        if k == 1:
            cx.check_eq(g, {'type': 757}, 'other set')
        else:
            v(cx, g)


class _Names:
    """Stand-in for cx where only the shape of a set matters."""
    def __getattr__(self, name):
        return {'int': lambda nm, *a, **k: 1, 'real': lambda nm, *a, **k: 0.5, 'single': lambda nm, *a, **k: 0.5, 'text': lambda nm, n, *a: 'x' * n, 'array': lambda x, *a: x,
                'cplx': lambda a, b: complex(a, b), 'assume': lambda c: None, 'any': any, 'all': all}[name]


def instances(tier):
    th = tier == 'thorough'
    out = []
    mixes = list(MIXES)
    st = [{'exp': 'e', 'eol': e, 'pad': p, 'delim': False} for e in ('\n', '\r\n') for p in ('none', 'full', 'trim')]
    j = 0
    for kind in TEXT_KINDS + ('58b',):
        for i, mix in enumerate(mixes):
            for length in (1, 4) if th or i % 2 == 0 else (4,):
                out.append(('letters', dict(kind=kind, mix=mix, length=length)))
    for j, kind in enumerate(TEXT_KINDS + ('58b',)):
        for i, mix in enumerate(mixes):
            if th or (i + j) % 3 == 0:
                for mode, before in (('overwrite', False), ('overwrite', True), ('add', True), ('OverWrite', True)):
                    out.append(('letters', dict(kind=kind, mix=mix, length=3, mode=mode, before=before)))
    classes = ('lead', 'cont', 'bad', 'trunc3', 'trunc4')
    for kind in TEXT_KINDS:
        for nm, w in places(_Names(), kind):
            j += 1
            for q in range(len(mixes) if th else 2):
                out.append(('full', dict(kind=kind, target=nm, width=w, mix=mixes[(j + 5 * q) % len(mixes)])))
            for q, cls in enumerate(classes):
                for s in range(6) if th else ((j + q) % 6,):
                    out.append(('undecodable', dict(kind=kind, target=nm, width=w, cls=cls, n=5 if th and s % 3 == 0 else 3, style=st[s], where=('only', 'first', 'second')[(j + q + s) % 3])))
    for i, where in enumerate(('before', 'after', 'middle', 'inside')):
        for q, cls in enumerate(classes):
            for eol in ('\n', '\r\n'):
                out.append(('between', dict(cls=cls, n=3, kind=('151', '58b', '58', '82', '2414')[(i + q) % 5], eol=eol, where=where)))
    return out

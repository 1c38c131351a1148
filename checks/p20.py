"""P20: fix_58b changes only what makes a binary set unreadable."""
from checks.common import read_all
from checks.f58 import base58
from checks import layout
from checks.sets import make, KINDS, LISTED, set_type
from checks.p13 import marks
from checks.p17 import render

BOUNDS = {'quick': 'files of one to three sets of every kind around binary sets, symbolic content, LF or CR-LF, plain or padded delimiters, last line break there or not, nothing or a line break between each payload and its '
                   'delimiter; payloads of 1..3 samples, single or double, either byte order, with 4 free bytes (blank, -, 1, CR, LF, any other) at the start, in the middle and at the end, and made of every sequence of three '
                   'segments out of 9 (line breaks, -1 with and without blanks, free bytes); text and blank lines in front of the first and behind the last set; output to the default name, a given name, or the input file; files pyuff wrote itself',
          'thorough': 'as quick, 6 free bytes, four segments'}
ASSUMPTIONS = ['payload bytes do not contain a delimiter line (K2) and do not encode NaN or infinities; the number a payload encodes is an uninterpreted function of its bytes',
               'a payload that ends with the line break of the file and is not followed by another one before the delimiter is ambiguous (known finding K3); payload lines of a delimiter and blanks are known finding K4']
SEP = {'none': '', 'eol': None}
SEG = [b'', b'\n', b'\r', b'\r\n', b'-1', b' -1', b'     -1', b'    -1', 'free']
FREE = [ord(' '), ord('-'), ord('1'), 10, 13, ord('a')]


def payload(cx, body, sep):
    """No delimiter line in the payload and what follows it."""
    b = cx.cat([body, sep.encode(), b'    -1'])
    for k in (b'    -1\n', b'    -1\r', b'    -1' + b' ' * 74):
        cx.assume(b.find(k) < 0)
    return body


def binary(cx, pre, body, n, style, sep, double=True, big=False):
    """A binary set with the given payload bytes; sep stands between payload and delimiter."""
    vals = cx.unpack('%s%d%s' % ('>' if big else '<', n, 'd' if double else 'f'), body)
    d = base58(cx, [1.0] * n, [0.5 * k for k in range(n)], True, False, double, binary=1)
    for k in range(1, 6):
        d['id%d' % k] = cx.text('%sid%d' % (pre, k), 3) if k < 3 else 'NONE'
    t = '    58b%6d%6d%12d%12d%6d%6d%12d%12d' % (2 if big else 1, 2, 11, n * (8 if double else 4), 0, 0, 0, 0)
    eol = style['eol']
    w = dict({k: 0 for a in ('abscissa', 'ordinate', 'orddenom', 'z_axis') for k in [a + '_' + q for q in ('spec_data_type', 'len_unit_exp', 'force_unit_exp', 'temp_unit_exp')]}, **d)
    w.update(func_id=0, ver_num=0, load_case_id=0, rsp_ent_name='NONE', ref_ent_name='NONE', z_axis_value=0.0)
    for a in ('abscissa', 'ordinate', 'orddenom', 'z_axis'):
        w[('z_axis_axis' if a == 'z_axis' else a + '_axis') + '_lab'] = w[a + '_axis_units_lab'] = 'NONE'
    head = render(cx, '58', layout.head58(cx, w, False, True, double, inc=0.5), dict(style, delim=False), t)
    head = head[:cx.length(head) - 6 - len(eol)]

    def verify(cx, r):
        for k in ('id1', 'id2', 'id5', 'rsp_node', 'ref_node', 'rsp_ent_name'):
            cx.check_eq(cx.get(r, k), w[k], k)
        cx.check_eq(cx.get(r, 'binary'), 1, 'binary')
        g = cx.get(r, 'data')
        cx.check(len(g) == n, 'number of samples')
        if len(g) == n:
            cx.check_close(g, vals, 'data', None)
        cx.check_close(cx.get(r, 'x'), [0.5 * k for k in range(n)], 'x', None)
    mark = b'    -1' + (b' ' * 74 if style['delim'] else b'')
    return cx.cat([head, body, sep.encode(), mark, eol.encode()]), verify, 58


def plain(cx, kind, pre, style, text=None):
    d, verify = make(cx, kind, pre, 2)
    kw = {'complex_': False} if kind == '55' else {'complex_': False, 'even': True, 'double': True, 'inc': 0.5} if kind == '58' else {}
    if kind == '58':
        from checks.f58 import header
        d = dict(header(cx, 0, pre), **d)
        for k in ('id2', 'id3', 'id5'):
            d[k] = text or 'NONE'
    raw = render(cx, kind, layout.body(cx, kind, d, **kw), style)

    def v(cx, r):
        verify(cx, r)
        if kind == '58':
            for k in ('id2', 'id3', 'id5'):
                cx.check_eq(cx.get(r, k), d[k], k)
    return raw, v, set_type(kind)


def closed(cx, name, bodies):
    """Every payload of the repaired file is followed by its delimiter."""
    f = cx.read_file(name)
    for b in bodies:
        cx.check(f.find(cx.cat([b, b'    -1'])) >= 0, 'delimiter right behind the payload')


def repair(cx, sets, style, final=True, out='default', again=False, known=None, head='', tail=''):
    f = cx.cat([head.encode()] + [r for r, _, _ in sets] + [tail.encode()])
    if not final:
        f = f[:cx.length(f) - len(style['eol'])]
    cx.write_file('a.uff', f)
    if known is not None:
        cx.known_finding('K3', known)
    name = {'default': 'a_fixed.uff', 'given': 'other.unv', 'same': 'a.uff'}[out]
    if out == 'default':
        cx.pyuff.fix_58b(cx.path('a.uff'))
    else:
        cx.pyuff.fix_58b(cx.path('a.uff'), cx.path(name))
    cx.check(cx.exists(name), 'output file')
    if out != 'same':
        cx.check(cx.read_file('a.uff') == f, 'input file unchanged')
    result(cx, name, sets)
    if again:
        cx.pyuff.fix_58b(cx.path(name), cx.path('twice.uff'))
        result(cx, 'twice.uff', sets)


def result(cx, name, sets):
    u = cx.pyuff.UFF(cx.path(name))
    cx.check_eq(u.get_set_types(), [t for _, _, t in sets], 'types')
    if u.get_n_sets() != len(sets):
        cx.stop()
    for k, (_, v, _) in enumerate(sets):
        v(cx, u.read_sets(k))


def mixed(cx, kinds, seps, style, final, out, text=None, again=False, head='', tail=''):
    """Sets of several kinds; the binary ones with constant samples, one with a sample whose bytes end like a line."""
    sets, bodies = [], []
    for k, kind in enumerate(kinds):
        if kind == '58b':
            n = 2 + k
            body = cx.cat([cx.pack('<d', 1.5 + j + 16 * k) for j in range(n)])
            bodies.append(body)
            sets.append(binary(cx, 's%d' % k, body, n, style, style['eol'] if seps[k % len(seps)] else ''))
        else:
            sets.append(plain(cx, kind, 's%d' % k, style, text))
    repair(cx, sets, style, final, out, again, head=head.replace('E', style['eol']), tail=tail.replace('E', style['eol']))
    if not tail:
        closed(cx, {'default': 'a_fixed.uff', 'given': 'other.unv', 'same': 'a.uff'}[out], bodies)
    if again and not tail:
        closed(cx, 'twice.uff', bodies)


def free(cx, at, n, m, sep, style, double, big, final, after):
    """m free bytes at an offset of the payload."""
    size = 8 if double else 4
    fill = (b'\x11\x22\x33\x3f' * 2)[:size] * n
    a = {'start': 0, 'mid': (n * size - m) // 2, 'end': n * size - m}[at]
    body = cx.cat([fill[:a], cx.bytestr('f', m, FREE), fill[a + m:]])
    one(cx, body, n, sep, style, double, big, final, after)


def one(cx, body, n, sep, style, double, big, final, after):
    eol = style['eol']
    s = {'none': '', 'eol': eol, 'lf': '\n', 'crlf': '\r\n'}[sep]
    payload(cx, body, s)
    k3 = None
    if s != eol and (eol.endswith(s) or not s):
        # what stands in front of the delimiter is the line break of the file, but (part of) it is payload
        part = eol[:len(eol) - len(s)].encode()
        k3 = body[cx.length(body) - len(part):] == part
    cx.known_finding('K4', body.find(b'    -1 ') >= 0)
    b = binary(cx, 'b', body, n, style, s, double, big)
    sets = [b]
    if after:
        sets = [b, plain(cx, '151', 't', style)]
    repair(cx, sets, style, final, 'default', known=k3)


def segments(cx, segs, sep, eol, at, after):
    style = {'exp': 'e', 'eol': eol, 'pad': 'none', 'delim': False}
    ps = [SEG[k] if SEG[k] != 'free' else cx.bytestr('g%d' % j, 1, FREE) for j, k in enumerate(segs)]
    body = cx.cat([b''] + ps) if ps else b''
    n = cx.length(body)
    fill = b'?' * (-n % 8)
    body = cx.cat([fill, body] if at == 'end' else [body, fill]) if n else b'????????'
    one(cx, body, cx.length(body) // 8, sep, style, True, False, True, after)


def own(cx, kinds, same):
    """Files pyuff wrote need no repair and read the same after it."""
    ds, vs = [], []
    for k, kind in enumerate(kinds):
        d, v = make(cx, kind, 'w%d' % k, 2)
        ds.append(d)
        vs.append((None, v, set_type(kind)))
    cx.pyuff.UFF(cx.path('a.uff')).write_sets(ds)
    f = cx.read_file('a.uff')
    cx.pyuff.fix_58b(cx.path('a.uff'), *([cx.path('a.uff')] if same else []))
    if not same:
        cx.check(cx.read_file('a.uff') == f, 'input file unchanged')
    result(cx, 'a.uff' if same else 'a_fixed.uff', vs)


def no_file(cx, given):
    e = cx.raises(cx.pyuff.fix_58b, cx.path('none.uff'), *([cx.path('o.uff')] if given else []))
    cx.check(e is not None, 'a missing file raises')
    cx.check(not cx.exists('o.uff') and not cx.exists('none_fixed.uff') and not cx.exists('none.uff'), 'nothing is written')


def legit(bs):
    return not any(x in bs for x in (b'    -1\n', b'    -1\r', b'    -1' + b' ' * 74))


def instances(tier):
    th = tier == 'thorough'
    st = [{'exp': 'e', 'eol': e, 'pad': 'none', 'delim': d} for e in ('\n', '\r\n') for d in (False, True)]
    out = []
    for i, kind in enumerate(k for k in KINDS if k != '58b'):
        for j, s in enumerate(st):
            kinds = [(kind, '58b'), ('58b', kind), ('58b', kind, '58b'), (kind, '58b', kind)][(i + j) % 4]
            out.append(('mixed', dict(kinds=kinds, seps=[(True,), (True, False, True), (False, True)][(i + 2 * j) % 3], style=s, final=(i + j) % 2 == 0, out=('default', 'given', 'same')[(i + j) % 3])))
    for i, (head, tail) in enumerate((h, t) for h in ('', 'E', 'made by hand' + 'E') for t in ('', 'E', 'EE', ' E', 'end of the file', 'end' + 'E', '    ', 'E-1E')):
        if head or tail:
            # what stands in front of the first set and behind the last
            for kinds in (('58b',), ('151', '58b')[::1 - 2 * (i % 2)], ('15', '82')):
                out.append(('mixed', dict(kinds=kinds, seps=(i % 3 == 0,), style=st[i % 4], final=True, out=('default', 'given', 'same')[i % 3], head=head, tail=tail)))
    for s in st:
        for final in (True, False):
            out.append(('mixed', dict(kinds=('58b', '58b', '58b'), seps=(True,), style=s, final=final, out='same', again=True)))
            out.append(('mixed', dict(kinds=('58', '58b', '58'), seps=(True,), style=s, final=final, out='default', text='-1', again=True)))
            out.append(('mixed', dict(kinds=('151', '164', '58b'), seps=(False,), style=s, final=final, out='given', again=True)))
    m = 6 if th else 4
    for at in ('start', 'mid', 'end'):
        for sep in ('none', 'eol', 'lf', 'crlf'):
            for j, s in enumerate((st[0], st[2])):
                for q in range(4):
                    out.append(('free', dict(at=at, n=1 + (q + j) % 3 if not th else 2 + q % 2, m=m, sep=sep, style=st[2 * j + q % 2], double=q % 2 == 0 or th, big=q >= 2, final=q % 2 == 1, after=q < 2), dict(seconds=60)))
    L = 4 if th else 3
    import itertools
    for eol in ('\n', '\r\n'):
        for sep in ('none', 'eol'):
            for at in ('start', 'end'):
                for after in (False, True):
                    for n in range(1, L + 1):
                        for segs in itertools.product(range(1, len(SEG)), repeat=n):
                            if n == L and (sum(segs) + (eol == '\n') + 2 * (sep == 'eol') + 3 * (at == 'end') + 4 * after) % (12 if th else 16):
                                continue
                            c = b''.join(SEG[k] if k != 8 else b'a' for k in segs)
                            if legit(c + (eol.encode() if sep == 'eol' and at == 'end' else b'')):
                                out.append(('segments', dict(segs=segs, sep=sep, eol=eol, at=at, after=after)))
    for i, kind in enumerate(KINDS):
        out.append(('own', dict(kinds=(kind,), same=i % 2 == 0)))
        out.append(('own', dict(kinds=(kind, KINDS[(i * 5 + 3) % len(KINDS)], '58b'), same=i % 2 == 1)))
    out += [('no_file', dict(given=g)) for g in (False, True)]
    return out

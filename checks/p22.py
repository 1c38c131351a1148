"""P22: header-only reading returns the same header and no data."""
from checks.common import reals, as_list
from checks.f58 import samples, base58, header, FUNC_TYPES
from checks import layout
from checks.sets import make, KINDS, LISTED, set_type
from checks.p17 import render, other, check58

BOUNDS = {'quick': 'set 58 written by pyuff, every header field symbolic, ASCII and binary x real/complex x even/uneven x single/double, 1..4 points; foreign files: LF/CR-LF, padded or trimmed records, binary with payloads of 0..4 free '
                   'bytes and either byte order, ASCII with 0..3 data lines of free characters (not numbers at all included); every other kind of set, alone and in a list with sets 58, read by number, list of numbers and as a whole; sets of 20, 60, 130, 300 and 2500 members',
          'thorough': 'as quick with all function types, text of up to 20 characters and 6 payload bytes'}
ASSUMPTIONS = ['payload and data lines hold no delimiter line', 'a header-only read is compared with a full read where that one succeeds, else with the written fields']
SAMPLES = ('x', 'data')


def same(cx, h, r, label=''):
    """Same fields, samples None."""
    cx.check(h is not r, 'own dictionary')
    for k in SAMPLES:
        cx.check(cx.get(h, k, label) is None, label + k + ' is None')
    cx.check(sorted(str(k) for k in h) == sorted(str(k) for k in r), label + 'same fields')
    for k in r:
        if k not in SAMPLES and k in h:
            cx.check_eq(h[k], r[k], label + str(k))


def written(cx, n, binary, complex_, even, double, L, ft=1, neg=None, setn=False):
    data = [cx.cplx(k + 0.5, -1.0) if complex_ else k + 0.5 for k in range(n)] if binary else samples(cx, n, complex_)
    xs = [0.25 + 0.5 * k for k in range(n)] if even else [0.25 * k * k for k in range(n)]
    d = base58(cx, data, xs, even, complex_, double, binary=1 if binary else 0)
    d.update(header(cx, L, func_type=ft, neg=neg))
    w = dict(d)
    cx.pyuff.UFF(cx.path('a.uff')).write_sets(d, force_double=False)
    u = cx.pyuff.UFF(cx.path('a.uff'))
    h = u.read_sets(0, header_only=True) if setn else u.read_sets(header_only=True)
    check58(cx, h, w, n, complex_, even, double)
    cx.check_eq(cx.get(h, 'abscissa_spacing'), 1 if even else 0, 'abscissa_spacing')
    if even and n > 1:
        cx.check_close(cx.get(h, 'abscissa_min'), 0.25, 'abscissa_min', 5)
        cx.check_close(cx.get(h, 'abscissa_inc'), 0.5, 'abscissa_inc', 5)
    if binary:
        cx.check_eq(cx.get(h, 'n_bytes'), n * (8 if double else 4) * ((2 if complex_ else 1) + (0 if even else 1)), 'n_bytes')
    r = u.read_sets(0) if setn else u.read_sets()
    same(cx, h, r)
    cx.check(len(cx.get(r, 'data')) == n, 'the full read still has the samples')


def foreign(cx, style, binary, m, where='only', big=False, L=3, data='free', complex_=False, even=True, double=True):
    """Header fields of a foreign file whose data are anything."""
    n = 7
    d = base58(cx, [1.0] * n, [0.5 * k for k in range(n)], even, complex_, double, binary=1 if binary else 0)
    d.update(header(cx, L))
    t = '    58b%6d%6d%12d%12d%6d%6d%12d%12d' % (2 if big else 1, 2, 11, 56, 0, 0, 0, 0) if binary else None
    eol = style['eol']
    head = render(cx, '58', layout.head58(cx, dict(d, x=[0.5 * k for k in range(n)]), complex_, even, double, inc=0.5), dict(style, delim=False), t)
    head = head[:cx.length(head) - 6 - len(eol)]
    if binary:
        body = cx.bytestr('p', m, [0, 10, 13, ord(' '), ord('-'), ord('1'), 128, 255]) if m else b''
    else:
        line = {'free': [ord(c) for c in ' 1.eE+x'], 'number': [ord(c) for c in ' 1.'], 'bytes': [ord(' '), ord('1'), 128, 195, 255]}[data]
        body = cx.cat([b''] + [x for k in range(m) for x in (cx.bytestr('l%d_' % k, 5, line), eol.encode())])
    for k in (b'    -1\n', b'    -1\r', b'    -1' + b' ' * 74):
        cx.assume(cx.cat([body, b'    -1']).find(k) < 0)
    one = cx.cat([head, body, b'    -1', eol.encode()])
    o = [] if where == 'only' else [other(cx, eol)]
    parts = o + [one] if where == 'second' else [one] + o
    f = cx.cat(parts)
    cx.write_file('a.uff', f)
    u = cx.pyuff.UFF(cx.path('a.uff'))
    i = 1 if where == 'second' else 0
    cx.check_eq(u.get_set_types()[i], 58, 'type')
    h = u.read_sets(i, header_only=True)
    check58(cx, h, d, n, complex_, even, double)
    for k in SAMPLES:
        cx.check(cx.get(h, k) is None, k + ' is None')
    cx.check_eq(cx.get(h, 'binary'), 1 if binary else 0, 'binary')
    if even:
        cx.check_close(cx.get(h, 'abscissa_inc'), 0.5, 'abscissa_inc', 5)
    if binary:
        cx.check_eq(cx.get(h, 'n_bytes'), 56, 'n_bytes')
        cx.check_eq(cx.get(h, 'byte_ordering'), 2 if big else 1, 'byte_ordering')
    if where != 'only':
        l = u.read_sets(header_only=True)
        cx.check(isinstance(l, list) and len(l) == 2, 'both sets')
        check58(cx, l[i], d, n, complex_, even, double)
        cx.check_eq(l[1 - i], {'type': 757}, 'other set')
    cx.check(cx.read_file('a.uff') == f, 'file unchanged')


def is58(kind):
    return kind in ('58', '58b')


def kinds(cx, ks, how):
    """Sets of several kinds read with and without the option."""
    ms = [make(cx, k, 'm%d' % i, 2) for i, k in enumerate(ks)]
    cx.pyuff.UFF(cx.path('a.uff')).write_sets([d for d, _ in ms])
    f = cx.read_file('a.uff')
    u = cx.pyuff.UFF(cx.path('a.uff'))
    n = len(ks)

    def rd(ho):
        kw = {'header_only': True} if ho else {}
        if how == 'all':
            return as_list(u.read_sets(**kw))
        if how == 'numbers':
            return [u.read_sets(i, **kw) for i in range(n)]
        r = u.read_sets(list(range(n))[::-1], **kw)
        return as_list(r)[::-1]
    h = rd(True)
    r = rd(False)
    h2 = rd(True)
    cx.check(len(h) == n and len(r) == n, 'number of sets')
    for k, (kind, (d, v)) in enumerate(zip(ks, ms)):
        if is58(kind):
            same(cx, h[k], r[k], kind + ' ')
            same(cx, h2[k], r[k], kind + ' again ')
        else:
            v(cx, h[k])
            cx.check(sorted(str(q) for q in h[k]) == sorted(str(q) for q in r[k]), 'same fields')
        v(cx, r[k])
    cx.check(cx.read_file('a.uff') == f, 'file unchanged')


def large(cx, kind, n, how):
    """Sets of many kilobytes."""
    d, v = make(cx, kind, 'm', n, long=True)
    e, ve = make(cx, '58', 'e', 2)
    cx.pyuff.UFF(cx.path('a.uff')).write_sets([d, e])
    f = cx.read_file('a.uff')
    u = cx.pyuff.UFF(cx.path('a.uff'))
    h = u.read_sets(header_only=True) if how == 'all' else [u.read_sets(0, header_only=True), u.read_sets(1, True)]
    r = u.read_sets()
    cx.check(len(h) == 2 and len(r) == 2, 'number of sets')
    if is58(kind):
        same(cx, h[0], r[0])
    else:
        v(cx, h[0])
        cx.check(sorted(str(q) for q in h[0]) == sorted(str(q) for q in r[0]), 'same fields')
    same(cx, h[1], r[1])
    v(cx, r[0])
    ve(cx, r[1])
    cx.check(cx.read_file('a.uff') == f, 'file unchanged')


def instances(tier):
    th = tier == 'thorough'
    out = []
    j = 0
    for binary in (False, True):
        for complex_ in (False, True):
            for even in (True, False):
                for double in (True, False):
                    for n in (1, 2, 4):
                        j += 1
                        out.append(('written', dict(n=n, binary=binary, complex_=complex_, even=even, double=double, L=[0, 1, 5, 3][j % 4] if not th else [0, 1, 5, 20][j % 4], ft=FUNC_TYPES[j % len(FUNC_TYPES)], setn=j % 2 == 0)))
    for neg in ('dirs', 'abscissa', 'z_axis'):
        out.append(('written', dict(n=1, binary=neg == 'dirs', complex_=False, even=True, double=True, L=3, neg=neg)))
    if th:
        for ft in range(28):
            out.append(('written', dict(n=2, binary=ft % 2 == 0, complex_=False, even=True, double=True, L=20, ft=ft)))
    st = [{'exp': 'e', 'eol': e, 'pad': p, 'delim': False} for e in ('\n', '\r\n') for p in ('none', 'full', 'trim')]
    for i, s in enumerate(st):
        for m in (0, 1, 3, 4) + ((5, 6) if th else ()):
            out.append(('foreign', dict(style=s, binary=True, m=m, where=('only', 'first', 'second')[(i + m) % 3], big=m % 2 == 0, even=i % 2 == 0, complex_=m == 4, double=i % 3 != 0)))
        for m, data in ((0, 'free'), (1, 'free'), (2, 'number'), (1, 'bytes'), (3, 'bytes')):
            out.append(('foreign', dict(style=s, binary=False, m=m, where=('only', 'first', 'second')[(i + m) % 3], data=data, even=i % 2 == 1, complex_=m == 1, double=i % 3 != 1)))
    for i, k in enumerate(LISTED):
        for j, n in enumerate((20, 60, 130, 300, 2500) + ((1000,) if th else ())):
            out.append(('large', dict(kind=k, n=n, how=('all', 'numbers')[(i + j) % 2])))
    for i, k in enumerate(KINDS):
        for how in ('all', 'numbers', 'list'):
            out.append(('kinds', dict(ks=(k,), how=how)))
        out.append(('kinds', dict(ks=(k, '58'), how=('all', 'numbers', 'list')[i % 3])))
        out.append(('kinds', dict(ks=('58b', k, '58'), how=('all', 'numbers', 'list')[(i + 1) % 3])))
    return out

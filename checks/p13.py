"""P13: the block scan finds exactly the sets the marker rule defines, for any bytes."""

BOUNDS = {'quick': 'every file of 0..15 arbitrary bytes; one or two delimiter lines with 2..5 arbitrary bytes before, between and after; every sequence of up to five segments out of 15 (delimiter forms that count and forms that '
                   'do not, type lines of every form, symbolic type numbers and bytes), with every separator',
          'thorough': 'as quick, 0..17 arbitrary bytes, six segments'}
ASSUMPTIONS = ['the marker rule as stated; set types as the integer in the first six columns of the second line, 0 when there is none']
M = b'    -1'
ANY = list(range(256))
# what matters to the scanner
KEY = [ord(' '), ord('-'), ord('1'), ord('\n'), ord('\r'), ord('b'), 0, 255]


def marks(cx, f):
    """The rule, independently of the implementation: offsets of the delimiters."""
    n = cx.length(f)
    out = []
    i = f.find(M)
    while i >= 0:
        if i + 6 == n or f[i + 6:i + 7] == b'\n' or f[i + 6:i + 7] == b'\r' or i + 80 <= n and f[i + 6:i + 80] == b' ' * 74:
            out.append(i)
        i = f.find(M, i + 1)
    return out


def second_line(cx, b):
    """Second line of a block (line ends LF, CR, CR-LF), the line end excluded; None if there is none."""
    lines = b.splitlines()
    return lines[1] if len(lines) > 1 else None


def set_type(cx, line):
    """Type and format of a block by its second line."""
    if line is None:
        return 0, 0
    try:
        t = cx.int_of(line[0:6])
    except ValueError:
        return 0, 0
    c = line[6:7]
    return t, 1 if cx.length(line) > 6 and (c == b'b' or c == b'B') else 0


def check_scan(cx, f, extents=False):
    cx.write_file('a.uff', f)
    u = cx.pyuff.UFF(cx.path('a.uff'))
    m = marks(cx, f)
    n = len(m) // 2
    cx.check_eq(u.get_n_sets(), n, 'number of sets')
    cx.check(u.get_status() is True, 'status')
    if u.get_n_sets() != n:
        cx.stop()
    want = [set_type(cx, second_line(cx, f[m[2 * k]:m[2 * k + 1]])) for k in range(n)]
    cx.check_eq(u.get_set_types(), [t for t, _ in want], 'types')
    cx.check_eq(u.get_set_formats(), [b for _, b in want], 'formats')
    cx.check(u.refresh() is True, 'refresh')
    cx.check_eq(u.get_n_sets(), n, 'number of sets again')
    cx.check_eq(u.get_set_types(), [t for t, _ in want], 'types again')
    cx.check(cx.read_file('a.uff') == f, 'file unchanged')


def raw(cx, n):
    check_scan(cx, cx.bytestr('f', n, ANY))


def around(cx, a, b, c, pads, ends, key=True):
    """Free bytes before, between and after delimiters."""
    al = KEY if key else ANY
    check_scan(cx, cx.cat([cx.bytestr('a', a, al), M, b' ' * pads, ends.encode(), cx.bytestr('b', b, al), M, b' ' * pads, cx.bytestr('c', c, al)]))


def typed(cx, w, suffix, eol, pad):
    """Symbolic bytes in the type field."""
    f = cx.cat([M, b' ' * pad, eol.encode(), cx.bytestr('t', w, ANY), suffix.encode(), eol.encode(), b'text', eol.encode(), M, eol.encode()])
    check_scan(cx, f)


def numbered(cx, n, eol, b):
    """n sets with symbolic type numbers and formats."""
    ps = []
    for k in range(n):
        ps += [M, eol.encode(), cx.fmt('%6i', cx.int('t%d' % k, -99999 if k == 0 else 0, 999999)).encode('utf-8'), [b'', b'b', b'B', b' b', b'x'][(k + b) % 5], b' 1  2', eol.encode(),
               cx.bytestr('c%d' % k, 2, [ord('a'), ord('1'), ord('-'), 255]), eol.encode(), M, eol.encode()]
    check_scan(cx, cx.cat(ps))


def many(cx, n, eol, width):
    """Many sets with contents of many lines; types and formats symbolic in the first and the last two."""
    ps = []
    e = eol.encode()
    for k in range(n):
        s = k == 0 or k >= n - 2
        t = cx.fmt('%6i', cx.int('t%d' % k, 0, 999999)).encode('utf-8') if s else b'%6d' % (k * 37 % 3000)
        ps += [M, b' ' * 74 if k % 3 == 1 else b'', e, t, [b'', b'b', b' '][k % 3], e]
        ps += [b' ' * (j % 7) + b'-1.5 -1' + e for j in range(width * (k % 5))]
        ps += [cx.bytestr('c%d' % k, 2, [ord('a'), ord('1'), ord('-'), 255]) if s else b'x', e, M, e] + [b'between' + e] * (k % 2)
    check_scan(cx, cx.cat(ps))


SEGS = ['    -1\n', '    -1\r\n', '    -1' + 74 * ' ' + '\n', '    -1' + 73 * ' ' + '\n', '    -1x\n', '   -1\n', '    -1 \n', '    58\n', '    58b     1     2\n', '   151' + 74 * ' ' + '\r\n', 'abc\n', '\n',
        '  2411B\n', '    -1', '  77']


def segments(cx, n, first):
    """Any sequence of n segments (the first ones given)."""
    ss = [SEGS[i] for i in first] + [cx.choice('s%d' % k, SEGS) for k in range(len(first), n)]
    check_scan(cx, cx.cat([s.encode() for s in ss]))


def extent(cx, pre, post, eol, pad, wide):
    """The content between the delimiters is what is read, nothing else."""
    e = eol.encode()
    t = cx.text('m', 3)
    d = b' ' * 74 if wide else b''
    blk = [M, d, e, b'   151', b' ' * pad, e, t.encode('utf-8'), b' ' * pad, e, b'desc', e, b'app', e, b'01-01-20  10:10:10           1         2         3', e, b'02-01-20  10:10:10  ', e, b'prog', e,
           b'03-01-20  10:10:11', e, M, d, e]
    f = cx.cat([cx.bytestr('p', pre, [ord('a'), ord(' '), ord('\n'), ord('1')])] + blk + [cx.bytestr('q', post, [ord('a'), ord(' '), ord('\r'), ord('1')])] + blk)
    cx.write_file('a.uff', f)
    u = cx.pyuff.UFF(cx.path('a.uff'))
    cx.check_eq(u.get_set_types(), [151, 151], 'types')
    for k in (0, 1):
        r = u.read_sets(k)
        cx.check_eq(cx.get(r, 'model_name'), t, 'model_name')
        cx.check_eq(cx.get(r, 'description'), 'desc', 'description')
        cx.check_eq(cx.get(r, 'time_file_written'), '10:10:11', 'time_file_written')


def instances(tier):
    out = []
    q = tier == 'quick'
    for n in range(16 if q else 18):
        out.append(('raw', dict(n=n)))
    for pads in (0, 73, 74, 75):
        for ends in ('\n', '\r\n', ''):
            out.append(('around', dict(a=1, b=2, c=1, pads=pads, ends=ends)))
    for a, b, c in ((3, 0, 3), (0, 3, 0), (2, 2, 2), (0, 0, 4)) if q else ((4, 0, 4), (0, 4, 0), (3, 3, 2), (0, 0, 6)):
        out.append(('around', dict(a=a, b=b, c=c, pads=0, ends='\n', key=False)))
        out.append(('around', dict(a=a, b=b, c=c, pads=74, ends='\n', key=False)))
    for w in (0, 1, 2, 3):
        for suf in ('', '   58b'[w:], '   58'[w:], '  1 '[w:]):
            for eol in ('\n', '\r\n'):
                out.append(('typed', dict(w=w, suffix=suf, eol=eol, pad=0 if w % 2 else 74)))
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for eol in ('\n', '\r\n', '\r'):
            out.append(('numbered', dict(n=n, eol=eol, b=n)))
    out.append(('numbered', dict(n=4, eol='\n', b=0)))
    for n, w in ((10, 3), (40, 1), (101, 1), (12, 100)) + (() if q else ((300, 1), (20, 500))):
        for eol in ('\n', '\r\n'):
            out.append(('many', dict(n=n, eol=eol, width=w)))
    for i in range(len(SEGS)):
        out.append(('segments', dict(n=3, first=[i])))
        if i in (0, 2, 13):
            for j in range(len(SEGS)):
                out.append(('segments', dict(n=4 if q else 5, first=[i, j])))
                if j in (8, 9):
                    for k in range(len(SEGS)):
                        out.append(('segments', dict(n=5, first=[i, j, k])))
    for eol in ('\n', '\r\n', '\r'):
        for wide in (False, True):
            out.append(('extent', dict(pre=2, post=2, eol=eol, pad=0, wide=wide)))
            out.append(('extent', dict(pre=0, post=0, eol=eol, pad=30, wide=wide)))
    return out

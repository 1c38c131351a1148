"""P08: binary set 58b payload and byte count are exact."""
from checks.common import read_all, with_long, LONG
from checks.f58 import samples, base58, check_x

BOUNDS = with_long({'quick': 'real/complex x even/uneven x single/double (forced or by ord_data_type) x add/overwrite on a file that is missing, empty, or holds an ASCII set, a binary set or both; 1..3 '
                   'symbolic points (every finite normal double with line breaks among the payload bytes at every position, two at most), and up to 40 points with the first or '
                   'last symbolic; abscissa: even start/step constants, uneven symbolic',
          'thorough': 'as quick, 1..4 fully symbolic points, every length to 20'})
ASSUMPTIONS = ['payload bytes do not contain a delimiter line (see known finding K2 and the instance k2)',
               'the byte encoding of a double is an uninterpreted injective function of it; at most two payload bytes are line breaks on one path']


def line_end(cx, data, n):
    """Offset after the n-th line feed."""
    p = 0
    for _ in range(n):
        p = data.find(b'\n', p) + 1
    return p


def prior(cx, u, what):
    a = {'type': 151, 'model_name': 'm', 'description': 'd', 'db_app': 'p', 'program': 'p', 'date_db_created': '01-01-20', 'time_db_created': '10:10:10'}
    b = base58(cx, [1.0, 2.0, 3.0], [0.0, 0.5, 1.0], True, False, binary=1)
    if what == 'empty':
        cx.write_file('a.uff', b'')
    if what in ('ascii', 'both'):
        u.write_sets(a)
    if what in ('binary', 'both'):
        u.write_sets(b)
    return {'none': 0, 'empty': 0, 'ascii': 1, 'binary': 1, 'both': 2}[what]


def points(cx, n, sym, complex_, even, single):
    if n <= sym:
        data = samples(cx, n, complex_, small=False, single=single)
        xs = [0.25 + 0.5 * k for k in range(n)] if even else [cx.single('x%d' % k) if single else cx.real('x%d' % k, small=False) for k in range(n)]
    else:
        data = [cx.cplx(k + 0.5, -k - 0.25) if complex_ else (-1.0) ** k * (k + 0.125) for k in range(n)]
        e = samples(cx, 1, complex_, small=False, single=single)
        data[0 if n % 2 else -1] = e[0]
        xs = [0.25 + 0.5 * k if even else 0.25 * k * k for k in range(n)]
    return data, xs


def rt58b(cx, n, complex_, even, double, force, mode, before='none', sym=3, k2=False, stale=False):
    u = cx.pyuff.UFF(cx.path('a.uff'))
    n0 = prior(cx, u, before)
    if mode == 'overwrite':
        n0 = 0
    old = cx.read_file('a.uff') if n0 else b''
    dbl = double or force
    data, xs = points(cx, n, sym, complex_, even, not dbl)
    if k2:
        cx.payload_markers()
    d = base58(cx, data, xs, even, complex_, double, binary=1, n_bytes=0, id1='payload')
    if stale:                                               # the type the data had before
        d['ord_data_type'] = (4 if double else 2) if complex_ else (6 if double else 5)
    if force:
        d['ord_data_type'] = 5 if complex_ else 2
    if k2:
        vals = []
        for k in range(n):
            vals += [] if even else [xs[k]]
            vals += [data[k].real, data[k].imag] if complex_ else [data[k]]
        pl = cx.cat([cx.pack('<d' if dbl else '<f', v) for v in vals])
        cx.known_finding('K2', cx.any([pl.find(b'    -1\n') >= 0, pl.find(b'    -1\r') >= 0]))
    u.write_sets(d, mode=mode, force_double=force)
    # the file
    f = cx.read_file('a.uff')
    cx.check(f[:len(old)] == old, 'earlier sets in place')
    f = f[len(old):]
    h = line_end(cx, f, 13)
    size = 8 if dbl else 4
    per = (2 if complex_ else 1) + (0 if even else 1)
    total = cx.length(f)
    cx.check_eq(f[total - 7:], b'    -1\n', 'closing delimiter')
    cx.check_eq(total - 7 - h, n * per * size, 'payload bytes')
    l2 = line_end(cx, f, 1)
    head = f[l2:line_end(cx, f, 2) - 1].decode('ascii')
    cx.check_eq(head[:7], '    58b', 'binary mark')
    cx.check_eq(cx.int_of(head[7:13]), 1, 'byte ordering')
    cx.check_eq(cx.int_of(head[13:19]), 2, 'IEEE')
    cx.check_eq(cx.int_of(head[19:31]), 11, 'header records')
    cx.check_eq(cx.int_of(head[31:43]), n * per * size, 'announced bytes')
    l = line_end(cx, f, 8)
    cx.check_eq(cx.int_of(f[l:l + 10]), (6 if complex_ else 4) if dbl else (5 if complex_ else 2), 'announced precision')
    cx.check_eq(cx.get(d, 'n_bytes'), n * per * size, 'n_bytes of the caller')
    # reading
    for r in (read_all(cx),):
        cx.check(len(r) == n0 + 1, 'number of sets')
        if len(r) != n0 + 1:
            cx.stop()
        r = r[-1]
        cx.check_eq(cx.get(r, 'binary'), 1, 'binary')
        cx.check_eq(cx.get(r, 'n_bytes'), n * per * size, 'n_bytes')
        cx.check_eq(cx.get(r, 'id1'), 'payload', 'id1')
        cx.check_eq(cx.get(r, 'ord_data_type'), (6 if complex_ else 4) if dbl else (5 if complex_ else 2), 'ord_data_type')
        cx.check_close(cx.get(r, 'data'), data, 'data', None)
        if even:
            cx.check_close(cx.get(r, 'x'), xs, 'x', 5)
        else:
            cx.check_close(cx.get(r, 'x'), xs, 'x', None)


def instances(tier):
    out = []
    sym = 2 if tier == 'quick' else 4
    befores = ['none', 'empty', 'ascii', 'binary', 'both']
    i = 0
    ns = [1, 2, 3, 4, 5, 12, 40] if tier == 'quick' else list(range(1, 21)) + [40, 100]
    for c in (False, True):
        for e in (True, False):
            for prec in ('force', 'double', 'single'):
                for n in ns:
                    if tier == 'quick' and n > 1 and prec == 'double':
                        continue
                    per = (2 if c else 1) + (0 if e else 1)
                    out.append(('rt58b', dict(n=n, complex_=c, even=e, double=prec == 'double', force=prec == 'force',
                                              mode='overwrite' if i % 2 else 'add', before=befores[i % 5], sym=max(0 if tier == 'quick' and per == 3 and prec != 'force' else 1, sym + 1 - per)),
                                dict(max_paths=400, seconds=90 if per == 3 else 60)))
                    i += 1
    for i, n in enumerate(LONG[tier]):
        for c in (False, True):
            for e in (True, False):
                if tier != 'quick' or (i + c + 2 * e) % 2 == 0 or n > 48:
                    out.append(('rt58b', dict(n=n, complex_=c, even=e, double=False, force=(i + c + e) % 2 == 0, mode='add' if i % 3 else 'overwrite', before=befores[i % 5], sym=0)))
    # more points than a 16-bit counter holds
    out += [('rt58b', dict(n=12000 if c else 70000, complex_=c, even=not c, double=False, force=c, mode='add', before='none', sym=0), dict(seconds=100, max_paths=2)) for c in (False, True)]
    for c in (False, True):
        for dbl in (True, False):
            for e in (True, False):
                out.append(('rt58b', dict(n=2, complex_=c, even=e, double=dbl, force=False, mode='add', before='none', sym=0, stale=True)))
    for b in befores:
        for m in ('add', 'overwrite'):
            out.append(('rt58b', dict(n=1, complex_=False, even=True, double=True, force=True, mode=m, before=b)))
    out.append(('rt58b', dict(n=1, complex_=False, even=True, double=True, force=True, mode='add', k2=True)))
    return out

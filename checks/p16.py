"""P16: written records obey the documented column layout."""
from checks.common import LONG, ints, reals
from checks.f58 import samples, base58, header, FUNC_TYPES
from checks import layout
from checks.sets import make, KINDS, LISTED, set_type
from checks.p04 import element
from checks.p05 import data55
from checks.p11 import group

BOUNDS = {'quick': 'every kind of set with symbolic content (1 and 2 members), and the size variations: 15, 2411, 18, 2420 with 0..3 members, 82 with 0..9 and 17 nodes, 55 in every analysis and data type, '
                   '58 real/complex x even/uneven x single/double with 1..9 points and every header field symbolic, the header of 58b, 2412 with 1..17 nodes per element and beams, 2414 '
                   'with data at nodes, on elements and at nodes on elements, 2429 and 2467 with 0..9 entities in two groups; sets of 10..257 members of which the first and the last two are symbolic',
          'thorough': 'as quick with longer data'}
ASSUMPTIONS = ['the column layout is the one of the published formats as pyuff documents them (get_structure_*), written down in checks/layout.py; 2420 records 1 and 3 hold the fields pyuff documents for its '
               'dictionary (part number; label, type, colour)', 'values fit their columns (full columns for integers where only columns separate them)']


def written(cx, kind, d, recs, before=None, **kw):
    u = cx.pyuff.UFF(cx.path('a.uff'))
    u.write_sets(d, **kw)
    data = cx.read_file('a.uff')
    if kind == '58b':
        return data
    lines = layout.split(cx, data, kind)
    cx.check(len(lines) >= 3, kind + ' has delimiters')
    if len(lines) < 3:
        cx.stop()
    cx.check_eq(lines[0], '    -1', kind + ' opening delimiter')
    cx.check_eq(lines[-1], '    -1', kind + ' closing delimiter')
    cx.check_eq(cx.int_of(lines[1][:6]), set_type(kind), kind + ' type in columns 1-6')
    cx.check_eq(lines[1][6:].strip(), '', kind + ' nothing after the type')
    cx.check(cx.length(lines[1]) <= 80, kind + ' type line of at most 80 columns')
    layout.check_records(cx, lines[2:-1], recs, kind)


def any_kind(cx, kind, n, long=False, mode='add'):
    d, _ = make(cx, kind, 'a', n, long=long)
    if kind == '58':
        for k, v in header(cx, 3, func_type=1).items():
            d[k] = v
    kw = {'complex_': False} if kind == '55' else {'complex_': False, 'even': True, 'double': True} if kind == '58' else {}
    w = dict(d)
    if mode != 'add':
        cx.write_file('a.uff', b'anything\n    -1\n')
    written(cx, kind, d, layout.body(cx, kind, w, **kw), mode=mode)


def lists(cx, kind, n, wide):
    """15, 2411, 18, 2420 with n members; integers over the full columns where wide."""
    hi = 9999999999 if wide else 999999999

    def il(k):
        return ints(cx, k, n, 0, hi)

    def fl(k, m=1):
        return reals(cx, k, n, small=False)
    if kind in ('15', '2411'):
        d = {'type': int(kind), 'node_nums': il('n'), 'def_cs': il('d'), 'disp_cs': il('p'), 'color': il('c'), 'x': fl('x'), 'y': fl('y'), 'z': fl('z')}
    elif kind == '18':
        d = {'type': 18, 'cs_num': il('n'), 'cs_type': il('t'), 'ref_cs_num': il('r'), 'color': il('c'), 'method': il('m'), 'cs_name': [cx.text('s%d' % k, 40 - k) for k in range(n)]}
        for k in ('ref_o', 'x_point', 'xz_point'):
            d[k] = [reals(cx, '%s%d' % (k, j), 3, small=False) for j in range(n)]
    else:
        d = {'type': 2420, 'Part_UID': cx.int('u', 0, hi), 'Part_Name': cx.text('p', 40), 'CS_sys_labels': il('l'), 'CS_types': il('t'), 'CS_colors': il('c'),
             'CS_names': [cx.text('s%d' % k, 40 - k) for k in range(n)], 'CS_matrices': [cx.array([reals(cx, 'm%d_%d' % (j, a), 3, small=False) for a in range(4)], 'float64') for j in range(n)]}
    written(cx, kind, d, layout.body(cx, kind, dict(d)))


def trace(cx, n):
    d = {'type': 82, 'trace_num': cx.int('t', 0, 9999999999), 'color': cx.int('c', 0, 9999999999), 'id': cx.text('id', 80), 'nodes': ints(cx, 'n', n, 0, 9999999999)}
    written(cx, '82', d, layout.body(cx, '82', dict(d)))


def nodes55(cx, at, complex_, comps, n):
    d, want = data55(cx, at, complex_, comps, n, 'array' if n % 2 == 0 else 'list', 20)
    written(cx, '55', d, layout.body(cx, '55', want, complex_=complex_))


def f58(cx, n, complex_, even, double, ft=1, neg=None, lens=20):
    data = samples(cx, n, complex_, small=False)
    xs = [cx.real('x0', small=False) if k == 0 else 0.5 * k for k in range(n)] if even else reals(cx, 'x', n, small=False)
    d = base58(cx, data, xs, even, complex_, double)
    d.update(header(cx, lens, func_type=ft, neg=neg))
    w = dict(d, data=data, x=xs)
    written(cx, '58', d, layout.body(cx, '58', w, complex_=complex_, even=even, double=double), force_double=False)


def f58b(cx, n, complex_, even, double):
    """The header of a binary set; its payload is the subject of P08."""
    data = [cx.cplx(k + 0.5, -k - 0.25) if complex_ else (-1.0) ** k * (k + 0.125) for k in range(n)]
    xs = [0.25 + 0.5 * k if even else 0.25 * k * k for k in range(n)]
    d = base58(cx, data, xs, even, complex_, double, binary=1)
    d.update(header(cx, 10))
    f = written(cx, '58b', d, None, force_double=False)
    size = n * ((2 if complex_ else 1) + (0 if even else 1)) * (8 if double else 4)
    ls = []
    p = 0
    for _ in range(13):
        q = f.find(b'\n', p)
        ls.append(f[p:q].decode('utf-8'))
        p = q + 1
    cx.check_eq(ls[0], '    -1', 'opening delimiter')
    recs = [[layout.I(6, 58), layout.A(1, 'b'), layout.I(6, 1), layout.I(6, 2), layout.I(12, 11), layout.I(12, size), layout.I(6, 0), layout.I(6, 0), layout.I(12, 0), layout.I(12, 0)]]
    recs += layout.head58(cx, dict(d, data=data, x=xs), complex_, even, double)
    layout.check_records(cx, ls[1:], recs, '58b')
    cx.check_eq(cx.length(f) - p, size + 7, 'payload and closing delimiter')
    cx.check_eq(f[p + size:], b'    -1\n', 'closing delimiter')


def elements(cx, els):
    d = {'type': 2412}
    for k, (fe, nn) in enumerate(els):
        d.setdefault(fe, []).append(element(cx, k, fe, nn))
    written(cx, '2412', d, layout.body(cx, '2412', dict(d)))


def two_groups(cx, t, a, b):
    gs = [group(cx, t, i, n, 'array' if n % 2 else 'list', 40 - i) for i, n in enumerate((a, b))]
    d = {'type': t, 'groups': [g for g, _, _ in gs]}
    written(cx, str(t), d, layout.body(cx, str(t), {'groups': [w for _, w, _ in gs]}))


def analysis(cx, at, loc, nv, n):
    I10 = 9999999999
    d = {'type': 2414, 'analysis_dataset_label': cx.int('label', 0, I10), 'analysis_dataset_name': cx.text('name', 40), 'dataset_location': loc, 'analysis_type': at, 'data_type': 5 if at == 5 else 2,
         'number_of_data_values_for_the_data_component': nv}
    for k in range(1, 6):
        d['id%d' % k] = cx.text('id%d_' % k, 80)
    for k in ('model_type', 'data_characteristic', 'result_type'):
        d[k] = cx.int(k, 0, I10)
    if at == 5:
        for k in layout.R10 + layout.R11:
            d[k] = cx.int(k, 0, I10)
        for k in layout.R12 + layout.R13:
            d[k] = cx.real(k, small=False)
        d['node_nums'] = cx.array(ints(cx, 'n', n, 0, I10), 'int64')
        for k in 'xyz'[:nv]:
            d[k] = cx.array([cx.cplx(a, b) for a, b in zip(reals(cx, k + 'r', n, small=False), reals(cx, k + 'i', n, small=False))], 'complex128')
    else:
        for r in (10, 11):
            for f in range(1, 9):
                d['record%d_field%d' % (r, f)] = cx.int('r%d_%d' % (r, f), 0, I10)
        for r in (12, 13):
            for f in range(1, 7):
                d['record%d_field%d' % (r, f)] = cx.real('r%d_%d' % (r, f), small=False)
        e = ints(cx, 'e', n, 0, I10)
        d['node_nums' if loc == 1 else 'element_nums'] = cx.array(e, 'int64')
        if loc in (1, 2):
            d['data_at_node' if loc == 1 else 'data_at_element'] = [reals(cx, 'v%d_' % i, nv, small=False) for i in range(n)]
        else:
            for k in ('IEXP', 'number_of_nodes', 'number_of_values_per_node'):
                d[k] = cx.array([1 if k == 'IEXP' else 3 if k == 'number_of_nodes' else nv] * n, 'int64')
            d['data_at_nodes_on_element'] = [[reals(cx, 'v%d_%d' % (i, j), nv, small=False) for j in range(3)] for i in range(n)]
    written(cx, '2414', d, layout.body(cx, '2414', dict(d)))


def instances(tier):
    q = tier == 'quick'
    out = []
    for k in KINDS:
        if k not in ('55', '58b'):
            out += [('any_kind', dict(kind=k, n=1)), ('any_kind', dict(kind=k, n=2)), ('any_kind', dict(kind=k, n=1, mode='overwrite'))]
    for k in ('15', '2411', '18', '2420'):
        for n in range(4) if q else range(8):
            out.append(('lists', dict(kind=k, n=n, wide=True)))
    for n in [0, 1, 5, 7, 8, 9, 16, 17] if q else range(34):
        out.append(('trace', dict(n=n)))
    for at in (2, 3, 5, 7):
        for c, comps in ((False, 3), (False, 6), (True, 3)):
            for n in (1, 2) if q else range(5):
                out.append(('nodes55', dict(at=at, complex_=c, comps=comps, n=n)))
    i = 0
    for c in (False, True):
        for e in (True, False):
            for dbl in (True, False):
                for n in range(1, 10) if q else range(1, 27):
                    out.append(('f58', dict(n=n, complex_=c, even=e, double=dbl, ft=FUNC_TYPES[i % 7], lens=(3, 10, 20, 40, 80)[i % 5])))
                    i += 1
                for n in (1, 3) if q else (1, 2, 3, 7, 20):
                    out.append(('f58b', dict(n=n, complex_=c, even=e, double=dbl)))
    for neg in ('dirs', 'abscissa', 'ordinate', 'orddenom', 'z_axis'):
        out.append(('f58', dict(n=1, complex_=False, even=True, double=True, neg=neg, lens=3)))
    for nn in (1, 7, 8, 9, 16, 17) if q else range(1, 33):
        out.append(('elements', dict(els=[[116, nn], [44, 4], [116, nn]])))
    for fe in layout.BEAMS:
        out.append(('elements', dict(els=[[fe, 2], [fe, 3], [41, 3]])))
    for t in (2429, 2467):
        for a in range(6) if q else range(10):
            out.append(('two_groups', dict(t=t, a=a, b=(3 * a + 1) % 10)))
    for n in (1, 2):
        for nv in (1, 2, 3):
            out.append(('analysis', dict(at=5, loc=1, nv=nv, n=n)))
        for nv in (1, 3, 6, 7, 12, 13):
            for loc in (1, 2):
                out.append(('analysis', dict(at=(1, 2, 3, 4, 6, 7)[nv % 6], loc=loc, nv=nv, n=n)))
        for nv in (1, 3, 6):
            out.append(('analysis', dict(at=1, loc=3, nv=nv, n=n)))
    for k in LISTED:
        if k != '58b':
            for n in LONG[tier][::4 if tier == 'quick' else 1]:
                out.append(('any_kind', dict(kind=k, n=n, long=True)))
    return out

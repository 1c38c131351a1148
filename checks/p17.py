"""P17: files laid out by the published formats are read correctly."""
from checks.common import LONG, ints, reals, read_all
from checks.f58 import samples, base58, header, check_x, FUNC_TYPES
from checks import layout
from checks.sets import make, KINDS, LISTED, set_type
from checks.p04 import element
from checks.p05 import data55
from checks.p11 import group

BOUNDS = {'quick': 'files rendered by an independent column writer: every kind of set with symbolic content in 24 styles (exponent E, e, D, d x LF, CR-LF x lines as formatted, padded to 80 columns, trailing blanks trimmed, '
                   'delimiters plain or padded), alone and between two sets of an unsupported type; 58 real/complex x even/uneven x single/double with 1..9 and 13 points; 58b with 1..3 points in either byte order, '
                   'precision, with nothing, LF or CR-LF between payload and delimiter; 55 in every analysis and data type with 1..3 nodes; 82 with 0..16 nodes, last record filled with zeros or not; 2412 with 1..20 nodes '
                   'per element and all beams; 2429 and 2467 with 0..9 entities in two groups; extra fields of 2420; optional fields at the end of records of 58, 151, 164 and 2414 left out in every combination; ten '
                   'notations of a real number in ten kinds of sets; sets of 10..257 members',
          'thorough': 'as quick, 58 with 1..26 points and every style'}
ASSUMPTIONS = ['column layout as in checks/layout.py', 'D and d exponents only in sets whose documented format is a D format (164, 2411, 2420)', 'integers of records without implied columns (15, 2411, 2412, 2420, 82) are separated by a blank',
               'samples of binary sets are constants except one symbolic sample (thorough tier); P08 varies them']
# sets whose format has D exponents
DFORM = ('2411', '2420', '164')


def render(cx, kind, recs, style, typeline=None):
    """The bytes of one set whose records hold the fields in recs."""
    exp, eol, pad, delim = style['exp'], style['eol'], style['pad'], style['delim']
    if exp in 'Dd' and kind not in DFORM:
        exp = 'E'
    lines = []
    for rec in recs:
        s = ''
        w = 0
        for code, width, value, prec in rec:
            if code == 'I':
                s = s + cx.fmt('%%%di' % width, value)
            elif code == 'E':
                s = s + cx.fmt('%%%d.%de' % (width, prec), value).replace('e', exp)
            elif code == 'A':
                s = s + cx.fmt('%%-%ds' % width, value)
            else:
                s = s + ' ' * width
            w += width
        if pad == 'full':
            s = s + ' ' * (80 - w)
        elif pad == 'trim':
            s = s.rstrip()
        lines.append(s)
    mark = '    -1' + (' ' * 74 if delim else '')
    t = typeline or '%6d' % set_type(kind)
    head = t + ' ' * (80 - len(t)) if pad == 'full' else t
    return cx.cat([x.encode('utf-8') for l in [mark, head] + lines + [mark] for x in (l, eol)])


def styles():
    out = []
    for i, (exp, eol, pad) in enumerate([(e, l, p) for l in ('\n', '\r\n') for p in ('none', 'full', 'trim') for e in 'EeDd']):
        out.append({'exp': exp, 'eol': eol, 'pad': pad, 'delim': i % 3 == 1})
    return out


def load(cx, parts):
    cx.write_file('a.uff', cx.cat(parts))
    return cx.pyuff.UFF(cx.path('a.uff'))


def other(cx, eol):
    """A set of a type that is not supported."""
    return cx.cat([b'    -1', eol.encode(), b'   757', eol.encode(), b'   3  1.5 -1 -12', eol.encode(), cx.bytestr('c', 5, [ord(' '), ord('1'), ord('.')]), eol.encode(), b'    -1', eol.encode()])


def any_kind(cx, kind, n, style, around=False, long=False):
    d, verify = make(cx, kind, 'a', n, long=long)
    kw = {'complex_': False} if kind == '55' else {'complex_': False, 'even': True, 'double': True, 'inc': 0.5} if kind == '58' else {}
    if kind == '58':
        d = dict(header(cx, 0), **d)
        for k in ('id2', 'id3', 'id5'):
            d[k] = 'NONE'
    raw = render(cx, kind, layout.body(cx, kind, d, **kw), style)
    o = other(cx, style['eol']) if around else b''
    u = load(cx, [o, raw, o, raw] if around else [raw])
    if not around:
        cx.check_eq(u.get_set_types(), [set_type(kind)], 'types')
        verify(cx, u.read_sets())
        return
    cx.check_eq(u.get_set_types(), [757, set_type(kind), 757, set_type(kind)], 'types')
    r = u.read_sets()
    cx.check(isinstance(r, list) and len(r) == 4, 'four sets')
    for k in (1, 3):
        verify(cx, r[k])


def f58(cx, n, complex_, even, double, style, ft=1):
    data = samples(cx, n, complex_, small=False)
    x0 = cx.real('xmin', small=False) if even else None
    xs = [x0 + 0.5 * k for k in range(n)] if even else reals(cx, 'x', n)
    d = base58(cx, data, xs, even, complex_, double)
    d.update(header(cx, 3, func_type=ft))
    w = dict(d, data=data, x=xs)
    raw = render(cx, '58', layout.body(cx, '58', w, complex_=complex_, even=even, double=double, inc=0.5), style)
    u = load(cx, [raw])
    r = u.read_sets()
    check58(cx, r, d, n, complex_, even, double)
    cx.check_close(cx.get(r, 'data'), data, 'data', 11 if double else 5)
    if even:
        cx.check_close(cx.get(r, 'abscissa_min'), x0, 'abscissa_min', 5)
        cx.check_close(cx.get(r, 'abscissa_inc'), 0.5, 'abscissa_inc', 5)
        check_x(cx, r, xs, True, max(n, 2) if n > 1 else 1) if n > 1 else None
    else:
        check_x(cx, r, xs, False, n)


def check58(cx, r, d, n, complex_, even, double):
    for k in d:
        if k in ('data', 'x', 'z_axis_value', 'ord_data_type', 'binary', 'n_bytes'):
            continue
        cx.check_eq(cx.get(r, k), d[k], k)
    cx.check_eq(cx.get(r, 'ord_data_type'), (6 if complex_ else 4) if double else (5 if complex_ else 2), 'ord_data_type')
    cx.check_eq(cx.get(r, 'num_pts'), n, 'num_pts')
    cx.check_close(cx.get(r, 'z_axis_value'), d['z_axis_value'], 'z_axis_value', 5)


def f58b(cx, n, complex_, even, double, style, big, tail, mark='b', sym=True):
    """A binary set of another program: byte order, line ends of the header, what stands between payload and closing delimiter."""
    fix = lambda k: [1.5, -2.25, 0.125, 3.0, -0.5, 7.75][k % 6] * (1 + k // 6)
    data = [cx.cplx(fix(2 * k), fix(2 * k + 1)) if complex_ else fix(k) for k in range(n)]
    if sym:
        v = cx.real('v', small=False) if double else cx.single('v')
        data[n // 2] = cx.cplx(v, -0.25) if complex_ else v
    xs = [0.25 + 0.5 * k if even else 0.25 * k * k for k in range(n)]
    d = base58(cx, data, xs, even, complex_, double, binary=1)
    d.update(header(cx, 3))
    size = n * ((2 if complex_ else 1) + (0 if even else 1)) * (8 if double else 4)
    t = '    58%s%6d%6d%12d%12d%6d%6d%12d%12d' % (mark, 2 if big else 1, 2, 11, size, 0, 0, 0, 0)
    eol = style['eol']
    head = render(cx, '58', layout.head58(cx, dict(d, data=data, x=xs), complex_, even, double, inc=0.5), dict(style, delim=False), t)
    n1 = cx.length(head)
    head = head[:n1 - 6 - len(eol)]
    body = cx.cat([cx.pack(('>' if big else '<') + ('d' if double else 'f'), v) for _, v in layout.values58(dict(d, data=data, x=xs), complex_, even)])
    u = load(cx, [head, body, tail.encode(), b'    -1', b' ' * 74 if style['delim'] else b'', eol.encode(), other(cx, '\n')])
    cx.check_eq(u.get_set_types(), [58, 757], 'types')
    cx.check_eq(u.get_set_formats(), [1, 0], 'formats')
    r = u.read_sets(0)
    check58(cx, r, d, n, complex_, even, double)
    cx.check_eq(cx.get(r, 'binary'), 1, 'binary')
    cx.check_eq(cx.get(r, 'n_bytes'), size, 'n_bytes')
    cx.check_close(cx.get(r, 'data'), data, 'data', None)
    cx.check_close(cx.get(r, 'x'), xs, 'x', None)


def nodes55(cx, at, complex_, comps, n, style):
    d, want = data55(cx, at, complex_, comps, n, 'list', 20)
    u = load(cx, [render(cx, '55', layout.body(cx, '55', want, complex_=complex_), style)])
    r = u.read_sets()
    for k in ('id1', 'id2', 'id3', 'id4', 'id5', 'model_type', 'analysis_type', 'data_ch', 'spec_data_type', 'load_case', 'mode_n', 'freq_step_n', 'node_nums'):
        if k in want:
            cx.check_eq(cx.get(r, k), want[k], k)
    for k in ('freq', 'modal_m', 'modal_damp_vis', 'modal_damp_his', 'eig', 'modal_a', 'modal_b') + tuple('r%d' % i for i in range(1, comps + 1)):
        if k in want:
            cx.check_close(cx.get(r, k), want[k], k, 5)


def trace(cx, n, fill, style):
    """fill: the last record is filled up with zeros."""
    nodes = ints(cx, 'n', n, 0, 999999999)
    if n:
        cx.assume(nodes[-1] > 0)
    rest = -n % 8 if fill else 0
    d = {'trace_num': cx.int('t', 0, 9999999999), 'color': cx.int('c', 0, 99), 'id': cx.text('id', 20), 'nodes': nodes + [0] * rest}
    recs = layout.body(cx, '82', d)
    recs[0][1] = layout.I(10, n)
    r = load(cx, [render(cx, '82', recs, style)]).read_sets()
    cx.check_eq(cx.get(r, 'nodes'), nodes, 'nodes')
    for k in ('trace_num', 'color', 'id'):
        cx.check_eq(cx.get(r, k), d[k], k)
    cx.check_eq(cx.get(r, 'n_nodes'), n, 'n_nodes')


def elements(cx, els, style):
    d = {'type': 2412}
    for k, (fe, nn) in enumerate(els):
        d.setdefault(fe, []).append(element(cx, k, fe, nn))
    r = load(cx, [render(cx, '2412', layout.body(cx, '2412', d), style)]).read_sets()
    for fe in d:
        if fe != 'type':
            g = cx.get(r, fe)
            cx.check(len(g) == len(d[fe]), 'number of elements')
            for a, b in zip(g, d[fe]):
                for k in b:
                    cx.check_eq(cx.get(a, k), b[k], k)


def complex2414(cx, loc, nv, n, iexp, style):
    """Complex data of set 2414: the counts of values are those of the complex values, the records hold twice as many numbers."""
    d, _ = make(cx, '2414g', 'c', 1)
    d.update(data_type=5 + nv % 2, dataset_location=loc, number_of_data_values_for_the_data_component=nv)
    key, dk = ('node_nums', 'data_at_node') if loc == 1 else ('element_nums', 'data_at_element' if loc == 2 else 'data_at_nodes_on_element')
    ids = ints(cx, 'e', n, 0, 999999999)
    rows = [1 if loc < 3 or (iexp + i) % 2 else 3 for i in range(n)]
    data = [[reals(cx, 'v%d_%d_' % (i, j), 2 * nv) for j in range(rows[i])] for i in range(n)]
    d[key], d[dk] = [], []
    for k in ('IEXP', 'number_of_nodes', 'number_of_values_per_node'):
        d[k] = []
    recs = layout.body(cx, '2414g', d)
    for i in range(n):
        recs.append([layout.I(10, ids[i])] + ([] if loc == 1 else [layout.I(10, nv)] if loc == 2 else [layout.I(10, 1 if rows[i] > 1 else 2), layout.I(10, 3), layout.I(10, nv)]))
        for v in data[i]:
            recs += layout.chunks([layout.E(13, x) for x in v], 6)
    r = load(cx, [render(cx, '2414', recs, style)]).read_sets()
    cx.check_eq(cx.get(r, key), ids, key)
    got = cx.get(r, dk)
    cx.check(len(got) == n, 'number of results')
    for i in range(n):
        g = got[i] if loc < 3 else [x for line in got[i] for x in line]
        want = [x for v in data[i] for x in v]
        cx.check(len(g) == len(want), 'number of values')
        if len(g) == len(want):
            cx.check_close(list(g), want, dk, 5)


def two_groups(cx, t, a, b, style):
    gs = [group(cx, t, i, n, 'list', 40 - i) for i, n in enumerate((a, b))]
    d = {'type': t, 'groups': [w for _, w, _ in gs]}
    r = load(cx, [render(cx, str(t), layout.body(cx, str(t), d), style)]).read_sets()
    got = cx.get(r, 'groups')
    cx.check(len(got) == 2, 'number of groups')
    for (g, w, keys), o in zip(gs, got):
        for k in ('group_number', 'group_name') + layout.SETS + keys:
            cx.check_eq(cx.get(o, k), w[k], k)


def extra2420(cx, n, style):
    """Records 1 and 3 with the second and fourth field of the documented formats (2I10) and (4I10) in use."""
    I9 = 999999999
    d = {'Part_UID': cx.int('u', 0, I9), 'Part_Name': cx.text('p', 10), 'CS_sys_labels': ints(cx, 'l', n, 0, I9), 'CS_types': ints(cx, 't', n, 0, 2), 'CS_colors': ints(cx, 'c', n, 0, I9),
         'CS_names': [cx.text('s%d' % k, 10) for k in range(n)], 'CS_matrices': [[reals(cx, 'm%d_%d' % (j, a), 3, small=False) for a in range(4)] for j in range(n)]}
    recs = layout.body(cx, '2420', d)
    recs[0] = recs[0] + [layout.I(10, cx.int('extra', 0, I9))]
    for k in range(n):
        recs[2 + 6 * k] = recs[2 + 6 * k] + [layout.I(10, cx.int('extra%d' % k, 0, I9))]
    r = load(cx, [render(cx, '2420', recs, style)]).read_sets()
    for k in d:
        if k != 'CS_matrices':
            cx.check_eq(cx.get(r, k), d[k], k)
    cx.check_close(cx.get(r, 'CS_matrices'), d['CS_matrices'], 'CS_matrices', None)


def omitted(cx, kind, style):
    """Optional fields at the end of a record left out: they read as zero or empty text."""
    if kind == '58':
        d = base58(cx, [1.0, 2.0], [0.0, 0.5], True, False, True)
        d.update(header(cx, 0))
        for k in ('id2', 'id3', 'id5'):
            d[k] = 'NONE'
        recs = layout.head58(cx, d, False, True, True, inc=0.5)
        keep = cx.int('keep', 4, 11).__index__()
        names = [None, None, None, None, None, 'rsp_ent_name', 'rsp_node', 'rsp_dir', None, 'ref_ent_name', 'ref_node', 'ref_dir']
        recs[5] = recs[5][:keep]
        want = dict(d)
        for j, k in enumerate(names):
            if k and j >= keep:
                want[k] = '' if 'name' in k else 0
        axis = cx.int('axis', 0, 3).__index__()
        full = cx.bool('units')
        a = layout.AXES[axis]
        recs[7 + axis] = recs[7 + axis][:6 if full else 4]
        want[layout.UNITS[a]] = ''
        if not full:
            want[layout.LAB[a]] = ''
        recs += [[layout.E(20, 1.0, 11), layout.E(20, 2.0, 11)]]
        r = load(cx, [render(cx, '58', recs, style)]).read_sets()
        check58(cx, r, want, 2, False, True, True)
        cx.check_close(cx.get(r, 'data'), [1.0, 2.0], 'data', None)
        return
    d, verify = make(cx, kind, 'a', 1)
    recs = layout.body(cx, kind, d)
    want = dict(d)
    if kind == '151':
        keep = cx.int('keep', 2, 4).__index__()
        recs[3] = recs[3][:keep]
        for j, k in enumerate(('version_db1', 'version_db2', 'file_type')):
            if 2 + j >= keep:
                want[k] = 0
        for i, k in ((4, 'time_db_saved'), (6, 'time_file_written')):
            if cx.bool(k + ' left out'):
                recs[i] = recs[i][:1]
                want[k] = ''
    elif kind == '164':
        keep = cx.int('keep', 1, 2).__index__()
        recs[0] = recs[0][:keep]
        want['temp_mode'] = 0
        if keep == 1:
            want['units_description'] = ''
    elif kind == '2414g':
        for i, n in ((9, 8), (10, 8), (11, 6), (12, 6)):
            keep = cx.int('keep%d' % i, 1, n - 1).__index__() if i in (9, 12) else n // 2
            for j in range(n):
                k = 'record%d_field%d' % (i + 1, j + 1)
                want[k] = recs[i][j][2] if j < keep else 0
            recs[i] = recs[i][:keep]
    r = load(cx, [render(cx, kind, recs, style)]).read_sets()
    for k in want:
        v = want[k]
        if kind == '2414g' and k in ('node_nums', 'data_at_node'):
            continue
        if k in ('length', 'force', 'temp', 'temp_offset') or k.startswith('record12') or k.startswith('record13'):
            cx.check_close(cx.get(r, k), v, k, 5 if k[:3] == 'rec' else None)
        else:
            cx.check_eq(cx.get(r, k), v, k)
    if kind == '2414g':
        cx.check_close(cx.get(r, 'data_at_node'), d['data_at_node'], 'data_at_node', 5)


NUMBERS = (('1.0', 1.0), ('-.5', -0.5), ('3.', 3.0), ('0.12500E+01', 1.25), ('-0.12500E-01', -0.0125), ('+1.5', 1.5), ('7', 7.0), ('0.0', 0.0), ('1.5E+0', 1.5), ('-2.5e3', -2500.0))


def notation(cx, kind, k):
    """Other ways to write a real number, right-justified in the field; one field of each record set so, the others symbolic."""
    d, verify = make(cx, kind, 'a', 1)
    kw = {'complex_': False} if kind == '55' else {'complex_': False, 'even': True, 'double': True, 'inc': 0.5} if kind == '58' else {}
    if kind == '58':
        d = dict(header(cx, 0), **d)
        for j in ('id2', 'id3', 'id5'):
            d[j] = 'NONE'
    s, v = NUMBERS[k]
    what = {'15': 'y', '2411': 'y', '55': 'r2', '58': 'data', '2420': 'CS_matrices', '164': 'force', '1858': 'z_order_value', '18': 'x_point', '2414': 'frequency', '2414g': 'record12_field1'}[kind]
    mark = object()
    d2 = dict(d)
    if kind in ('15', '2411', '55', '58'):
        d2[what] = [mark]
    elif kind == '2420':
        m = [[cx.real('q%d%d' % (a, b)) for b in range(3)] for a in range(4)]
        m[2][1] = mark
        d2[what] = [m]
    elif kind == '18':
        d2[what] = [[d[what][0][0], mark, d[what][0][2]]]
    else:
        d2[what] = mark
    recs = layout.body(cx, kind, d2, **kw)
    hit = 0
    for rec in recs:
        for j, f in enumerate(rec):
            if f[2] is mark:
                rec[j] = ('A', f[1], s.rjust(f[1]), 0)
                hit += 1
    cx.check(hit == 1, 'one field replaced')
    r = load(cx, [render(cx, kind, recs, dict(exp='E', eol='\n', pad='none', delim=False))]).read_sets()
    g = cx.get(r, what)
    g = g[0][2][1] if kind == '2420' else g[0][1] if kind == '18' else g[0] if kind in ('15', '2411', '55', '58') else g
    cx.check_close(g, v, what, None)


def instances(tier):
    q = tier == 'quick'
    out = []
    st = styles()
    for a, k in enumerate(KINDS):
        if k != '58b':
            for i, s in enumerate(st):
                if k not in DFORM and s['exp'] in 'Dd':
                    continue
                out.append(('any_kind', dict(kind=k, n=1 + (i + a) % 2, style=s)))
            out.append(('any_kind', dict(kind=k, n=2, style=st[a % len(st)], around=True)))
    i = 0
    E = [x for x in st if x['exp'] in 'Ee']

    def nxt():
        nonlocal i
        i += 1
        return E[i * 5 % len(E)]
    for loc in (1, 2, 3):
        for nv in (1, 2, 3, 4, 5, 6, 7, 9) if q else range(1, 20):
            for n in (1, 2) if q else (1, 2, 3):
                out.append(('complex2414', dict(loc=loc, nv=nv, n=n, iexp=(nv + n) % 2, style=nxt())))
    for c in (False, True):
        for e in (True, False):
            for dbl in (True, False):
                for n in [1, 2, 3, 4, 5, 6, 7, 8, 9, 13] if q else range(1, 27):
                    for s in [nxt(), nxt()] if q else E:
                        out.append(('f58', dict(n=n, complex_=c, even=e, double=dbl, style=s, ft=FUNC_TYPES[i % 7])))
                for n in (1, 2, 3):
                    for big in (False, True):
                        for tail in ('', '\n', '\r\n'):
                            out.append(('f58b', dict(n=n, complex_=c, even=e, double=dbl, style=nxt(), big=big, tail=tail, mark='bB'[i % 2], sym=n == 2 and tail == '' and not q)))
    for dbl in (False, True):
        for big in (False, True):
            out.append(('f58b', dict(n=2, complex_=False, even=True, double=dbl, style=nxt(), big=big, tail='')))
    for at in (2, 3, 5, 7):
        for c, comps in ((False, 3), (False, 6), (True, 3)):
            for n in (1, 2, 3):
                for s in [nxt(), nxt()] if q else E:
                    out.append(('nodes55', dict(at=at, complex_=c, comps=comps, n=n, style=s)))
    for n in (0, 1, 7, 8, 9, 15, 16):
        for fill in (False, True):
            out.append(('trace', dict(n=n, fill=fill, style=nxt())))
    for nn in (1, 7, 8, 9, 16, 17, 20):
        out.append(('elements', dict(els=[[116, nn], [44, 4], [116, nn]], style=nxt())))
    for fe in layout.BEAMS:
        out.append(('elements', dict(els=[[fe, 2], [fe, 3], [41, 3]], style=nxt())))
    for t in (2429, 2467):
        for a in range(6):
            out.append(('two_groups', dict(t=t, a=a, b=(3 * a + 1) % 10, style=nxt())))
    for n in (1, 2, 3):
        for s in st[n::6]:
            out.append(('extra2420', dict(n=n, style=s)))
    for k in ('58', '151', '164', '2414g'):
        for p in ('none', 'full', 'trim'):
            out.append(('omitted', dict(kind=k, style=dict(exp='E', eol='\r\n' if p == 'none' else '\n', pad=p, delim=False))))
    for k in ('15', '18', '55', '58', '164', '1858', '2411', '2414', '2414g', '2420'):
        for j in range(len(NUMBERS)):
            out.append(('notation', dict(kind=k, k=j)))
    for i, k in enumerate(LISTED):
        if k != '58b':
            for j, n in enumerate(LONG[tier][::5 if tier == 'quick' else 1]):
                out.append(('any_kind', dict(kind=k, n=n, long=True, around=j % 3 == 2, style=st[(i + 5 * j) % len(st)])))
    return out

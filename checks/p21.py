"""P21: converting 2412 quads to 82 trace lines keeps every element outline."""
from checks.common import as_list
from checks.sets import make

BOUNDS = {'quick': 'lists of 0..4 sets: element sets with 1..3 quads (alone, with triangles and beams, legacy form alone), element sets without quads, trace-line, node and function sets, in every order of three and some of four; '
                   'node numbers any positive 9-digit integers, or all of ten digits (filling their columns); rows as lists, tuples, arrays; converted directly, or read from a file first; result written and read back',
          'thorough': 'as quick, 1..12 quads and every order of four'}
ASSUMPTIONS = ['element sets with an empty list of quads are outside', 'quads have four nodes, numbered from 1']
I9 = 999999999


def quads(cx, pre, n, form):
    lo, hi = (10 ** 9, 10 ** 10 - 1) if form == 'wide' else (1, I9)
    q = [[cx.int('%s%d_%d' % (pre, k, j), lo, hi) for j in range(4)] for k in range(n)]
    rows = {'list': q, 'wide': q, 'tuple': [tuple(x) for x in q], 'array': cx.array(q, 'int64'), 'rows': [cx.array(x, 'int64') for x in q]}[form]
    return q, rows


def legacy(num, fe, rows, nn=4):
    return {'element_nums': list(range(1, num + 1)), 'fe_descriptor': [fe] * num, 'phys_table': [1] * num, 'mat_table': [1] * num, 'color': [1] * num, 'num_nodes': [nn] * num, 'nodes_nums': rows}


def element(i, fe, nodes):
    e = {'element_nums': i, 'fe_descriptor': fe, 'phys_table': 1, 'mat_table': 1, 'color': 1, 'num_nodes': len(nodes), 'nodes_nums': nodes}
    if fe == 21:
        e.update(beam_orientation=0, beam_foreend_cross=1, beam_aftend_cross=1)
    return e


def member(cx, kind, i, form):
    """(set, quads or None)"""
    pre = 's%d_' % i
    if kind[0] == 'q':
        q, rows = quads(cx, pre, int(kind[1:]), form)
        return {'type': 2412, 'quad': legacy(len(q), 44, rows)}, q
    if kind[0] == 'm':      # as read from a file: generic and legacy form, other elements
        q, rows = quads(cx, pre, int(kind[1:]), 'wide' if form == 'wide' else 'list')
        t = [[cx.int(pre + 't%d' % j, 1, I9) for j in range(3)]]
        return {'type': 2412, 44: [element(k + 1, 44, x) for k, x in enumerate(q)], 41: [element(9, 41, t[0])], 21: [element(12, 21, [1, 2])], 'quad': legacy(len(q), 44, [list(x) for x in q]),
                'triangle': legacy(1, 41, t, 3)}, q
    if kind == 'tri':
        t = [cx.int(pre + 't%d' % j, 1, I9) for j in range(3)]
        return {'type': 2412, 41: [element(9, 41, t)], 'triangle': legacy(1, 41, [t], 3)}, None
    if kind == 'beam':
        return {'type': 2412, 21: [element(1, 21, [cx.int(pre + 'b', 1, I9), 2])]}, None
    if kind == 'other':     # not an element set, whatever its keys
        return {'type': 999, 'quad': legacy(1, 44, [[1, 2, 3, 4]])}, None
    return make(cx, kind, pre, 1)[0], None


def outline(q):
    out = []
    for a, b, c, d in q:
        out += [a, b, 0, b, c, 0, c, d, 0, d, a, 0]
    return out


def check_result(cx, got, want):
    cx.check(isinstance(got, list), 'a list')
    cx.check(len(got) == len(want), 'number of trace-line sets')
    if len(got) != len(want):
        cx.stop()
    for g, (i, q) in zip(got, want):
        cx.check_eq(cx.get(g, 'type'), 82, 'type')
        cx.check_eq(cx.get(g, 'trace_num'), i, 'trace_num')
        n = cx.get(g, 'nodes')
        cx.check_eq(cx.get(g, 'n_nodes'), 12 * len(q), 'n_nodes')
        cx.check_eq(n, outline(q), 'nodes')


def snapshot(d):
    return {k: ([dict(e) for e in v] if isinstance(v, list) and v and isinstance(v[0], dict) else dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in d.items()}


def convert(cx, kinds, form, again=False, write=True):
    ms = [member(cx, k, i, form) for i, k in enumerate(kinds)]
    ds = [d for d, _ in ms]
    keep = [snapshot(d) for d in ds]
    got = cx.pyuff.tools.convert_dataset_2412_to_82(ds)
    want = [(i, q) for i, (_, q) in enumerate(ms) if q is not None]
    check_result(cx, got, want)
    cx.check(len(ds) == len(keep), 'list of sets unchanged')
    for d, k in zip(ds, keep):
        cx.check(list(d) == list(k), 'keys unchanged')
    for (d, q) in ms:
        if q is not None:
            for row, w in zip(d['quad']['nodes_nums'], q):
                cx.check_eq(row, w, 'element nodes unchanged')
    if again:
        check_result(cx, cx.pyuff.tools.convert_dataset_2412_to_82(ds), want)
    if write and got:
        u = cx.pyuff.UFF(cx.path('o.uff'))
        u.write_sets(got)
        check_result(cx, as_list(cx.pyuff.UFF(cx.path('o.uff')).read_sets()), want)


def from_file(cx, kinds, form='list'):
    """Sets written to a file, read, converted, written, read."""
    ms = [member(cx, k, i, form) for i, k in enumerate(kinds)]
    cx.pyuff.UFF(cx.path('a.uff')).write_sets([{k: v for k, v in d.items() if k not in ('quad', 'triangle')} for d, _ in ms])
    got = cx.pyuff.tools.convert_dataset_2412_to_82(as_list(cx.pyuff.UFF(cx.path('a.uff')).read_sets()))
    want = [(i, q) for i, (_, q) in enumerate(ms) if q is not None]
    check_result(cx, got, want)
    if got:
        u = cx.pyuff.UFF(cx.path('o.uff'))
        u.write_sets(got)
        check_result(cx, as_list(cx.pyuff.UFF(cx.path('o.uff')).read_sets()), want)


def instances(tier):
    import itertools
    th = tier == 'thorough'
    out = []
    forms = ('list', 'tuple', 'array', 'rows')
    for n in range(1, 13 if th else 4):
        for f in forms:
            out.append(('convert', dict(kinds=('q%d' % n,), form=f, again=True)))
        out.append(('convert', dict(kinds=('m%d' % n,), form='list')))
        out.append(('from_file', dict(kinds=('m%d' % n,))))
    out.append(('convert', dict(kinds=(), form='list')))
    ks = ('q1', 'q2', 'm1', 'm2', 'tri', 'beam', 'other', '82', '2411', '58')
    for c in [(k,) for k in ks[4:]]:
        out.append(('convert', dict(kinds=c, form='list')))
    for i, c in enumerate(itertools.product(ks, repeat=2)):
        out.append(('convert', dict(kinds=c, form=forms[i % 4], write=i % 3 == 0)))
    for i, c in enumerate(itertools.product(('q1', 'm2', 'tri', 'other', '2411'), repeat=3)):
        out.append(('convert', dict(kinds=c, form=forms[i % 4], write=i % 3 == 0)))
    for i, c in enumerate(itertools.product(('q1', 'm2', 'tri', '82'), repeat=4)):
        if th or i % 5 == 0:
            out.append(('convert', dict(kinds=c, form=forms[i % 4], write=i % 3 == 0)))
    for c in itertools.product(('m1', 'm2', 'tri', 'beam', '58b', '82'), repeat=2):
        out.append(('from_file', dict(kinds=c)))
    for n in (1, 2):
        out += [('convert', dict(kinds=('q%d' % n,), form='wide')), ('from_file', dict(kinds=('m%d' % n,), form='wide'))]
    return out

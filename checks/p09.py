"""P09: analysis data (set 2414) survives a write and a read."""
from checks.common import one, ints, reals, constant, sparsable, with_long, long_instances

BOUNDS = with_long({'quick': 'analysis type 5 with 1, 2 and 3 values per node and data types 5 and 6, x 0..3 and 7 nodes; analysis types 0, 1, 2, 3, 4, 6, 7, 9 with data at nodes (location 1; 1..7 and 13 values, '
                   'real and complex data types), on elements (2; 1..13 values, different from element to element), at nodes on elements (3; both expansion codes, 1..8 values per node), 0..3 entities; '
                   'node and element numbers 0..999999999, header integers over their full columns, record 10/11 integers of either sign one at a time; text of 1..80 symbolic characters; '
                   'every finite normal double with a two-digit exponent in data, every finite normal double in records 12/13 and, for up to 6 values, in data',
          'thorough': 'as quick with 0..8 and 30 entities, all value counts 1..18'})
ASSUMPTIONS = ['identification lines hold no minus sign (a literal one with one is included)', 'a record-14 number is at most nine digits, so that a blank separates it from its neighbour']
I10 = 9999999999
R10 = ('design_set_id', 'iteration_number', 'solution_set_id', 'boundary_condition', 'load_set', 'mode_number', 'time_step_number', 'frequency_number')
R11 = ('creation_option', 'number_retained')
R12 = ('time', 'frequency', 'eigenvalue', 'modal_mass', 'viscous_damping', 'hysteretic_damping')
R13 = ('real_part_eigenvalue', 'imaginary_part_eigenvalue', 'real_part_of_modal_A_or_modal_mass', 'imaginary_part_of_modal_A_or_modal_mass',
       'real_part_of_modal_B_or_modal_mass', 'imaginary_part_of_modal_B_or_modal_mass')
HEAD = ('analysis_dataset_label', 'analysis_dataset_name', 'dataset_location', 'id1', 'id2', 'id3', 'id4', 'id5', 'model_type', 'analysis_type',
        'data_characteristic', 'result_type', 'data_type', 'number_of_data_values_for_the_data_component')


def values(cx, pre, m, n, k, **kw):
    """m numbers of entity k out of n."""
    return [k + j / 4.0 for j in range(m)] if constant(cx, n, k) else few(cx, pre, m, **kw)


def few(cx, pre, m, **kw):
    s, cx.sparse = getattr(cx, 'sparse', False), False
    v = reals(cx, pre, m, **kw)
    cx.sparse = s
    return v


def head2414(cx, at, dt, nv, loc, idl):
    d = {'type': 2414, 'analysis_dataset_label': cx.int('label', 0, I10), 'analysis_dataset_name': cx.text('name', idl) if idl > 0 else 'A -1', 'dataset_location': loc}
    for k in range(1, 6):
        d['id%d' % k] = cx.text('id%d_' % k, idl) if idl > 0 else 'B-1 -1 -1'
    d.update({'model_type': cx.int('mt', 0, I10), 'analysis_type': at, 'data_characteristic': cx.int('dc', 0, 999999), 'result_type': cx.int('rt', 0, 999999),
              'data_type': dt, 'number_of_data_values_for_the_data_component': nv})
    return d


def cplx(cx, pre, n, **kw):
    return [cx.cplx(a, b) for a, b in zip(reals(cx, pre + 'r', n, **kw), reals(cx, pre + 'i', n, **kw))]


@sparsable
def frf(cx, n, nv, dt, idl=8, loc=1, neg=None, wide=False):
    d = head2414(cx, 5, dt, nv, loc, idl)
    for k in R10 + R11:
        d[k] = cx.int(k, 0 if k != neg else -999999, I10 if k in ('design_set_id', 'creation_option') else 999999999)
    for k in R12 + R13:
        d[k] = cx.real(k, small=False)
    nodes = ints(cx, 'n', n, 0, 999999999)
    d['node_nums'] = cx.array(nodes, 'int64')
    want = {}
    for k in 'xyz'[:nv]:
        want[k] = cplx(cx, k, n, small=not wide)
        d[k] = cx.array(want[k], 'complex128')
    r = one(cx, d)
    for k in HEAD + R10 + R11:
        cx.check_eq(cx.get(r, k), d[k], k)
    for k in R12 + R13:
        cx.check_close(cx.get(r, k), d[k], k, 5)
    cx.check_eq(cx.get(r, 'node_nums'), nodes, 'node_nums')
    for k in 'xyz':
        if k in want:
            cx.check_close(cx.get(r, k), want[k], k, 5)
        else:
            cx.check(k not in r, 'no ' + k)


@sparsable
def generic(cx, at, loc, n, nv, dt, idl=8, iexp=1, neg=None, form='list', wide=False):
    """nv: values per node (complex data: pairs), values of the first element, values per node on the element."""
    d = head2414(cx, at, dt, nv, loc, idl)
    for r in (10, 11):
        for f in range(1, 9):
            k = 'record%d_field%d' % (r, f)
            d[k] = cx.int(k, -999999 if k == neg else 0, I10)
    for r in (12, 13):
        for f in range(1, 7):
            d['record%d_field%d' % (r, f)] = cx.real('record%d_field%d' % (r, f), small=False)
    ids = ints(cx, 'e', n, 0, 999999999)
    key = 'node_nums' if loc == 1 else 'element_nums'
    d[key] = cx.array(ids, 'int64')
    if loc == 1:
        k = nv * 2 if dt in (5, 6) else nv
        data = [values(cx, 'v%d_' % i, k, n, i, small=not wide) for i in range(n)]
        dk = 'data_at_node'
        d[dk] = [cx.array(v, 'float64') for v in data] if form == 'array' else data
    elif loc == 2:
        ndval = [nv + 2 * (i % 7) for i in range(n)]
        data = [values(cx, 'v%d_' % i, ndval[i], n, i, small=not wide) for i in range(n)]
        dk = 'data_at_element'
        d[dk] = [cx.array(v, 'float64') for v in data] if form == 'array' else data
    else:
        nodes = [3 + i % 3 for i in range(n)]
        exp = [iexp if i % 2 == 0 else 3 - iexp for i in range(n)]
        per = [nv + i % 8 for i in range(n)]
        d['IEXP'], d['number_of_nodes'], d['number_of_values_per_node'] = (cx.array(v, 'int64') for v in (exp, nodes, per))
        data = []
        for i in range(n):
            lines = []
            for j in range(nodes[i] if exp[i] == 1 else 1):
                v = values(cx, 'v%d_%d_' % (i, j), per[i], n, i, small=not wide)
                lines += [v[o:o + 6] for o in range(0, len(v), 6)]
            data.append(lines)
        dk = 'data_at_nodes_on_element'
        d[dk] = [[cx.array(v, 'float64') for v in e] for e in data] if form == 'array' else data
    r = one(cx, d)
    for k in HEAD + tuple('record%d_field%d' % (a, b) for a in (10, 11) for b in range(1, 9)):
        cx.check_eq(cx.get(r, k), d[k], k)
    for k in ('record%d_field%d' % (a, b) for a in (12, 13) for b in range(1, 7)):
        cx.check_close(cx.get(r, k), d[k], k, 5)
    cx.check_eq(cx.get(r, key), ids, key)
    cx.check_close(cx.get(r, dk), data, dk, 5)
    if loc == 2:
        cx.check_eq(cx.get(r, 'NDVAL'), ndval, 'NDVAL')
    if loc == 3:
        cx.check_eq(cx.get(r, 'IEXP'), exp, 'IEXP')
        cx.check_eq(cx.get(r, 'number_of_nodes'), nodes, 'number_of_nodes')
        cx.check_eq(cx.get(r, 'number_of_values_per_node'), per, 'number_of_values_per_node')


def nothing(cx, at, loc):
    """Locations the writer has no data records for: header kept, and the set after it too."""
    d = head2414(cx, at, 2, 3, loc, 4)
    n = {'type': 15, 'node_nums': [7], 'def_cs': [1], 'disp_cs': [2], 'color': [3], 'x': [1.0], 'y': [2.0], 'z': [3.0]}
    u = cx.pyuff.UFF(cx.path('a.uff'))
    u.write_sets([d, n])
    u = cx.pyuff.UFF(cx.path('a.uff'))
    cx.check_eq(u.get_set_types(), [2414, 15], 'types')
    r = u.read_sets()
    cx.check(isinstance(r, list) and len(r) == 2, 'two sets')
    for k in HEAD:
        cx.check_eq(cx.get(r[0], k), d[k], k)
    cx.check_eq(cx.get(r[1], 'node_nums'), [7], 'next set')


def instances(tier):
    out = []
    q = tier == 'quick'
    for n in [0, 1, 2, 3, 7] if q else list(range(9)) + [30]:
        for nv in (1, 2, 3):
            out.append(('frf', dict(n=n, nv=nv, dt=5 + (n + nv) % 2, idl=1 + 2 * n)))
    for nv in (1, 2, 3):
        out.append(('frf', dict(n=2, nv=nv, dt=5)))
        out.append(('frf', dict(n=2, nv=nv, dt=6)))
    for i, neg in enumerate(R10 + R11):
        if neg not in ('frequency_number', 'number_retained'):          # last in the line: K1
            out.append(('frf', dict(n=1, nv=1 + i % 3, dt=5, idl=3, neg=neg)))
    out.append(('frf', dict(n=1, nv=3, dt=5, idl=80)))
    out.append(('frf', dict(n=1, nv=3, dt=5, idl=-1)))
    types = (0, 1, 2, 3, 4, 6, 7, 9)
    i = 0
    vals = [1, 2, 3, 5, 6, 7, 12, 13] if q else list(range(1, 19))
    for nv in vals:
        for n in [1, 2] if q else [0, 1, 2, 3, 8]:
            for dt in (2, 4, 5, 6) if nv in (1, 3, 6) else (2 + 2 * (nv % 2),):
                out.append(('generic', dict(at=types[i % 8], loc=1, n=n, nv=nv, dt=dt, form='array' if i % 2 else 'list')))
                i += 1
            out.append(('generic', dict(at=types[i % 8], loc=2, n=n, nv=nv, dt=2 + 2 * (i % 2), form='array' if i % 2 else 'list')))
            i += 1
    for nv in (1, 2, 5, 6, 7, 8) if q else range(1, 14):
        for n in (1, 2, 3) if q else (0, 1, 2, 3, 4):
            out.append(('generic', dict(at=types[i % 8], loc=3, n=n, nv=nv, dt=2, iexp=1 + i % 2, form='array' if i % 3 else 'list')))
            i += 1
    # complex data as pyuff counts them: every real number
    for nv in (2, 4, 6, 8, 12) if q else range(2, 26, 2):
        for n in (1, 2):
            for loc in (2, 3):
                out.append(('generic', dict(at=types[i % 8], loc=loc, n=n, nv=nv, dt=5 + i % 2, iexp=1 + i // 2 % 2, form='array' if i % 3 else 'list')))
                i += 1
    for loc in (1, 2, 3):
        out.append(('generic', dict(at=1, loc=loc, n=0, nv=3, dt=2)))
        out.append(('generic', dict(at=2, loc=loc, n=3, nv=3, dt=2, idl=80)))
        out.append(('generic', dict(at=2, loc=loc, n=1, nv=3, dt=2, idl=-1)))
    # negative numbers with three-digit exponents fill their columns
    for n, nv in ((1, 1), (1, 2), (1, 3), (2, 1)):
        out.append(('frf', dict(n=n, nv=nv, dt=5, idl=3, wide=True)))
    for nv, n in ((1, 1), (2, 1), (3, 1), (6, 1), (1, 2)) + (() if q else ((8, 1), (2, 2))):
        for loc in (1, 2, 3):
            if loc < 3 or nv * n < 3:
                out.append(('generic', dict(at=2, loc=loc, n=n, nv=nv, dt=2, idl=3, iexp=2, wide=True)))
    for r in (10, 11):
        for f in range(1, 8):
            out.append(('generic', dict(at=types[f], loc=1 + f % 3, n=1, nv=2, dt=2, idl=3, neg='record%d_field%d' % (r, f))))
    out += long_instances(tier, 'frf', *[dict(nv=k, dt=5 + k % 2) for k in (1, 2, 3)])
    for loc in (1, 2, 3):
        out += long_instances(tier, 'generic', *[dict(at=types[k % 8], loc=loc, nv=k, dt=(2, 4, 5)[k % 3] if loc == 1 else 2, iexp=1 + k % 2, form='array' if k % 2 else 'list') for k in (1, 2, 3, 6, 7)])
    for loc in (0, 4, 5, 6):
        for at in (1, 2):
            out.append(('nothing', dict(at=at, loc=loc)))
    return out

"""P04: element connectivity (set 2412) survives a write and a read."""
from checks.common import FULL, one, ints, constant, sparsable, with_long, long_instances

BOUNDS = with_long({'quick': 'sets of 0..6 elements with FE descriptors among beams {11,21,22,23,24} and others {41,42,44,45,91,94,111,112,115,116,118,161}, 1..20 nodes '
                   'per element (through the 8 per record limit), every integer 0..999999999; node labels of ten digits at every or some positions, and all other integers of ten digits',
          'thorough': 'as quick with up to 12 elements and every node count 1..32'})
ASSUMPTIONS = ['whether an integer has ten digits (fills its column) is fixed by the instance']
I9 = 999999999
BEAMS = (11, 21, 22, 23, 24)


def element(cx, k, fe, nn, wide=()):
    I9 = (0, 999999999) if 'r' not in wide else FULL
    e = {'element_nums': cx.int('e%d' % k, *I9), 'fe_descriptor': fe, 'phys_table': cx.int('p%d' % k, *I9),
         'mat_table': cx.int('m%d' % k, *I9), 'color': cx.int('c%d' % k, *I9), 'num_nodes': nn,
         'nodes_nums': [cx.int('n%d_%d' % (k, i), *(FULL if i % 8 in wide else (0, 999999999))) for i in range(nn)]}
    if fe in BEAMS:
        e.update({'beam_orientation': cx.int('bo%d' % k, *I9), 'beam_foreend_cross': cx.int('bf%d' % k, *I9),
                  'beam_aftend_cross': cx.int('ba%d' % k, *I9)})
    return e


def rt2412(cx, els, form='list', wide=()):
    d = {'type': 2412}
    want = {}
    for k, (fe, nn) in enumerate(els):
        e = element(cx, k, fe, nn, wide)
        want.setdefault(fe, []).append(dict(e))
        if form == 'array':
            e['nodes_nums'] = cx.array(e['nodes_nums'], 'int64')
        d.setdefault(fe, []).append(e)
    compare(cx, one(cx, d), want)


def compare(cx, r, want):
    cx.check_eq(cx.get(r, 'type'), 2412, 'type')
    got = [k for k in r if cx.type_name(k) == 'int']
    cx.check_eq(got, list(want), 'descriptors in order')
    for fe in want:
        g = cx.get(r, fe)
        cx.check(len(g) == len(want[fe]), 'number of elements %d' % fe)
        for i, w in enumerate(want[fe]):
            for key in w:
                cx.check_eq(cx.get(g[i], key), w[key], '%d: %s' % (fe, key))
    # the summary by element shape
    for fe, nm in ((41, 'triangle'), (44, 'quad')):
        if fe in want:
            s = cx.get(r, nm)
            for key in ('element_nums', 'fe_descriptor', 'phys_table', 'mat_table', 'color', 'num_nodes', 'nodes_nums'):
                cx.check_eq(cx.get(s, key), [w[key] for w in want[fe]], '%s %s' % (nm, key))
        else:
            cx.check(nm not in r, 'no %s' % nm)


@sparsable
def many(cx, n, nn=4):
    """Many elements of several kinds; those in the middle constant, with node lists of every length."""
    kinds = [(44, 4), (21, 2), (41, 3), (116, nn), (118, 10)]
    d, want = {'type': 2412}, {}
    for k in range(n):
        fe, m = kinds[(k * k) % 5 if k % 7 else 0]
        if constant(cx, n, k):
            e = {'element_nums': 500 + k, 'fe_descriptor': fe, 'phys_table': k, 'mat_table': 2 * k, 'color': k % 15, 'num_nodes': m, 'nodes_nums': [100 * k + j for j in range(m)]}
            if fe in BEAMS:
                e.update({'beam_orientation': k, 'beam_foreend_cross': k + 1, 'beam_aftend_cross': k + 2})
        else:
            e = element(cx, k, fe, m)
        want.setdefault(fe, []).append(dict(e))
        d.setdefault(fe, []).append(e)
    compare(cx, one(cx, d), want)


def mix(cx, n, kinds):
    """Any mixture of n elements of the kinds (chosen symbolically)."""
    els = []
    for k in range(n):
        els.append(cx.choice('kind%d' % k, kinds))
    rt2412(cx, [tuple(e) for e in els])


def instances(tier):
    out = [('rt2412', dict(els=[]))]
    for fe in BEAMS:
        out.append(('rt2412', dict(els=[[fe, 2], [fe, 3]])))
    for fe in (41, 42, 44, 45, 91, 94, 111, 112, 115, 118, 161):
        out.append(('rt2412', dict(els=[[fe, 4], [fe, 3]], form='array')))
    nns = [1, 5, 6, 7, 8, 9, 10, 15, 16, 17, 20] if tier == 'quick' else range(1, 33)
    for nn in nns:
        out.append(('rt2412', dict(els=[[116, nn], [41, 3], [116, nn], [21, min(nn, 9)]])))
    # node labels that fill their columns
    for wide in (list(range(8)) + ['r'], ['r'], list(range(8)), [0, 1], [3, 4, 5], [6, 7]):
        out.append(('rt2412', dict(els=[[44, 4], [21, 2], [116, 20], [45, 8], [111, 9], [41, 3]], wide=wide, form='array' if len(wide) == 3 else 'list')))
    out.append(('mix', dict(n=3, kinds=[[11, 2], [22, 3], [41, 3], [44, 4], [116, 20]])))
    out.append(('rt2412', dict(els=[[44, 4]] * 4 + [[41, 3]] * 2)))
    if tier != 'quick':
        out.append(('mix', dict(n=4, kinds=[[11, 2], [24, 3], [41, 3], [44, 4], [118, 10]])))
        out.append(('rt2412', dict(els=[[44, 4], [11, 2], [21, 2], [116, 20], [41, 3], [94, 4]] * 2)))
    out += long_instances(tier, 'many', *[dict(nn=k) for k in (20, 8, 16, 9, 7)])
    return out

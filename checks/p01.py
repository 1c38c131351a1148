"""P01: node coordinates (sets 15 and 2411) survive a write and a read."""
from checks.common import one, ints, reals, span, sparsable, with_long, long_instances

BOUNDS = with_long({'quick': '0..4, 9 and 30 nodes; labels 0..999999999, cs/colour 0..99999999, and ten-digit ones in all or some fields; coordinates: every double with a two-digit exponent (15), '
                   'every finite normal double (2411; 15: 1 and 2 nodes); list and array arguments',
          'thorough': 'as quick, 0..12, 50 and 300 nodes'})
ASSUMPTIONS = ['which integer fields have ten digits (fill their columns) is fixed by the instance']
I9 = 999999999
I8 = 99999999


def nodes(cx, t, n, form, wide=False, full=None):
    small = t == 15 and not wide
    d = {'type': t, 'node_nums': ints(cx, 'n', n, *span(full, 'n', I9)), 'def_cs': ints(cx, 'd', n, *span(full, 'd', I8)),
         'disp_cs': ints(cx, 'p', n, *span(full, 'p', I8)), 'color': ints(cx, 'c', n, *span(full, 'c', I8)),
         'x': reals(cx, 'x', n, small=small), 'y': reals(cx, 'y', n, small=small), 'z': reals(cx, 'z', n, small=small)}
    if form == 'array':
        for k in ('node_nums', 'def_cs', 'disp_cs', 'color'):
            d[k] = cx.array(d[k], 'int64')
        for k in 'xyz':
            d[k] = cx.array(d[k], 'float64')
    return d


@sparsable
def roundtrip(cx, t, n, form, wide=False, full=None):
    d = nodes(cx, t, n, form, wide, full)
    want = dict(d)
    r = one(cx, d)
    cx.check_eq(cx.get(r, 'type'), t, 'type')
    for k in ('node_nums', 'def_cs', 'disp_cs', 'color'):
        cx.check_eq(cx.get(r, k), want[k], k)
    for k in 'xyz':
        cx.check_close(cx.get(r, k), want[k], k, 5 if t == 15 else 16)


def instances(tier):
    out = []
    ns = [0, 1, 2, 3, 4, 9, 30] if tier == 'quick' else list(range(13)) + [50, 300]
    for t in (15, 2411):
        for n in ns:
            out.append(('roundtrip', dict(t=t, n=n, form='array' if n % 2 else 'list')))
    # negative numbers with three-digit exponents fill their columns
    for n in (1, 2) if tier == 'quick' else (1, 2, 3):
        out.append(('roundtrip', dict(t=15, n=n, form='list', wide=True)))
    # integers that fill their columns
    for t in (15, 2411):
        for i, full in enumerate(('all', 'n', 'nd', 'dp', 'pc', 'ndp')):
            out.append(('roundtrip', dict(t=t, n=1 + i % 3, form='array' if i % 2 else 'list', full=full)))
    out.append(('roundtrip', dict(t=15, n=2, form='list', full='all', wide=True)))
    for t in (15, 2411):
        out += long_instances(tier, 'roundtrip', dict(t=t, form='list'), dict(t=t, form='array'))
    return out

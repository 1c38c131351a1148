"""P02: coordinate systems (sets 18 and 2420) survive a write and a read."""
from checks.common import one, ints, span, reals, constant, sparsable, with_long, long_instances

BOUNDS = with_long({'quick': '0..4 and 9 (18), 0..4 and 9 (2420) coordinate systems; integers 0..999999999, and ten-digit ones in all or some fields (in one instance per set type negative system numbers and part UIDs); names of 0, 1, 7, 39/40 and 80 symbolic '
                   'printable characters; geometry: every finite normal double',
          'thorough': 'as quick, 0..10 and 40 systems'})
ASSUMPTIONS = ['which integer fields have ten digits (fill their columns) is fixed by the instance',
               'names neither begin nor end with a blank and hold no minus sign (a literal name with one is included)']
I9 = 999999999


def name(cx, nm, n, k, const=False):
    if const:
        return 'c%d' % k
    if n < 0:
        return 'x-1b  -1'
    return cx.text('%s%d' % (nm, k), n) if n else ''


def point(cx, pre, n, k):
    return [k + j / 4.0 for j in range(3)] if constant(cx, n, k) else reals(cx, pre, 3, small=False)


def cs18(cx, n, form, lens=(7,), neg=False, full=None):
    d = {'type': 18, 'cs_num': ints(cx, 'n', n, *span(full, 'n', I9)), 'cs_type': ints(cx, 't', n, *span(full, 't', I9)),
         'ref_cs_num': ints(cx, 'r', n, *span(full, 'r', I9)), 'color': ints(cx, 'c', n, *span(full, 'c', I9)), 'method': ints(cx, 'm', n, *span(full, 'm', I9)),
         'cs_name': [name(cx, 'name', lens[k % len(lens)], k, constant(cx, n, k)) for k in range(n)],
         'ref_o': [point(cx, 'o%d_' % k, n, k) for k in range(n)],
         'x_point': [point(cx, 'x%d_' % k, n, k) for k in range(n)],
         'xz_point': [point(cx, 'z%d_' % k, n, k) for k in range(n)]}
    if neg:
        d['cs_num'][-1] = cx.int('negn', -99999999, -1)
        d['ref_cs_num'][0] = cx.int('negr', -99999999, -1)
    want = dict(d)
    if form == 'array':
        for k in ('cs_num', 'cs_type', 'ref_cs_num', 'color', 'method'):
            d[k] = cx.array(d[k], 'int64')
        for k in ('ref_o', 'x_point', 'xz_point'):
            d[k] = cx.array(d[k], 'float64')
    return d, want


@sparsable
def rt18(cx, n, form, lens=(7,), neg=False, full=None):
    d, want = cs18(cx, n, form, lens, neg, full)
    r = one(cx, d)
    cx.check_eq(cx.get(r, 'type'), 18, 'type')
    for k in ('cs_num', 'cs_type', 'ref_cs_num', 'color', 'method', 'cs_name'):
        cx.check_eq(cx.get(r, k), want[k], k)
    for k in ('ref_o', 'x_point', 'xz_point'):
        if n:
            cx.check_close(cx.get(r, k), want[k], k, 5)
        else:
            cx.check(len(cx.get(r, k)) == 0, k)


def cs2420(cx, n, form, lens=(7,), plen=4, neg=False, full=None):
    m = [[point(cx, 'm%d_%d_' % (k, i), n, k) for i in range(4)] for k in range(n)]
    d = {'type': 2420, 'Part_UID': cx.int('uid', -999999999 if neg else 0, 9999999999), 'Part_Name': name(cx, 'part', plen, 0),
         'CS_sys_labels': ints(cx, 'l', n, *span(full, 'l', I9)), 'CS_types': ints(cx, 't', n, *span(full, 't', I9)),
         'CS_colors': ints(cx, 'c', n, *span(full, 'c', I9)),
         'CS_names': [name(cx, 'name', lens[k % len(lens)], k, constant(cx, n, k)) for k in range(n)],
         'CS_matrices': [cx.array(x, 'float64') for x in m]}
    if neg:
        d['CS_sys_labels'][-1] = cx.int('negl', -99999999, -1)
    want = dict(d)
    if form == 'array':
        for k in ('CS_sys_labels', 'CS_types', 'CS_colors'):
            d[k] = cx.array(d[k], 'int64')
    return d, want


@sparsable
def rt2420(cx, n, form, lens=(7,), plen=4, neg=False, full=None):
    d, want = cs2420(cx, n, form, lens, plen, neg, full)
    if neg:
        cx.known_finding('K1', d['Part_UID'] == -1)
    r = one(cx, d)
    cx.check_eq(cx.get(r, 'type'), 2420, 'type')
    for k in ('Part_UID', 'Part_Name', 'CS_sys_labels', 'CS_types', 'CS_colors', 'CS_names'):
        cx.check_eq(cx.get(r, k), want[k], k)
    cx.check_close(cx.get(r, 'CS_matrices'), want['CS_matrices'], 'CS_matrices', 16)


def instances(tier):
    out = []
    for n in ([0, 1, 2, 3, 4, 9] if tier == 'quick' else list(range(11)) + [40]):
        out.append(('rt18', dict(n=n, form='array' if n % 2 == 0 and n else 'list', lens=[7, 0, 40])))
        out.append(('rt2420', dict(n=n, form='array' if n % 2 == 0 and n else 'list', lens=[3, 0, 12], plen=4)))
    out += [('rt18', dict(n=3, form='list', lens=[40, 1, -1], neg=True)), ('rt18', dict(n=1, form='array', lens=[39])),
            ('rt2420', dict(n=2, form='list', lens=[80, 1], plen=80)), ('rt2420', dict(n=2, form='list', lens=[-1], plen=-1)),
            ('rt2420', dict(n=1, form='list', lens=[40], plen=0)), ('rt2420', dict(n=2, form='list', lens=[5], plen=3, neg=True))]
    # integers that fill their columns
    for i, full in enumerate(('all', 'nt', 'rc', 'cm', 'nm', 'ntr')):
        out.append(('rt18', dict(n=1 + i % 3, form='array' if i % 2 else 'list', full=full)))
        if i < 4:
            out.append(('rt2420', dict(n=1 + i % 3, form='list' if i % 2 else 'array', full=('all', 'lt', 'tc', 'lc')[i])))
    out += long_instances(tier, 'rt18', dict(form='list'), dict(form='array'))
    out += long_instances(tier, 'rt2420', dict(form='array'), dict(form='list'))
    return out

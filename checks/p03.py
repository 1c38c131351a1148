"""P03: trace lines (set 82) survive a write and a read."""
from checks.common import one, ints, sparsable, with_long, long_instances

BOUNDS = with_long({'quick': 'node sequences of every length 0..18, 24, 25 and 125, every value 0..999999999 in every position (so every repetition pattern); labels of ten digits at every or some positions; '
                   'trace number, colour full width; identification lines of 0, 1, 10, 79 and 80 symbolic characters; any node count recorded in the dictionary before',
          'thorough': 'every length 0..40, and 64, 125, 250'})
ASSUMPTIONS = ['whether a node number has ten digits (fills its column) is fixed by the instance', 'identification lines hold no minus sign (a literal one with one is included)']
I9 = 999999999


@sparsable
def rt82(cx, n, form='array', idlen=10, neg=False, count=None, wide=None):
    # with wide, labels that fill their columns: all, or those at the positions given
    nodes = ints(cx, 'n', n, 0, I9) if wide is None else [
        cx.int('n%d' % i, 10 ** 9, 10 ** 10 - 1) if wide == 'all' or i % 8 in wide else cx.int('n%d' % i, 0, I9) for i in range(n)]
    ident = 'T-1 -1' if idlen < 0 else cx.text('id', idlen) if idlen else ''
    lo = -99999999 if neg else 0
    d = {'type': 82, 'trace_num': cx.int('trace', lo, 9999999999), 'color': cx.int('color', lo, I9), 'id': ident,
         'nodes': cx.array(nodes, 'int64') if form == 'array' else cx.array([float(x) if not cx.symbolic else x for x in nodes], 'float64')}
    want = dict(d)
    if count == 'none':
        d['n_nodes'] = None
    elif count:
        # a count recorded earlier, as a dictionary that was read and changed has
        d['n_nodes'] = cx.int('count', 0, 1000)
    if neg:
        cx.known_finding('K1', d['color'] == -1)
    r = one(cx, d)
    for k in ('trace_num', 'color', 'id', 'type'):
        cx.check_eq(cx.get(r, k), want[k], k)
    cx.check_eq(cx.get(r, 'nodes'), nodes, 'nodes')
    cx.check_eq(cx.get(r, 'n_nodes'), n, 'n_nodes')


def instances(tier):
    ns = list(range(0, 19)) + [24, 25, 125] if tier == 'quick' else list(range(0, 41)) + [64, 125, 250]
    out = [('rt82', dict(n=n, form='float' if n % 3 == 2 else 'array')) for n in ns]
    out += [('rt82', dict(n=3, idlen=k)) for k in (0, 1, 79, 80, -1)]
    out += [('rt82', dict(n=9, neg=True))]
    out += [('rt82', dict(n=k, count=c)) for k in (0, 1, 7, 8, 9, 17) for c in (('any', 'none') if k == 9 else ('any',))]
    out += [('rt82', dict(n=k, wide='all', form='float' if k == 8 else 'array')) for k in (1, 2, 7, 8, 9, 16, 17)]
    out += [('rt82', dict(n=k, wide=w)) for k in (8, 13) for w in ([0], [1, 2], [6, 7], [0, 1, 3, 4, 5])]
    out += long_instances(tier, 'rt82', dict(form='array'), dict(form='float'))
    return out

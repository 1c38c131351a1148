"""P06: function data (ASCII set 58) survives a write and a read."""
from checks.common import one, reals, sparsable, with_long, long_instances
from checks.f58 import samples, even_x, base58, check_x

BOUNDS = with_long({'quick': 'real/complex x even/uneven x single/double precision (both through force_double and through ord_data_type), 1..9, 12, 13 and 25 points; every finite normal double as ordinate '
                   'and as uneven abscissa; even abscissa: start +-1000, step +-0.001..1000',
          'thorough': 'as quick, every length 1..26 and 60'})
ASSUMPTIONS = ['real arithmetic instead of IEEE for the reconstructed even abscissa (checked to 1e-12 on the real code)']


@sparsable
def rt58(cx, n, complex_, even, double, force=None, ints_=False, stale=False):
    data = [cx.int('k%d' % i, -99999, 99999) for i in range(n)] if ints_ else samples(cx, n, complex_, small=False)
    if even:
        xs, x0, dx = even_x(cx, n)
    else:
        xs = reals(cx, 'x', n, small=False)
    force = double if force is None else force
    d = base58(cx, data, xs, even, complex_, double)
    if ints_:
        d['data'] = cx.array(data, 'int64')
    if force:
        d['ord_data_type'] = 5 if complex_ else 2          # must be overridden
    if stale:                                               # the type the data had before
        d['ord_data_type'] = (4 if double else 2) if complex_ else (6 if double else 5)
    r = one(cx, d, force_double=force)
    cx.check_eq(cx.get(r, 'ord_data_type'), (6 if complex_ else 4) if double or force else (5 if complex_ else 2), 'ord_data_type')
    cx.check_eq(cx.get(r, 'num_pts'), n, 'num_pts')
    cx.check_eq(cx.get(r, 'binary'), 0, 'binary')
    cx.check_eq(cx.get(r, 'abscissa_spacing'), 1 if even else 0, 'abscissa_spacing')
    cx.check_close(cx.get(r, 'data'), data, 'data', 11 if double or force else 5)
    if even:
        cx.check_close(cx.get(r, 'abscissa_min'), x0, 'abscissa_min', 5)
        if n > 1:
            cx.check(cx.near1(cx.get(r, 'abscissa_inc'), dx, 5.1e-6), 'abscissa_inc')
    check_x(cx, r, xs, even, n)


def instances(tier):
    out = []
    ns = list(range(1, 10)) + [12, 13, 25] if tier == 'quick' else list(range(1, 27)) + [60]
    for c in (False, True):
        for e in (True, False):
            for dbl in (True, False):
                for n in ns:
                    out.append(('rt58', dict(n=n, complex_=c, even=e, double=dbl)))
            out.append(('rt58', dict(n=5, complex_=c, even=e, double=True, force=False)))
            for dbl in (True, False):
                for n in (1, 4):
                    out.append(('rt58', dict(n=n, complex_=c, even=e, double=dbl, force=False, stale=True)))
    out.append(('rt58', dict(n=5, complex_=False, even=True, double=True, ints_=True)))
    # more points than a 16-bit counter holds
    out += [('rt58', dict(n=70000 if e else 12000, complex_=not e, even=e, double=not e, sparse=True), dict(seconds=100)) for e in (True, False)]
    for c in (False, True):
        for e in (True, False):
            out += long_instances(tier, 'rt58', dict(complex_=c, even=e, double=True), dict(complex_=c, even=e, double=False))
    return out

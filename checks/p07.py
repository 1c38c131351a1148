"""P07: the header of set 58 survives a write and a read."""
from checks.common import one
from checks.f58 import header, even_x, samples, base58, FUNC_TYPES, AXES, LAB, UNITS

BOUNDS = {'quick': 'every header field of set 58 symbolic at once: integers over their whole column (negative directions, and negative unit exponents one axis at a time), '
                   'text of 1, 5, 10, 20 and 80 characters in columns of 10, 20 or 80 (also empty identification lines and one literal line with minus signs), every '
                   'supported function type, ASCII and binary, real and complex, even and uneven; the decimals for every finite normal double',
          'thorough': 'as quick, text lengths 1..20, 40, 79, 80 for both variants'}
ASSUMPTIONS = ['text neither begins nor ends with a blank and holds no minus sign (a literal line with one is included)']


def head58(cx, lens, binary, complex_=False, even=True, neg=None, func_type=1, force=True):
    h = header(cx, lens, neg=neg, func_type=func_type)
    n = 2
    xs, x0, dx = even_x(cx, n)
    if binary and not even:
        xs = [0.5, 1.75]             # the payload is P08's subject
    d = base58(cx, samples(cx, n, complex_, pre='s') if not binary else [cx.cplx(1.5, -2.5)] * n if complex_ else [1.5, -2.5], xs, even, complex_)
    d.update(h)
    d['binary'] = binary
    want = dict(d)
    r = one(cx, d, force_double=force)
    for k in h:
        if k == 'z_axis_value':
            cx.check_close(cx.get(r, k), h[k], k, 5)
        else:
            cx.check_eq(cx.get(r, k), want[k], k)
    cx.check_eq(cx.get(r, 'type'), 58, 'type')
    cx.check_eq(cx.get(r, 'binary'), binary, 'binary')
    cx.check_eq(cx.get(r, 'num_pts'), n, 'num_pts')
    cx.check_eq(cx.get(r, 'abscissa_spacing'), 1 if even else 0, 'abscissa_spacing')
    cx.check_eq(cx.get(r, 'ord_data_type'), 6 if complex_ else 4, 'ord_data_type')
    if even:
        cx.check_close(cx.get(r, 'abscissa_min'), x0, 'abscissa_min', 5)
        cx.check(cx.near1(cx.get(r, 'abscissa_inc'), dx, 5.1e-6), 'abscissa_inc')
    else:
        cx.check_eq(cx.get(r, 'abscissa_min'), 0.0, 'abscissa_min')
        cx.check_eq(cx.get(r, 'abscissa_inc'), 0.0, 'abscissa_inc')


def instances(tier):
    out = []
    lens = [0, 1, 5, 10, 20, 80, -1] if tier == 'quick' else [-1, 0] + list(range(1, 21)) + [40, 79, 80]
    for i, n in enumerate(lens):
        for b in (0, 1):
            out.append(('head58', dict(lens=n, binary=b, complex_=i % 2 == 1, even=i % 3 != 1)))
    for ft in FUNC_TYPES:
        out.append(('head58', dict(lens=4, binary=ft % 2, func_type=ft)))
    for neg in ('dirs',) + AXES:
        out.append(('head58', dict(lens=4, binary=1 if neg == 'abscissa' else 0, neg=neg)))
    return out

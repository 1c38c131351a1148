"""Set 58 dictionaries for the harnesses."""
from checks.common import ints, reals, constant

FUNC_TYPES = (0, 1, 2, 3, 4, 6, 9)
AXES = ('abscissa', 'ordinate', 'orddenom', 'z_axis')
# names of the axis text fields
LAB = {'abscissa': 'abscissa_axis_lab', 'ordinate': 'ordinate_axis_lab', 'orddenom': 'orddenom_axis_lab', 'z_axis': 'z_axis_axis_lab'}
UNITS = {'abscissa': 'abscissa_axis_units_lab', 'ordinate': 'ordinate_axis_units_lab', 'orddenom': 'orddenom_axis_units_lab',
         'z_axis': 'z_axis_axis_units_lab'}


def samples(cx, n, complex_, small=True, pre='', single=False):
    def r(nm):
        return cx.single(nm) if single else cx.real(nm, small=small)
    if complex_:
        return [cx.cplx(i / 4.0, 30.5 - i) if constant(cx, n, i) else cx.cplx(r('%sre%d' % (pre, i)), r('%sim%d' % (pre, i))) for i in range(n)]
    return [(i - 40) / 4.0 if constant(cx, n, i) else r('%sd%d' % (pre, i)) for i in range(n)]


def even_x(cx, n, pre=''):
    x0 = cx.real(pre + 'x0', lo=-1000.0, hi=1000.0)
    dx = cx.real(pre + 'dx', lo=-1000.0, hi=1000.0)
    cx.assume(cx.any([dx >= 0.001, dx <= -0.001]))
    return [x0 + k * dx for k in range(n)], x0, dx


def base58(cx, data, x, even, complex_, double=True, **kw):
    d = {'type': 58, 'func_type': 1, 'rsp_node': 1, 'rsp_dir': 1, 'ref_node': 2, 'ref_dir': 3,
         'data': cx.array(data, 'complex128' if complex_ else 'float64'), 'x': cx.array(x, 'float64'),
         'abscissa_spacing': 1 if even else 0, 'ord_data_type': (6 if complex_ else 4) if double else (5 if complex_ else 2)}
    d.update(kw)
    return d


def header(cx, lens=5, pre='', wide=True, neg=None, func_type=1):
    """Every field of the header, symbolic."""
    L = lens
    d = {'func_type': func_type}
    for k in range(1, 6):
        d['id%d' % k] = cx.text('%sid%d_' % (pre, k), L) if L > 0 else '' if L == 0 else 'run -1 of 7 -1'
    I4, I9 = 9999, 9999999999 if wide else 999999999
    d.update({'func_id': cx.int(pre + 'fid', 0, I9), 'ver_num': cx.int(pre + 'ver', 0, 99999), 'load_case_id': cx.int(pre + 'lc', 0, I9),
              'rsp_node': cx.int(pre + 'rn', 0, I9), 'ref_node': cx.int(pre + 'fn', 0, I9),
              'rsp_dir': cx.int(pre + 'rd', -6 if neg == 'dirs' else 0, 6), 'ref_dir': cx.int(pre + 'fd', -6 if neg == 'dirs' else 0, 6)})
    n = min(max(L, 1), 10)
    d['rsp_ent_name'] = cx.text(pre + 'ren', n)
    d['ref_ent_name'] = cx.text(pre + 'fen', n)
    d['z_axis_value'] = cx.real(pre + 'zv', small=False)
    for a in AXES:
        d[a + '_spec_data_type'] = cx.int(pre + a + 's', 0, 99)
        for q in ('len', 'force', 'temp'):
            d['%s_%s_unit_exp' % (a, q)] = cx.int('%s%s%s' % (pre, a, q), -9999 if neg == a else 0, I4 if wide else 9)
        n = min(max(L, 1), 20)
        d[LAB[a]] = cx.text(pre + a + 'lab', n)
        d[UNITS[a]] = cx.text(pre + a + 'uni', n)
    return d


def check_x(cx, r, xs, even, n, label='x'):
    """Read abscissa against the written one (six digits; for even spacing minimum and increment to six digits)."""
    g = cx.get(r, 'x')
    cx.check(len(g) == n, 'number of abscissa values')
    if not even:
        cx.check_close(g, xs, label, 5)
        return
    if n < 2:
        cx.check_close(g, xs, label, 5)
        return
    lo, inc = cx.get(r, 'abscissa_min'), cx.get(r, 'abscissa_inc')
    for k in range(n):
        w = lo + k * inc
        if not cx.symbolic:
            cx.check(abs(g[k] - w) <= 1e-12 * (abs(lo) + k * abs(inc)), '%s[%d]' % (label, k))
        else:
            cx.check_close(g[k], w, '%s[%d]' % (label, k), None)

"""P05: data at nodes (set 55) survives a write and a read."""
from checks.common import one, ints, reals, constant, sparsable, with_long, long_instances

BOUNDS = with_long({'quick': 'analysis types 2, 3, 5, 7 x (real with 3 or 6 components, complex with 3) x 0..3 and 8 nodes; node numbers 0..999999999, header integers '
                   'over the full 10 columns, identification lines of 1..80 symbolic characters; every finite normal double; list and array arguments; real numbers for the eigenvalue, the modal parameters and the some of the components of complex data; complex '
                   'data with 6 components (any of them) is refused',
          'thorough': 'as quick, 0..8, 20 and 100 nodes'})
ASSUMPTIONS = ['identification lines hold no minus sign (a literal one with one is included)', 'numbers of the %13.5e format: see P01']
I10 = 9999999999


def cplx(cx, pre, n):
    return [cx.cplx(a, b) for a, b in zip(reals(cx, pre + 'r', n, small=False), reals(cx, pre + 'i', n, small=False))]


def data55(cx, at, complex_, comps, n, form, idl=8, real=()):
    """real: complex parameters and components given as real numbers."""
    d = {'type': 55}
    for k in range(1, 6):
        d['id%d' % k] = cx.text('id%d_' % k, idl) if idl > 0 else 'A-1 -1 -1'
    d.update({'model_type': cx.int('mt', 0, I10), 'analysis_type': at, 'data_ch': cx.int('dc', 0, I10),
              'spec_data_type': cx.int('sd', 0, I10), 'load_case': cx.int('lc', 0, I10)})
    if at == 2:
        d.update({'mode_n': cx.int('mode', 0, I10), 'freq': cx.real('freq', small=False), 'modal_m': cx.real('mm', small=False),
                  'modal_damp_vis': cx.real('mv', small=False), 'modal_damp_his': cx.real('mh', small=False)})
    elif at == 5:
        d.update({'freq_step_n': cx.int('fs', 0, I10), 'freq': cx.real('freq', small=False)})
    else:
        d['mode_n'] = cx.int('mode', 0, I10)
        for k in ('eig', 'modal_a', 'modal_b'):
            d[k] = cx.real(k, small=False) if k in real else cplx(cx, k, 1)[0]
    d['node_nums'] = ints(cx, 'n', n, 0, I10)
    for k in range(1, comps + 1):
        d['r%d' % k] = cplx(cx, 'c%d_' % k, n) if complex_ and 'r%d' % k not in real else reals(cx, 'r%d_' % k, n, small=False)
    want = dict(d)
    if form == 'array' or n == 0 and complex_:
        d['node_nums'] = cx.array(d['node_nums'], 'int64')
        for k in range(1, comps + 1):
            d['r%d' % k] = cx.array(d['r%d' % k], 'complex128' if complex_ and 'r%d' % k not in real else 'float64')
    return d, want


@sparsable
def rt55(cx, at, complex_, comps, n, form='list', idl=8, real=()):
    d, want = data55(cx, at, complex_, comps, n, form, idl, real)
    r = one(cx, d)
    for k in ('type', 'id1', 'id2', 'id3', 'id4', 'id5', 'model_type', 'analysis_type', 'data_ch', 'spec_data_type', 'load_case', 'mode_n', 'freq_step_n',
              'node_nums'):
        if k in want:
            cx.check_eq(cx.get(r, k), want[k], k)
    cx.check_eq(cx.get(r, 'data_type'), 5 if complex_ else 2, 'data_type')
    cx.check_eq(cx.get(r, 'n_data_per_node'), comps, 'n_data_per_node')
    for k in ('freq', 'modal_m', 'modal_damp_vis', 'modal_damp_his', 'eig', 'modal_a', 'modal_b') + tuple('r%d' % i for i in range(1, comps + 1)):
        if k in want:
            cx.check_close(cx.get(r, k), want[k], k, 5)
    for k in range(comps + 1, 7):
        cx.check('r%d' % k not in r, 'no r%d' % k)


def refuse(cx, at, n, real=()):
    """Complex data with rotations cannot be stored: writing says so, and the file stays as it was."""
    d, _ = data55(cx, at, True, 6, n, 'array', 3, real)
    u = cx.pyuff.UFF(cx.path('a.uff'))
    cx.check(cx.raises(u.write_sets, d) is not None, 'writing raises')
    cx.check(cx.pyuff.UFF(cx.path('a.uff')).get_n_sets() == 0, 'no set in the file')


def instances(tier):
    out = []
    ns = [0, 1, 2, 3, 8] if tier == 'quick' else list(range(9)) + [20, 100]
    for at in (2, 3, 5, 7):
        for c, comps in ((False, 3), (False, 6), (True, 3)):
            for n in ns:
                out.append(('rt55', dict(at=at, complex_=c, comps=comps, n=n, form='array' if n % 2 else 'list', idl=1 + 3 * n)))
        out.append(('rt55', dict(at=at, complex_=False, comps=3, n=1, idl=80)))
        out.append(('rt55', dict(at=at, complex_=True, comps=3, n=1, idl=-1)))
        out.append(('refuse', dict(at=at, n=2)))
        for k in range(1, 7):
            out.append(('refuse', dict(at=at, n=1, real=['r%d' % j for j in range(1, 7) if j != k])))
        for real in (['r1'], ['r2'], ['r3'], ['r1', 'r2'], ['r1', 'r3'], ['r2', 'r3']):
            for f in ('array', 'list'):
                out.append(('rt55', dict(at=at, complex_=True, comps=3, n=2, idl=3, form=f, real=real)))
        for real in (['modal_a'], ['modal_b'], ['eig'], ['modal_a', 'modal_b'], ['eig', 'modal_a', 'modal_b']) if at in (3, 7) else ():
            for c in (False, True):
                out.append(('rt55', dict(at=at, complex_=c, comps=3, n=1, idl=3, real=real)))
    for at in (2, 3, 5, 7):
        out += long_instances(tier, 'rt55', *[dict(at=at, complex_=c, comps=k, form=f, idl=3) for c, k, f in ((False, 3, 'list'), (True, 3, 'array'), (False, 6, 'array'))])
    return out

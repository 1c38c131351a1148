"""P23: non-finite samples never corrupt a file."""
from checks.common import reals, as_list
from checks.f58 import samples, base58, check_x
from checks.sets import make, set_type
import itertools

BOUNDS = {'quick': 'set 58 ASCII and binary x real/complex x even/uneven x single/double (chosen, or forced to double) with 1..9 samples, each a finite symbolic number or a NaN or infinity: every pattern of up to 3 real or 1 complex samples, '
                   'and for longer data runs, single positions, all of one kind and alternations; alone, in add and overwrite mode, twice in a row, and between other sets; data at nodes with NaN in sets 2414 are outside',
          'thorough': 'as quick, every pattern of up to 4 real or 2 complex samples'}
ASSUMPTIONS = ['samples are float64 or complex128 arrays; a complex sample is non-finite in its real part, its imaginary part or both', 'in single precision an infinity becomes the largest number that precision holds (binary) or its five decimals allow (ASCII)']
DMAX = 1.7976931348623157e308
FMAX = 3.4028234663852886e38
INF = float('inf')
NF = {'n': float('nan'), 'i': INF, 'm': -INF}


def part(cx, c, name, const, single):
    """(written, expected) for one real number; c: f finite symbolic, k constant, n i m."""
    if c == 'f':
        v = cx.single(name) if single else cx.real(name, small=True)
        return v, v
    if c == 'k':
        return const, const
    big = FMAX if single else DMAX
    return NF[c], {'n': 0.0, 'i': big, 'm': -big}[c]


def build(cx, pat, complex_, single, pre=''):
    w, e = [], []
    for k, c in enumerate(pat):
        if complex_:
            a, b = part(cx, c[0], '%sre%d' % (pre, k), 0.5 + k, single), part(cx, c[1], '%sim%d' % (pre, k), -1.5 - k, single)
            w.append(cx.cplx(a[0], b[0]))
            e.append((a[1], b[1]))
        else:
            a = part(cx, c, '%sd%d' % (pre, k), 0.5 + k, single)
            w.append(a[0])
            e.append(a[1])
    return w, e


def check_samples(cx, got, want, complex_, binary, double):
    cx.check(len(got) == len(want), 'number of samples')
    if len(got) != len(want):
        cx.stop()
    for k, w in enumerate(want):
        for g, x in zip([got[k].real, got[k].imag] if complex_ else [got[k]], w if complex_ else [w]):
            if not cx.symbolic:
                cx.check(abs(g) < INF, 'sample %d is finite' % k)
            if isinstance(x, float) and abs(x) == DMAX:
                cx.check(abs(g - x) <= DMAX * 1e-5 if not double else abs(g - x) <= DMAX * 1e-11, 'sample %d is the largest number' % k)
                cx.check(abs(g) <= DMAX, 'sample %d is finite' % k)
            else:
                cx.check_close(g, x, 'sample %d' % k, None if binary else 11 if double else 5)


def nonfinite(cx, pat, binary, complex_, even, double, force=False, mode='add', around=None, twice=False):
    n = len(pat)
    dbl = double or force
    w, e = build(cx, pat, complex_, binary and not dbl)
    xs = [0.25 + 0.5 * k for k in range(n)] if even else [0.25 * k * k for k in range(n)]
    d = base58(cx, [1.0] * n, xs, even, complex_, double, binary=1 if binary else 0, id1=cx.text('id', 4))
    d['data'] = cx.array(w, 'complex128' if complex_ else 'float64')
    idt = d['id1']
    u = cx.pyuff.UFF(cx.path('a.uff'))
    sets = [d]
    vs = [None]
    if around:
        a, va = make(cx, around[0], 'p', 1)
        b, vb = make(cx, around[1], 'q', 1)
        sets, vs = [a, d, b], [va, None, vb]
    u.write_sets(sets if len(sets) > 1 else d, mode=mode, force_double=force)
    if twice:
        u.write_sets(d, force_double=force)
        vs = vs + [None]
    r = as_list(cx.pyuff.UFF(cx.path('a.uff')).read_sets())
    cx.check(len(r) == len(vs), 'number of sets')
    if len(r) != len(vs):
        cx.stop()
    for g, v in zip(r, vs):
        if v is not None:
            v(cx, g)
            continue
        cx.check_eq(cx.get(g, 'id1'), idt, 'id1')
        cx.check_eq(cx.get(g, 'num_pts'), n, 'num_pts')
        check_samples(cx, cx.get(g, 'data'), e, complex_, binary, dbl)
        check_x(cx, g, xs, even, n)


def patterns(n, complex_, th):
    al = [a + b for a in 'fnim' for b in 'fnim'] if complex_ else 'fnim'
    full = (2 if th else 1) if complex_ else (4 if th else 3)
    f = 'ff' if complex_ else 'f'
    if n <= full:
        return list(itertools.product(al, repeat=n))
    out = []
    one = ['nf', 'fi', 'mn', 'im'] if complex_ else list('nim')
    for c in one:
        for k in range(n):
            out.append(tuple(c if j == k else f for j in range(n)))
        out.append((c,) * n)
        out.append(tuple(c if j % 2 else f for j in range(n)))
    k = one * n
    out.append(tuple(k[:n]))
    return out


def instances(tier):
    th = tier == 'thorough'
    out = []
    j = 0
    pairs = [('151', '82'), ('58b', '58'), ('15', '58b'), ('2414', '2411')]
    for binary in (False, True):
        for complex_ in (False, True):
            for even in (True, False):
                for double in (True, False):
                    for n in (1, 2, 3, 5, 9) if not th else (1, 2, 3, 4, 5, 7, 9):
                        ps = patterns(n, complex_, th)
                        if n > 2:
                            step = 1 if th else 3
                            ps = [p for i, p in enumerate(ps) if (i + j) % step == 0]
                        for p in ps:
                            j += 1
                            if binary:
                                # free binary samples fork on line-break bytes: one per data at most
                                f = 'f'
                                q, seen = [], False
                                for c in p:
                                    c2 = ''
                                    for ch in c:
                                        c2 += 'k' if ch == f and (seen or n > 2 or j % 4) else ch
                                        seen = seen or (ch == f and not (n > 2 or j % 4))
                                    q.append(c2)
                                p = tuple(q)
                            out.append(('nonfinite', dict(pat=p, binary=binary, complex_=complex_, even=even, double=double, force=j % 5 == 0, mode='overwrite' if j % 3 == 0 else 'add',
                                                          around=pairs[j // 7 % 4] if j % 7 == 0 else None, twice=j % 11 == 0)))
    return out

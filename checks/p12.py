"""P12: a file is an ordered sequence of sets: add appends, overwrite replaces."""
from checks.sets import make, KINDS, set_type

BOUNDS = {'quick': 'every ordered pair of the 17 kinds of sets (all 15 supported types, 58 in both variants, 2414 in both) with symbolic content, triples and sequences of 6 in every split over calls; add and '
                   'overwrite on a missing, empty or filled file; a symbolic index (any single one, any list of up to three with repetitions), every out-of-range index within +-10^6; unknown modes; foreign sets; adding to files that hold text or sets the object has not seen; files of 12, 33, 64 and 130 sets, and sets of 40 to 300 members',
          'thorough': 'as quick, sequences of 17 sets and lists of up to four indices'}
ASSUMPTIONS = ['set contents stay within the bounds of the per-format properties P01..P11']


def fresh(cx, name='a.uff'):
    return cx.pyuff.UFF(cx.path(name))


def check_all(cx, want, name='a.uff', u=None):
    """want: list of (type, verify)."""
    u = u or fresh(cx, name)
    cx.check_eq(u.get_n_sets(), len(want), 'number of sets')
    cx.check_eq(u.get_set_types(), [t for t, _ in want], 'types')
    if not want:
        cx.check_eq(u.read_sets(), [], 'nothing to read')
        return u
    r = u.read_sets()
    if len(want) == 1:
        r = [r]
    cx.check(isinstance(r, list) and len(r) == len(want), 'as many sets as in the file')
    if not isinstance(r, list) or len(r) != len(want):
        cx.stop()
    for x, (t, v) in zip(r, want):
        cx.check_eq(cx.get(x, 'type'), t, 'type in order')
        v(cx, x)
    return u


def sequence(cx, kinds, calls, mode='add', before=None, same=True, n=1, rich=True):
    """kinds written by consecutive calls of the given lengths; the file first holds the kinds in before."""
    u = fresh(cx)
    want = []
    if before == 'empty':
        cx.write_file('a.uff', b'')
        u.refresh()
    elif before:
        for j, k in enumerate(before):
            d, v = make(cx, k, 'b%d_' % j, rich=False)
            u.write_sets(d)
            want.append((set_type(k), v))
    ds = [make(cx, k, 's%d_' % j, n=n, rich=rich) for j, k in enumerate(kinds)]
    p = 0
    for c in calls:
        old = cx.read_file('a.uff') if cx.exists('a.uff') else b''
        arg = [d for d, _ in ds[p:p + c]]
        if not same:
            u = fresh(cx)
        u.write_sets(arg if c > 1 or p % 2 else arg[0], mode)
        new = cx.read_file('a.uff')
        if mode == 'add':
            cx.check(new[:len(old)] == old, 'earlier sets byte for byte in place')
        else:
            want = []
        want += [(set_type(k), v) for k, (_, v) in zip(kinds[p:p + c], ds[p:p + c])]
        p += c
    check_all(cx, want)
    check_all(cx, want, u=u)


def many(cx, n, calls, mode='add', long=0):
    """Many sets (all but the first and last two constant), or few long ones, in consecutive calls."""
    kinds = [KINDS[(7 * j + n) % len(KINDS)] for j in range(n)]
    if long:
        kinds = [k if k not in ('151', '164', '1858', '2400') else '82' for k in kinds]
    ds = [make(cx, k, 's%d_' % j, n=long or 1 + j % 3, rich=True if long or j in (0, n - 2, n - 1) else 2 + j % 90, long=bool(long)) for j, k in enumerate(kinds)]
    p = 0
    u = fresh(cx)
    while p < n:
        old = cx.read_file('a.uff') if p else b''
        u.write_sets([d for d, _ in ds[p:p + calls]], mode if p == 0 else 'add')
        cx.check(cx.read_file('a.uff')[:len(old)] == old, 'earlier sets byte for byte in place')
        p += calls
    want = [(set_type(k), v) for k, (_, v) in zip(kinds, ds)]
    r = fresh(cx)
    check_all(cx, want, u=r)
    check_all(cx, want, u=u)
    # from the last to the first one, one by one and as a list
    l = r.read_sets(list(range(n))[::-1])
    for j in (0, n // 2, n - 1):
        want[j][1](cx, r.read_sets(j))
        want[j][1](cx, l[n - 1 - j])
    u.write_sets(mini(cx, 1), 'overwrite')
    cx.check_eq(fresh(cx).get_n_sets(), 1, 'overwritten')


def mini(cx, n):
    """n node sets with known, different labels."""
    return [{'type': 15, 'node_nums': [100 + k], 'def_cs': [1], 'disp_cs': [2], 'color': [3], 'x': [1.0], 'y': [2.0], 'z': [3.0]} for k in range(n)]


def label(cx, r):
    return cx.get(r, 'node_nums')[0]


def index(cx, n, m):
    """A list of m indices, any of them, with repetitions; and one plain index."""
    u = fresh(cx)
    u.write_sets(mini(cx, n))
    ix = [cx.int('i%d' % j, 0, n - 1) for j in range(m)]
    r = u.read_sets(ix)
    if m == 1:
        r = [r]
    cx.check(isinstance(r, list) and len(r) == m, 'as many as asked for')
    for a, b in zip(r, ix):
        cx.check_eq(label(cx, a), b + 100, 'set at the index')
    j = cx.int('j', 0, n - 1)
    r = u.read_sets(j)
    cx.check(isinstance(r, dict), 'one set')
    cx.check_eq(label(cx, r), j + 100, 'set at the index')
    cx.check_eq(label(cx, u.read_sets(setn=ix + [j])[-1]), j + 100, 'last of the list')


def mixed_index(cx, kinds, m):
    u = fresh(cx)
    ds = [make(cx, k, 's%d_' % j, rich=False) for j, k in enumerate(kinds)]
    u.write_sets([d for d, _ in ds])
    ix = [cx.int('i%d' % j, 0, len(kinds) - 1) for j in range(m)]
    r = fresh(cx).read_sets(ix)
    cx.check(len(r) == m, 'as many as asked for')
    for a, b in zip(r, ix):
        k = b.__index__()
        ds[k][1](cx, a)


def outside(cx, n):
    u = fresh(cx)
    if n:
        u.write_sets(mini(cx, n))
    else:
        cx.write_file('a.uff', b'')
        u.refresh()
    f = cx.read_file('a.uff')
    j = cx.int('j', -1000000, 1000000)
    cx.assume(cx.any([j < 0, j > n - 1]))
    cx.check(cx.raises(u.read_sets, j) is not None, 'raises')
    cx.check(cx.raises(u.read_sets, [0, j] if n else [j]) is not None, 'raises in a list')
    cx.check(cx.read_file('a.uff') == f, 'file unchanged')
    cx.check_eq(u.get_n_sets(), n, 'number of sets')
    if n:
        cx.check_eq(label(cx, u.read_sets(n - 1)), 99 + n, 'later reading')


def bad_mode(cx, n, k):
    u = fresh(cx)
    if n:
        u.write_sets(mini(cx, n))
    f = cx.read_file('a.uff') if n else None
    m = cx.text('mode', k, alpha='nonws') if k else ''
    cx.assume(cx.no(cx.any([m.lower() == 'add', m.lower() == 'overwrite'])))
    cx.check(cx.raises(u.write_sets, mini(cx, 1), m) is not None, 'raises')
    cx.check(cx.raises(u.write_sets, [], 'add') is not None, 'nothing to write')
    if n:
        cx.check(cx.read_file('a.uff') == f, 'file unchanged')
    else:
        cx.check(not cx.exists('a.uff') or cx.length(cx.read_file('a.uff')) == 0, 'no content')


def any_case(cx, word):
    """The mode is understood in upper and lower case."""
    u = fresh(cx)
    u.write_sets(mini(cx, 2))
    f = cx.read_file('a.uff')
    m = cx.text('mode', len(word), alpha='nonws')
    cx.assume(m.lower() == word)
    u.write_sets(mini(cx, 3)[1:], m)
    want = ([100, 101] if word == 'add' else []) + [101, 102]
    for o in (fresh(cx), u):
        cx.check_eq(o.get_n_sets(), len(want), 'number of sets')
        r = o.read_sets()
        for x, lab in zip(r, want):
            cx.check_eq(label(cx, x), lab, 'set')
    if word == 'add':
        cx.check(cx.read_file('a.uff')[:len(f)] == f, 'earlier sets byte for byte in place')


def foreign(cx, where, lo, hi):
    """Sets of types the library does not support, in the file and written."""
    sup = (15, 18, 55, 58, 82, 151, 164, 1858, 2400, 2411, 2412, 2414, 2420, 2429, 2467)
    t = cx.int('t', lo, hi)
    cx.assume(cx.no(cx.any([t == k for k in sup])))
    raw = cx.cat([cx.fmt('    -1\n%6i\n', t).encode('utf-8'), b'  1 2 3 \n\n', cx.bytestr('c', 6, [ord(' '), ord('1'), ord('.')]), b'\n    -1\n'])
    a, b = mini(cx, 2)
    u = fresh(cx)
    u.write_sets(a)
    fa = cx.read_file('a.uff')
    parts = {'first': [raw, fa], 'last': [fa, raw], 'alone': [raw], 'between': [fa, raw, fa]}[where]
    cx.write_file('a.uff', cx.cat(parts))
    u.refresh()
    u.write_sets([dict(b), {'type': t, 'data': [1.0]}, dict(b)])
    u.write_sets({'type': t})
    f = cx.read_file('a.uff')
    cx.check(f[:sum(cx.length(p) for p in parts)] == cx.cat(parts), 'earlier sets byte for byte in place')
    ts = {'first': [t, 15], 'last': [15, t], 'alone': [t], 'between': [15, t, 15]}[where] + [15, 15]
    u = fresh(cx)
    cx.check_eq(u.get_set_types(), ts, 'types')
    r = u.read_sets()
    cx.check(len(r) == len(ts), 'number')
    for x, y in zip(r, ts):
        cx.check_eq(cx.get(x, 'type'), y, 'type')
        if y is t:
            cx.check(list(x) == ['type'], 'only its type')
    for x, lab in zip(r[-2:], (101, 101)):
        cx.check_eq(label(cx, x), lab, 'sets around')
    u.write_sets({'type': t}, 'overwrite')
    cx.check_eq(fresh(cx).get_n_sets(), 0, 'overwritten with nothing')


def tail(cx, kinds, end, new, free=0, same=False):
    """Appending to a file whose last line may lack its line break, or where something follows the last set."""
    ds = [make(cx, k, 'b%d_' % j, rich=False) for j, k in enumerate(kinds)]
    u = fresh(cx)
    u.write_sets([d for d, _ in ds])
    f = cx.read_file('a.uff')
    f = cx.cat([f[:cx.length(f) - 1], end.encode(), cx.bytestr('t', free, [ord(' '), 10, 13, ord('x'), ord('-'), ord('1'), 200])] if free else [f[:cx.length(f) - 1], end.encode()])
    cx.write_file('a.uff', f)
    if same:
        u.refresh()
    else:
        u = fresh(cx)
    want = [(set_type(k), v) for k, (_, v) in zip(kinds, ds)]
    check_all(cx, want, u=u)
    u.write_sets({'type': 999})
    cx.check(cx.read_file('a.uff') == f, 'unsupported set: nothing written')
    for j, k in enumerate(new):
        d, v = make(cx, k, 's%d_' % j, rich=j == 0)
        u.write_sets(d)
        want.append((set_type(k), v))
    cx.check(cx.read_file('a.uff')[:cx.length(f)] == f, 'earlier sets byte for byte in place')
    check_all(cx, want)
    check_all(cx, want, u=u)


def stale(cx, kinds, how):
    """Adding keeps what is in the file, also where the object does not know of it or where it is no set."""
    u = fresh(cx)
    if how == 'text':
        f = cx.cat([b'a file with some text\n', cx.bytestr('t', 3, [ord('x'), 10, 200]), b'\n'])
        cx.write_file('a.uff', f)
    elif how == 'open':
        f = cx.cat([b'    -1\n   999\n', cx.bytestr('t', 3, [ord('x'), 10, 200]), b'\n    -1\n'])
        cx.write_file('a.uff', f)
    want = []
    if how == 'other':
        d, v = make(cx, kinds[0], 'o_', rich=False)
        fresh(cx).write_sets(d)
        want.append((set_type(kinds[0]), v))
        f = cx.read_file('a.uff')
    elif how == 'open':
        want.append((999, lambda cx, x: None))
    for j, k in enumerate(kinds):
        d, v = make(cx, k, 's%d_' % j, rich=j == 0)
        u.write_sets(d)
        want.append((set_type(k), v))
    g = cx.read_file('a.uff')
    cx.check(g[:cx.length(f)] == f, 'what was in the file is in place')
    w = fresh(cx)
    cx.check_eq(list(w.get_set_types()), [t for t, _ in want], 'types')
    cx.check_eq(list(u.get_set_types()), [t for t, _ in want], 'types through the object that wrote')
    check_all(cx, want)


TAILS = ('', '\n', '\r', '\r\n', '\n\n', ' ' * 74, ' ' * 74 + '\n', '\nend', '\n-1', '\n  ', '\n\xe9')


def instances(tier):
    out = []
    q = tier == 'quick'
    K = list(KINDS)
    for a, k in enumerate(K):
        for how in ('text', 'open', 'other'):
            out.append(('stale', dict(kinds=[k, K[(a * 3 + 2) % len(K)]], how=how)))
    i = 0
    for a in range(len(K)):
        for b in range(len(K)):
            out.append(('sequence', dict(kinds=[K[a], K[b]], calls=[1, 1] if i % 2 else [2], mode='add', before=[None, 'empty', ['58b'], ['151', '15']][i % 4], same=i % 3 != 0)))
            i += 1
        out.append(('sequence', dict(kinds=[K[a], K[(a * 5 + 3) % len(K)]], calls=[2], mode='overwrite', before=['58', '2412', K[(a + 7) % len(K)]])))
        out.append(('sequence', dict(kinds=[K[(a + 1) % len(K)], K[a], K[(a + 3) % len(K)]], calls=[1, 1, 1], mode='overwrite', before=['58b'], same=a % 2 == 0)))
    six = ['58b', '15', '2429', '58', '55', '58b']
    for calls in ([6], [1] * 6, [2, 4], [3, 3], [5, 1], [1, 2, 3]):
        for mode in ('add', 'overwrite'):
            out.append(('sequence', dict(kinds=six, calls=calls, mode=mode, before=['82'], rich=False)))
    out.append(('sequence', dict(kinds=K, calls=[9, 8], rich=False, n=3)))
    for i, t in enumerate(TAILS):
        for a, b in (('15', '15'), ('58b', '58'), ('2412', '58b'), ('82', '2429'), (K[i % len(K)], K[(i * 3 + 1) % len(K)])):
            out.append(('tail', dict(kinds=[a], end=t, new=[b, '15'], same=i % 2 == 0)))
    for i, a in enumerate(K):
        out.append(('tail', dict(kinds=['15', a], end='', new=[K[(i * 5 + 2) % len(K)], '58b'], same=i % 2 == 0)))
        out.append(('tail', dict(kinds=[K[(i * 7 + 1) % len(K)]], end='', new=[a], same=i % 2 == 1)))
    for b in ('15', '58b'):
        for m in (1, 2) if q else (1, 2, 3):
            out.append(('tail', dict(kinds=['82'], end='\n', new=[b], free=m)))
    if not q:
        out.append(('sequence', dict(kinds=K, calls=[17])))
        out.append(('sequence', dict(kinds=K[::-1], calls=[1] * 17, rich=False, n=2)))
    for n, c in ((12, 5), (33, 33), (64, 13), (130, 50)) if q else ((12, 1), (33, 33), (64, 13), (100, 10), (130, 1), (257, 100), (300, 300)):
        out.append(('many', dict(n=n, calls=c, mode='overwrite' if n % 2 else 'add')))
    for n, c, k in ((5, 2, 40), (5, 1, 120), (6, 6, 300)) if q else ((17, 2, 40), (17, 1, 120), (17, 17, 300), (5, 2, 1000)):
        out.append(('many', dict(n=n, calls=c, long=k)))
    for n, m in ((2, 1), (3, 2), (5, 1), (3, 3), (7, 2)) if q else ((2, 1), (3, 2), (5, 1), (3, 3), (7, 2), (3, 4), (12, 2)):
        out.append(('index', dict(n=n, m=m)))
    out.append(('mixed_index', dict(kinds=['58b', '2411', '58', '164', '58b', '82'], m=2)))
    for n in (0, 1, 3):
        out.append(('outside', dict(n=n)))
        for k in (0, 1, 3, 4, 9):
            out.append(('bad_mode', dict(n=n, k=k)))
    for w in ('add', 'overwrite'):
        out.append(('any_case', dict(word=w)))
    for w in ('first', 'last', 'alone', 'between'):
        out.append(('foreign', dict(where=w, lo=1, hi=99999)))
        out.append(('foreign', dict(where=w, lo=-99, hi=-2)))
    return out

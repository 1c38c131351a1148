"""P25: reading and rewriting a file is stable and pure."""
from checks.common import as_list, ints
from checks.f58 import samples, base58, header, even_x
from checks import layout
from checks.sets import make, KINDS, LISTED, set_type
from checks.p04 import element
from checks.p05 import data55
from checks.p11 import group
from checks.p17 import render, other

BOUNDS = {'quick': 'every kind of set with symbolic content (1 to 3 rows; 17, 40, 130 and 300 with the first and last two symbolic), sets 58 and 58b in all variants, 55 and 2414 in all their data types, 2412 with several element types, 2429/2467 with several groups: reading twice by number, '
                   'list and whole, with the first result overwritten by the caller; writing checked against a deep copy of the dictionary; the same and an equal dictionary written twice in add and overwrite mode; read, '
                   'written and read again, for files written by pyuff and by others (LF/CR-LF, padded and trimmed); histories of two operations out of read, header-only read, write, overwrite, refresh on one object',
          'thorough': 'as quick, every style and pair of kinds'}
ASSUMPTIONS = ['fields the writers calculate are exempt when a set is rewritten: abscissa_min, abscissa_inc, ord_data_type, n_bytes and the other fields of the binary type line of 58', 'evenly spaced abscissas have constant values',
               'the fields that default to the current time are given']
CALC = {58: ('abscissa_min', 'abscissa_inc', 'ord_data_type', 'n_bytes', 'byte_ordering', 'fp_format', 'n_ascii_lines')}


def deep(cx, v):
    """A copy no writer can reach."""
    if isinstance(v, dict):
        return {k: deep(cx, x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [deep(cx, x) for x in v]
    if cx.is_array(v):
        return [deep(cx, x) for x in v]
    return v


def same(cx, a, b, label, skip=()):
    """a has every field of b with an equal value."""
    if isinstance(b, dict):
        cx.check(isinstance(a, dict), label + ' is a dictionary')
        for k in b:
            if k not in skip:
                cx.check(k in a, '%s has %s' % (label, k))
                if k in a:
                    same(cx, a[k], b[k], '%s %s' % (label, k))
    elif isinstance(b, (list, tuple)) or cx.is_array(b):
        n = len(b)
        cx.check(len(a) == n, label + ' length')
        if len(a) == n:
            for x, y in zip(a, b):
                same(cx, x, y, label)
    elif b is None:
        cx.check(a is None, label)
    else:
        cx.check_eq(a, b, label)


def equal(cx, a, b, label, skip=()):
    cx.check(sorted(str(k) for k in a if k not in skip) == sorted(str(k) for k in b if k not in skip), label + ' same fields')
    same(cx, a, b, label, skip)


def spoil(v):
    """Overwrite what a read returned."""
    if isinstance(v, dict):
        for k in list(v):
            spoil(v[k])
            v[k] = None
        v['extra'] = 1
    elif isinstance(v, list):
        for x in v:
            spoil(x)
        del v[:]
    elif hasattr(v, 'fill'):
        try:
            v.fill(0)
        except (TypeError, ValueError):
            pass


class Named:
    """cx with a prefix in front of the names of the inputs."""
    def __init__(self, cx, pre):
        self.cx, self.pre = cx, pre

    def __getattr__(self, k):
        f = getattr(self.cx, k)
        if k in ('int', 'real', 'text', 'single'):
            return lambda name, *a, **kw: f(self.pre + name, *a, **kw)
        return f


def variant(cx, what, pre='v'):
    """A set by name: kind:count, or a special variant."""
    p = what.split(':')
    k = p[0]
    if k in KINDS:
        d, _ = make(cx, k, pre, int(p[1]), long=len(p) > 2)
        return d
    if k in ('f58', 'f58b'):
        complex_, even, double, n = p[1] == 'c', p[2] == 'e', p[3] == 'd', int(p[4])
        data = [cx.cplx(j + 0.5, -j) if complex_ else j + 0.25 for j in range(n)] if k == 'f58b' else samples(cx, n, complex_, pre=pre)
        xs = [0.25 + 0.5 * j for j in range(n)] if even else [0.25 * j * j for j in range(n)] if k == 'f58b' else [cx.real('%sx%d' % (pre, j)) for j in range(n)]
        d = base58(cx, data, xs, even, complex_, double, binary=1 if k == 'f58b' else 0)
        d.update(header(cx, 3, pre))
        return d
    if k == 'd55':
        d, _ = data55(Named(cx, pre), int(p[1]), p[2] == 'c', int(p[3]), int(p[4]), 'list', 6)
        return d
    if k == 'e2412':
        d = {'type': 2412}
        for j, fe in enumerate(p[1].split(',')):
            nn = {'41': 3, '44': 4, '21': 2, '22': 2, '115': 8, '116': 20, '111': 4}[fe]
            d.setdefault(int(fe), []).append(element(Named(cx, pre), j, int(fe), nn))
        return d
    if k in ('g2429', 'g2467'):
        gs = [group(Named(cx, pre), int(k[1:]), j, int(n), 'list', 8) for j, n in enumerate(p[1].split(','))]
        return {'type': int(k[1:]), 'groups': [g for g, _, _ in gs]}
    raise ValueError(what)


def state(cx, u):
    return [u.get_n_sets(), list(u.get_set_types()), list(u.get_set_formats()), u.get_status(), u.get_file_name()]


def reading(cx, whats, how, again):
    """Reading twice: same results, same file, same object, whatever the caller does with the first result."""
    ds = [variant(cx, w, 'r%d' % i) for i, w in enumerate(whats)]
    cx.pyuff.UFF(cx.path('a.uff')).write_sets(ds)
    f = cx.read_file('a.uff')
    u = cx.pyuff.UFF(cx.path('a.uff'))
    s0 = state(cx, u)
    n = len(ds)

    def rd(h):
        if h == 'all':
            return as_list(u.read_sets())
        if h == 'number':
            return [u.read_sets(i) for i in range(n)]
        return as_list(u.read_sets(list(range(n))))
    a = rd(how)
    keep = deep(cx, a)
    spoil(a)
    b = rd(again)
    cx.check(len(b) == n, 'number of sets')
    for i in range(n):
        equal(cx, b[i], keep[i], 'second read of set %d' % i)
    c = as_list(cx.pyuff.UFF(cx.path('a.uff')).read_sets())
    for i in range(n):
        equal(cx, c[i], keep[i], 'other object, set %d' % i)
    same(cx, state(cx, u), s0, 'state')
    cx.check(cx.read_file('a.uff') == f, 'file unchanged')


def asked(cx, whats, order, mode):
    """The caller's lists of sets and of indices stay as they are, and the same lists mean the same again."""
    ds = [variant(cx, w, 'q%d' % i) for i, w in enumerate(whats)]
    given = list(ds)
    u = cx.pyuff.UFF(cx.path('a.uff'))
    u.write_sets(ds, mode)
    cx.check(len(ds) == len(given), 'list of sets keeps its length')
    for a, b in zip(ds, given):
        cx.check(a is b, 'list of sets keeps its members')
    f = cx.read_file('a.uff')
    u.write_sets(ds, 'overwrite')
    cx.check(cx.read_file('a.uff') == f, 'same bytes for the same list')
    idx = list(order)
    keep = [deep(cx, u.read_sets(i)) for i in order]
    for label in ('first', 'second'):
        got = as_list(u.read_sets(idx))
        cx.check_eq(len(got), len(order), '%s: number of sets' % label)
        for i, g in enumerate(got):
            equal(cx, g, keep[i], '%s: position %d' % (label, i))
        cx.check(idx == list(order), '%s: list of indices unchanged' % label)
    as_list(u.read_sets(idx, header_only=True))
    cx.check(idx == list(order), 'header only: list of indices unchanged')
    cx.check(cx.read_file('a.uff') == f, 'file unchanged')


def writing(cx, what, mode='add', force=True):
    """The caller's dictionary keeps its values; equal dictionaries give equal bytes."""
    d = variant(cx, what)
    keep = deep(cx, d)
    other_d = copy(cx, d)
    skip = ('ord_data_type', 'n_bytes', 'abscissa_min', 'abscissa_inc') if d['type'] == 58 else ()
    u = cx.pyuff.UFF(cx.path('a.uff'))
    u.write_sets(d, mode, force)
    same(cx, d, keep, 'after writing', skip)
    f = cx.read_file('a.uff')
    # the same dictionary again, in both modes and in a list
    u.write_sets(d, 'overwrite', force)
    cx.check(cx.read_file('a.uff') == f, 'same bytes when written again')
    u.write_sets([d, d], 'add', force)
    cx.check(cx.read_file('a.uff') == cx.cat([f, f, f]), 'same bytes when written twice')
    same(cx, d, keep, 'after writing again', skip)
    cx.pyuff.UFF(cx.path('b.uff')).write_sets(other_d, mode, force)
    cx.check(cx.read_file('b.uff') == f, 'same bytes for an equal dictionary')


def minimal(cx, kind, twice):
    """What a writer filled in belongs to the caller: changing it in one set changes no later write of an equal set."""
    from checks.p18 import defaults, holder, full
    d, _, _ = full(cx, kind, 1)
    for h in holder(kind, d):
        for k in defaults(kind, d, 1):
            if not k.startswith(('date', 'time')) or kind != '151':
                h.pop(k, None)
    a, b = copy(cx, d), copy(cx, d)
    u = cx.pyuff.UFF(cx.path('a.uff'))
    u.write_sets(a)
    f = cx.read_file('a.uff')
    if twice:
        u.write_sets(a)
    spoil_keep(a)
    u.write_sets(b, 'overwrite')
    cx.check(cx.read_file('a.uff') == f, 'same bytes for an equal dictionary')
    r = u.read_sets()
    keep = deep(cx, r)
    spoil(r)
    equal(cx, u.read_sets(), keep, 'second read')


def spoil_keep(v):
    """Change every list and array of a dictionary in place."""
    if isinstance(v, dict):
        for k in list(v):
            spoil_keep(v[k])
    elif isinstance(v, list):
        for k, x in enumerate(v):
            if isinstance(x, (dict, list)) or hasattr(x, 'fill'):
                spoil_keep(x)
            else:
                v[k] = 9
        v.append(7)
    elif hasattr(v, 'fill'):
        v.fill(9)


def copy(cx, v):
    if isinstance(v, dict):
        return {k: copy(cx, x) for k, x in v.items()}
    if isinstance(v, list):
        return [copy(cx, x) for x in v]
    if isinstance(v, tuple):
        return tuple(copy(cx, x) for x in v)
    if cx.is_array(v):
        return v.copy()
    return v


def rewriting(cx, whats, force=True, mode='add'):
    """Read, written and read again."""
    ds = [variant(cx, w, 'w%d' % i) for i, w in enumerate(whats)]
    cx.pyuff.UFF(cx.path('a.uff')).write_sets(ds, 'add', force)
    again(cx, len(ds), force, mode)


def again(cx, n, force, mode):
    a = as_list(cx.pyuff.UFF(cx.path('a.uff')).read_sets())
    cx.check(len(a) == n, 'number of sets')
    keep = deep(cx, a)
    fa = cx.read_file('a.uff')
    cx.pyuff.UFF(cx.path('b.uff')).write_sets(a if n > 1 else a[0], mode, force)
    b = as_list(cx.pyuff.UFF(cx.path('b.uff')).read_sets())
    cx.check(len(b) == n, 'number of sets again')
    if len(b) != n:
        cx.stop()
    for i in range(n):
        equal(cx, b[i], keep[i], 'set %d' % i, CALC.get(keep[i]['type'], ()))
    cx.check(cx.read_file('a.uff') == fa, 'first file unchanged')
    # once more: nothing changes any further, the file included
    fb = cx.read_file('b.uff')
    cx.pyuff.UFF(cx.path('c.uff')).write_sets(b if n > 1 else b[0], mode, force)
    cx.check(cx.read_file('c.uff') == fb, 'same bytes when rewritten once more')


def foreign(cx, kind, n, style):
    """The same for a file of another program."""
    d, _ = make(cx, kind, 'a', n)
    kw = {'complex_': False} if kind == '55' else {'complex_': False, 'even': True, 'double': True, 'inc': 0.5} if kind == '58' else {}
    if kind == '58':
        d = dict(header(cx, 0), **d)
        for k in ('id2', 'id3', 'id5'):
            d[k] = 'NONE'
    raw = render(cx, kind, layout.body(cx, kind, d, **kw), style)
    cx.write_file('a.uff', raw)
    again(cx, 1, True, 'add')


def history(cx, ops, what, second):
    """Two operations on one object between two readings of the first set."""
    d = variant(cx, what, 'h')
    e = variant(cx, second, 'k')
    u = cx.pyuff.UFF(cx.path('a.uff'))
    u.write_sets(d)
    f = cx.read_file('a.uff')
    first = deep(cx, u.read_sets(0))
    n = 1
    for op in ops:
        if op == 'read':
            spoil(u.read_sets(0))
        elif op == 'all':
            spoil(u.read_sets())
        elif op == 'header':
            spoil(u.read_sets(0, header_only=True))
        elif op == 'refresh':
            u.refresh()
        elif op == 'write':
            u.write_sets(e)
            n += 1
        elif op == 'rewrite':
            u.write_sets(u.read_sets(0))
            n += 1
        elif op == 'over':
            u.write_sets(u.read_sets(0), 'overwrite')
            n = 1
    equal(cx, u.read_sets(0), first, 'first set', CALC.get(first['type'], ()) if 'over' in ops else ())
    cx.check_eq(u.get_n_sets(), n, 'number of sets')
    if n == 1 and 'over' not in ops:
        cx.check(cx.read_file('a.uff') == f, 'file unchanged')
    elif 'over' not in ops:
        cx.check(cx.read_file('a.uff')[:cx.length(f)] == f, 'first set unchanged')


def variants(th):
    out = ['%s:%d' % (k, n) for k in KINDS for n in ((1, 2, 3) if k in ('15', '2411', '18', '55', '82', '58', '58b', '2414', '2414g', '2420', '2429', '2467', '2412') else (1,))]
    for k in ('f58', 'f58b'):
        out += ['%s:%s:%s:%s:%d' % (k, c, e, p, n) for c in 'rc' for e in 'eu' for p in 'ds' for n in ((1, 2, 3, 5) if th else (2, 3))]
    out += ['d55:%d:%s:%d:%d' % (a, c, m, n) for a in (2, 3, 5, 7) for c, m, n in (('r', 3, 1), ('r', 6, 2), ('c', 3, 1), ('c', 3, 2))]
    out += ['e2412:' + ','.join(x) for x in (['41'], ['44', '41', '44'], ['21', '44'], ['115', '116'], ['111', '22', '21', '41'])]
    out += ['g%s:%s' % (t, x) for t in ('2429', '2467') for x in ('1', '0', '3,2', '8,1,0')]
    return out


def instances(tier):
    th = tier == 'thorough'
    vs = variants(th)
    out = []
    hows = ('all', 'number', 'list')
    for i, w in enumerate(vs):
        out.append(('reading', dict(whats=(w,), how=hows[i % 3], again=hows[(i // 3) % 3])))
        out.append(('writing', dict(what=w, mode=('add', 'overwrite')[i % 2], force=i % 4 < 2 if w.startswith('f58') else True)))
        out.append(('rewriting', dict(whats=(w,), force=i % 3 > 0 if w.startswith('f58') else True, mode=('add', 'overwrite')[i % 2])))
        if i % 3 == 0 or th:
            out.append(('reading', dict(whats=(w, vs[(i * 7 + 5) % len(vs)]), how=hows[i // 3 % 3], again=hows[i % 3])))
            out.append(('rewriting', dict(whats=(vs[(i * 5 + 11) % len(vs)], w), mode=('overwrite', 'add')[i % 2])))
    st = [{'exp': 'e', 'eol': e, 'pad': p, 'delim': d} for e in ('\n', '\r\n') for p, d in (('none', False), ('full', True), ('trim', False))]
    for i, k in enumerate(k for k in KINDS if k != '58b'):
        for j, s in enumerate(st):
            if th or (i + j) % 2 == 0:
                out.append(('foreign', dict(kind=k, n=1 + (i + j) % 2, style=s)))
    for k in ('15', '18', '55', '58', '82', '151', '164', '2400', '2414g', '2420', '2429', '2467', '1858', '2411', '2412', '2414'):
        out += [('minimal', dict(kind=k, twice=t)) for t in (False, True)]
    for i, k in enumerate(LISTED):
        for j, n in enumerate((17, 40, 130, 300) + ((1000,) if th else ())):
            w = '%s:%d:long' % (k, n)
            out.append(('reading', dict(whats=(w,), how=hows[(i + j) % 3], again=hows[j % 3])))
            out.append(('writing', dict(what=w, mode=('add', 'overwrite')[(i + j) % 2])))
            out.append(('rewriting', dict(whats=(w,), mode=('add', 'overwrite')[(i + j) % 2])))
    for i, o in enumerate(((2, 0), (1, 1, 0), (2, 1, 0), (0,), (0, 2, 2, 1))):
        out.append(('asked', dict(whats=tuple(vs[(i * 11 + 3 * j) % len(vs)] for j in range(3)), order=o, mode=('add', 'overwrite')[i % 2])))
        out.append(('asked', dict(whats=('15:1', '58b:2', '82:2'), order=o, mode=('overwrite', 'add')[i % 2])))
    ops = ('read', 'all', 'header', 'refresh', 'write', 'rewrite', 'over')
    short = ['15:1', '58:2', '58b:2', '82:2', '151:1', '2414:1', '2412:1', '2467:1', '55:1', '18:1', '2420:1', '164:1']
    j = 0
    for a in ops:
        for b in ops:
            for q in range(len(short) if th else 3):
                j += 1
                out.append(('history', dict(ops=(a, b), what=short[(j * 5 + q) % len(short)], second=short[(j * 7 + q + 3) % len(short)])))
    return out

"""P26: objects, files and calls do not influence each other."""
from checks.common import as_list
from checks.sets import KINDS, set_type
from checks.p19 import SPEC, func, right
from checks.p18 import full, defaults, holder
from checks.p25 import variant, deep, equal, same, spoil, spoil_keep, copy, state

ACTS = ('write', 'over', 'fail', 'read', 'header', 'fix', 'prepare', 'convert', 'unsupported', 'refresh')
BOUNDS = {'quick': 'every ordered pair of kinds of sets (symbolic content, one or two rows, 58 and 58b in several variants) on two objects and files, the work on the first interleaved with one of ten activities on the second: '
                   'write, overwrite, failing write, read, header-only read, fix_58b, prepare functions, 2412 conversion, unsupported set, refresh; three objects written to in turn; every prepare function called with all arguments, '
                   'then others, then with some',
          'thorough': 'as quick, every pair of kinds with every activity'}
ASSUMPTIONS = ['one process, one thread; the fields that default to the current time are given']


def act(cx, what, v, db, i):
    """Something that does not concern the first object."""
    if what == 'write':
        v.write_sets(copy(cx, db))
    elif what == 'over':
        v.write_sets([copy(cx, db), copy(cx, db)], 'overwrite')
    elif what == 'fail':
        bad = copy(cx, db)
        for k in [k for k in bad if k != 'type']:
            bad[k] = None
        bad['data'] = None
        cx.raises(v.write_sets, bad)
        cx.raises(v.read_sets, 99)
        cx.raises(v.write_sets, copy(cx, db), 'append')
    elif what == 'read':
        spoil(v.read_sets())
        spoil(v.read_sets(0))
    elif what == 'header':
        spoil(v.read_sets(0, header_only=True))
    elif what == 'fix':
        cx.pyuff.fix_58b(cx.path('a.unv'), cx.path('fixed%d.uff' % i))
    elif what == 'prepare':
        for fn in ('prepare_15', 'prepare_58', 'prepare_82', 'prepare_2412', 'prepare_55'):
            r = func(cx, fn)(return_full_dict=True)
            spoil(r)
            spoil(func(cx, fn)())
    elif what == 'convert':
        spoil(cx.pyuff.tools.convert_dataset_2412_to_82([{'type': 2412, 'quad': {'nodes_nums': [[1, 2, 3, 4], [4, 3, 5, 6]]}}, {'type': 15}]))
    elif what == 'unsupported':
        v.write_sets({'type': 777, 'x': [1, 2]})
    elif what == 'refresh':
        v.refresh()


def pair(cx, a, b, what):
    """Work on one file, with other work in between, leaves what it leaves alone."""
    da, db = variant(cx, a, 'a'), variant(cx, b, 'b')
    # alone
    u = cx.pyuff.UFF(cx.path('p.uff'))
    u.write_sets(copy(cx, da))
    f = cx.read_file('p.uff')
    kept = u.read_sets()
    keep = deep(cx, kept)
    s = state(cx, u)[:4]
    spoil(kept)
    # interleaved
    u, v = cx.pyuff.UFF(cx.path('a.uff')), cx.pyuff.UFF(cx.path('a.unv'))
    v.write_sets(copy(cx, db))
    act(cx, what, v, db, 0)
    d = copy(cx, da)
    u.write_sets(d)
    spoil_keep(d)
    cx.check(cx.read_file('a.uff') == f, 'bytes after other work')
    g = cx.read_file('a.unv')
    vs = state(cx, v)
    act(cx, what, v, db, 1)
    same(cx, state(cx, u)[:4], s, 'state')
    cx.check_eq(u.get_file_name(), cx.path('a.uff'), 'name')
    r = u.read_sets()
    equal(cx, r, keep, 'read after other work')
    spoil(r)
    act(cx, what, v, db, 2)
    equal(cx, u.read_sets(0), keep, 'read again')
    u.write_sets(copy(cx, da))
    cx.check(cx.read_file('a.uff') == cx.cat([f, f]), 'bytes of the second write')
    cx.check_eq(u.get_n_sets(), 2, 'number of sets')
    equal(cx, u.read_sets([1]), keep, 'second set')
    if what in ('read', 'header', 'fix', 'prepare', 'convert', 'refresh'):
        cx.check(cx.read_file('a.unv') == g, 'the other file')
        same(cx, state(cx, v), vs, 'state of the other object')
    cx.check_eq(v.get_file_name(), cx.path('a.unv'), 'name of the other')
    cx.check_eq(list(v.get_set_types())[:1], [db['type']], 'type in the other file')
    # and the other way round: a new object sees what both left
    w = cx.pyuff.UFF(cx.path('a.uff'))
    same(cx, state(cx, w)[0], 2, 'sets for a new object')


def turns(cx, kinds, modes):
    """Several objects, written to in turn: each file as if it were alone."""
    ds = [variant(cx, k, 't%d' % i) for i, k in enumerate(kinds)]
    alone = []
    for i, d in enumerate(ds):
        cx.pyuff.UFF(cx.path('alone%d.uff' % i)).write_sets(copy(cx, d))
        alone.append(cx.read_file('alone%d.uff' % i))
    us = [cx.pyuff.UFF(cx.path('t%d.uff' % i)) for i in range(len(ds))]
    want = [[] for _ in ds]
    for step, mode in enumerate(modes):
        for i, u in enumerate(us):
            j = (i + step) % len(ds)
            u.write_sets(copy(cx, ds[j]), mode)
            want[i] = [j] if mode == 'overwrite' else want[i] + [j]
            for k, w in enumerate(us):
                cx.check_eq(w.get_n_sets(), len(want[k]), 'number of sets of object %d' % k)
    for i, u in enumerate(us):
        cx.check(cx.read_file('t%d.uff' % i) == cx.cat([b''] + [alone[j] for j in want[i]]), 'file %d' % i)
        cx.check_eq(list(u.get_set_types()), [ds[j]['type'] for j in want[i]], 'types %d' % i)
        n = len(want[i])
        r = as_list(u.read_sets())
        for x, j in zip(r, want[i]):
            cx.check_eq(cx.get(x, 'type'), ds[j]['type'], 'type read')
        cx.check(len(r) == n, 'sets read')


def prepares(cx, fn, other, form):
    """A prepare function keeps nothing of earlier calls, its own or another's."""
    spec, ospec = SPEC[fn], SPEC[other]
    need = {'prepare_group': 4, 'prepare_group_2467': 6}.get(fn, 0)
    vals = {k: right(cx, k, kind, form) for k, kind in spec}
    ovals = {k: right(cx, 'o_' + k, kind, form + 1) for k, kind in ospec}
    f, g = func(cx, fn), func(cx, other)
    def again(skip):
        part = {k: v for i, (k, v) in enumerate(vals.items()) if i < need or i % 3 != skip}
        r = f(**part)
        keys = set(part) | ({k for k, _ in spec} if need else {'type'})
        cx.check_eq(sorted(r), sorted(keys), 'keys')
        for k in r:
            if k in part:
                cx.check(r[k] is part[k], k + ' is the object given')
            elif k == 'type':
                cx.check_eq(r[k], int(fn[8:]), 'type')
            else:
                cx.check_eq(r[k], 0, k)
        return r
    first = f(**vals)
    g(**ovals)
    again(0)
    r = again(1)
    for k in list(r):
        r[k] = None
    r['extra'] = 1
    cx.raises(f, **dict(vals, **{spec[0][0]: object}))
    g()if not other.startswith('prepare_group') else None
    again(2)
    again(5)
    cx.check_eq(sorted(first), sorted(set(vals) | (set() if need else {'type'})), 'first result keys')
    for k in vals:
        cx.check(first[k] is vals[k], 'first result ' + k)


def defaulted(cx, kind, at, mode, read):
    """Optional fields given in one set are not the defaults of the next, in the same file or another."""
    rich, _, _ = full(cx, kind, 1 + (mode == 'overwrite'), at)
    d = copy(cx, rich)
    o = defaults(kind, d, 1)
    for h in holder(kind, d):
        for k in o:
            if o[k] is not None:
                h.pop(k, None)
    given = deep(cx, d)
    u = cx.pyuff.UFF(cx.path('p.uff'))
    u.write_sets(copy(cx, d))
    f = cx.read_file('p.uff')
    u, v = cx.pyuff.UFF(cx.path('a.uff')), cx.pyuff.UFF(cx.path('b.uff'))
    d1 = copy(cx, rich)
    v.write_sets(d1)
    if read:
        spoil(v.read_sets())
    spoil_keep(d1)
    d2 = copy(cx, d)
    u.write_sets(d2)
    cx.check(cx.read_file('a.uff') == f, 'bytes after a set with the optional fields')
    spoil_keep(d2)
    v.write_sets(copy(cx, d), mode)
    if mode == 'overwrite':
        cx.check(cx.read_file('b.uff') == f, 'bytes after an overwrite')
    u.write_sets(copy(cx, rich))
    u.write_sets(copy(cx, d))
    g = cx.read_file('a.uff')
    cx.check(g[cx.length(g) - cx.length(f):] == f, 'bytes behind a set with the optional fields')
    same(cx, d, given, 'the dictionary that was copied')


def listing(cx, how):
    """The list of supported sets belongs to who asked for it."""
    u, v = cx.pyuff.UFF(cx.path('a.uff')), cx.pyuff.UFF(cx.path('b.uff'))
    want = list(v.get_supported_sets())
    l = u.get_supported_sets()
    if how == 'clear':
        del l[:]
    elif how == 'extend':
        l.append('777')
    else:
        l[:] = ['777'] * len(l)
    cx.check_eq(list(v.get_supported_sets()), want, 'list of another object')
    cx.check_eq(list(u.get_supported_sets()), want, 'list asked for again')
    d = variant(cx, '151:1', 'a')
    v.write_sets(copy(cx, d))
    v.write_sets({'type': 777})
    cx.check_eq(list(v.get_set_types()), [151], 'types written')
    cx.check_eq(cx.get(v.read_sets(), 'type'), 151, 'set read')


def handed(cx, a, b, what):
    """What a call handed out belongs to the caller: changing it changes no later call."""
    da, db = variant(cx, a, 'a'), variant(cx, b, 'b')
    u = cx.pyuff.UFF(cx.path('a.uff'))
    u.write_sets([copy(cx, da), copy(cx, db)])
    keep = deep(cx, cx.pyuff.UFF(cx.path('a.uff')).read_sets())
    want = state(cx, cx.pyuff.UFF(cx.path('a.uff')))
    t, f = u.get_set_types(), u.get_set_formats()
    if what == 'set':
        t[0], f[0] = 999, 1 - f[0]
    elif what == 'fill':
        t[:] = 15
        f[:] = 5
    elif what == 'reverse':
        t[:] = list(t)[::-1]
        f[:] = list(f)[::-1]
    same(cx, state(cx, u), want, 'state')
    for x, y in zip(u.read_sets(), keep):
        equal(cx, x, y, 'sets')
    equal(cx, u.read_sets(0), keep[0], 'first set')
    spoil(u.read_sets())
    same(cx, state(cx, u), want, 'state after reading')
    equal(cx, u.read_sets(1), keep[1], 'second set')


KEEP = ('type', 'analysis_type', 'model_type', 'func_type', 'ord_data_type', 'abscissa_spacing', 'binary', 'num_nodes', 'fe_descriptor', 'spec_data_type', 'data_ch', 'dataset_location',
        'number_of_data_values_for_the_data_component', 'data_characteristic', 'data_type')
EXTREME = {'ints': (9999999999, None, None), 'negative': (-999999999, -1.5e-300, None), 'reals': (None, -1.5e300, None), 'texts': (None, None, 'W' * 130), 'breaks': (None, None, 'a\nb'),
           'all': (9999999999, 1e-310, '\u00e9' * 81), 'kinds': (1.5, 7, ''), 'infinite': (None, float('inf'), ' '), 'nan': (0, float('nan'), '    -1')}


def extreme(cx, v, how, key=None):
    """The same set with unusual values, all of them constants."""
    i, r, s = [y if x is None else x for x, y in zip(EXTREME[how], (3, 0.5, 'abc'))]
    if isinstance(v, dict):
        return {k: v[k] if k in KEEP else extreme(cx, v[k], how, k) for k in v}
    if isinstance(v, (list, tuple)) or cx.is_array(v):
        if cx.is_array(v) and v.ndim > 1:
            return v.copy()
        return [extreme(cx, x, how, key) for x in v]
    n = cx.type_name(v)
    if n == 'str':
        return s
    if n in ('float', 'float64', 'complex', 'complex128'):
        return complex(r, r) if 'complex' in n else r
    if n in ('int', 'int64', 'bool'):
        return i
    return v


def unusual(cx, a, b, how, force):
    """A set with unusual values, accepted or refused, changes nothing for the sets written after it."""
    da, db = variant(cx, a, 'a'), variant(cx, b, 'b')
    cx.pyuff.UFF(cx.path('p.uff')).write_sets(copy(cx, da))
    f = cx.read_file('p.uff')
    keep = deep(cx, cx.pyuff.UFF(cx.path('p.uff')).read_sets())
    v = cx.pyuff.UFF(cx.path('b.uff'))
    u = cx.pyuff.UFF(cx.path('a.uff'))
    cx.raises(v.write_sets, extreme(cx, copy(cx, db), how), 'add', force)
    cx.raises(v.read_sets)
    u.write_sets(copy(cx, da))
    cx.check(cx.read_file('a.uff') == f, 'bytes after an unusual set')
    cx.raises(v.write_sets, extreme(cx, copy(cx, da), how), 'overwrite', force)
    equal(cx, u.read_sets(), keep, 'read after an unusual set')
    cx.raises(v.read_sets)
    w = cx.pyuff.UFF(cx.path('c.uff'))
    w.write_sets(copy(cx, da))
    cx.check(cx.read_file('c.uff') == f, 'bytes of a new file')
    equal(cx, w.read_sets(), keep, 'read of a new file')


def named(i, k):
    """A variant of kind k."""
    if k == '58':
        return 'f58:%s:%s:%s:%d' % ('rc'[i % 2], 'eu'[i // 2 % 2], 'ds'[i // 4 % 2], 2 + i % 2)
    if k == '58b':
        return 'f58b:%s:%s:%s:%d' % ('rc'[i % 2], 'eu'[i // 2 % 2], 'ds'[i // 4 % 2], 2 + i % 2)
    if k == '55':
        return 'd55:%d:%s:3:%d' % ((2, 3, 5, 7)[i % 4], 'rc'[i // 4 % 2], 1 + i % 2)
    if k == '2412':
        return 'e2412:' + ('41', '44,41', '21,44', '115')[i % 4]
    return '%s:%d' % (k, 1 + i % 2)


def instances(tier):
    out = []
    th = tier == 'thorough'
    n = 0
    for i, a in enumerate(KINDS):
        for j, b in enumerate(KINDS):
            for k, w in enumerate(ACTS):
                if th or (i * 3 + j * 7) % 10 == k or a == b and k < 5:
                    out.append(('pair', dict(a=named(n, a), b=named(n // 2 + 1, b), what=w)))
                    n += 1
    for i, a in enumerate(KINDS):
        ks = [named(i + j, KINDS[(i + s) % len(KINDS)]) for j, s in enumerate((0, 5, 11))]
        out.append(('turns', dict(kinds=ks, modes=('add', 'overwrite', 'add'))))
        out.append(('turns', dict(kinds=ks[:2] + ks[:1], modes=('overwrite', 'add', 'ADD'))))
    for i, k in enumerate(('15', '18', '55', '58', '82', '151', '164', '2400', '2414g', '2420', '2429', '2467')):
        for at in (2, 3, 5, 7) if k == '55' else (2,):
            for j, mode in enumerate(('add', 'overwrite')):
                out.append(('defaulted', dict(kind=k, at=at, mode=mode if k != '2420' else 'add', read=(i + j) % 2 == 0)))
    for i, a in enumerate(KINDS):
        for j, how in enumerate(EXTREME):
            for s in (0, 1 + (i + j) % 16) if not th else range(17):
                out.append(('unusual', dict(a=named(i + j, a), b=named(i + 2 * j + 1, KINDS[(i + s) % 17]), how=how, force=(i + j + s) % 3 > 0)))
    for how in ('clear', 'extend', 'other'):
        out.append(('listing', dict(how=how)))
    for i, a in enumerate(KINDS):
        out.append(('handed', dict(a=named(i, a), b=named(i + 1, KINDS[(i * 4 + 3) % len(KINDS)]), what=('set', 'fill', 'reverse')[i % 3])))
    fns = sorted(SPEC)
    for i, fn in enumerate(fns):
        for form in (0, 1, 3) if th or True else (1,):
            for s in (0, 1, 7):
                out.append(('prepares', dict(fn=fn, other=fns[(i + s) % len(fns)], form=form)))
    return out

"""P14: a failed write leaves the file and its earlier sets intact."""
from checks.sets import make, KINDS, LISTED, set_type
from checks.p12 import check_all, fresh

BOUNDS = {'quick': 'each of the 17 kinds of sets, with every single field (also of the nested groups and elements) left out, set to None, to a text, to an empty or a too short list; every one of the first 25 '
                   'write or close operations failing with OSError; on a file that is missing, empty, or holds one or two sets (ASCII, binary) or long ones of 200 to 400 members; the file is then used on (another write, same and fresh object)',
          'thorough': 'as quick, with every kind of set before and two failures in a row, 60 operations'}
ASSUMPTIONS = ['the failed operation is a write, flush or close on the output (restoring the file is not itself disturbed)', 'add mode']
# lists with one entry for each member, next to the one that counts the members
TOO_SHORT = {'15': 'x y z'.split(), '2411': 'def_cs disp_cs color x y z'.split(), '18': 'ref_cs_num ref_o x_point xz_point'.split(), '2420': 'CS_colors CS_matrices CS_names CS_sys_labels CS_types'.split(),
             '2429': ['entity_tag'], '2467': 'entity_tag entity_node_leaf_id entity_component_id'.split(), '55': 'r1 r2 r3'.split(), '2414': 'x y z'.split(), '2414g': ['data_at_node'], '58': ['x'], '58b': ['x']}
BAD = ['missing', 'none', 'text', 'empty', 'short', 'object']


def break_field(cx, d, how, pos):
    """Break one field of d, by position; nested dictionaries are reached through their lists."""
    flat = []

    def walk(x):
        for k in list(x):
            if k == 'type':
                continue
            v = x[k]
            if isinstance(v, list) and v and isinstance(v[0], dict):
                for y in v:
                    walk(y)
            flat.append((x, k))
    walk(d)
    x, k = flat[pos % len(flat)]
    v = x[k]
    if how == 'missing':
        del x[k]
    elif how == 'none':
        x[k] = None
    elif how == 'text':
        x[k] = 'bad'
    elif how == 'empty':
        x[k] = []
    elif how == 'short':
        x[k] = v[:-1] if isinstance(v, (list, str)) or hasattr(v, 'shape') else [v]
    else:
        x[k] = {'a': 1}
    return k


def n_fields(cx, d):
    n = 0
    for k in d:
        v = d[k]
        n += k != 'type'
        if isinstance(v, list) and v and isinstance(v[0], dict):
            n += sum(n_fields(cx, y) for y in v)
    return n


def setup(cx, before):
    u = fresh(cx)
    want = []
    if before == 'empty':
        cx.write_file('a.uff', b'')
        u.refresh()
    elif before:
        for j, k in enumerate(before):
            k, m = (k.split('*') + ['1'])[:2]
            d, v = make(cx, k, 'b%d_' % j, n=int(m), rich=j == 0 and k != '58b', long=m != '1')
            u.write_sets(d)
            want.append((set_type(k), v))
    return u, want


def after(cx, u, want, e, kind, v, before):
    """The state after a write that may have failed (e), then further use of the file."""
    if e is None:
        if kind is None:
            return
        # nothing failed, the set is there
        want = want + [(set_type(kind), v)]
        check_types(cx, u, want)
    else:
        check_all(cx, want)
        check_all(cx, want, u=u)
    d, w = make(cx, '15', 'later_')
    u.write_sets(d)
    if e is None:
        u2 = fresh(cx)
        r = u2.read_sets(len(want))
        w(cx, r)
        for j, (t, v) in enumerate(want[:-1]):
            v(cx, u2.read_sets(j))
    else:
        want = want + [(15, w)]
        check_all(cx, want)
        check_all(cx, want, u=u)
    d, w = make(cx, '58b', 'last_', rich=False)
    u.write_sets(d)
    w(cx, fresh(cx).read_sets(len(want) + (e is None)))


def check_types(cx, u, want):
    for o in (u, fresh(cx)):
        cx.check_eq(o.get_n_sets(), len(want), 'number of sets')
        cx.check_eq(o.get_set_types(), [t for t, _ in want], 'types')


def malformed(cx, kind, how, before):
    u, want = setup(cx, before)
    old = cx.read_file('a.uff') if cx.exists('a.uff') else b''
    d, v = make(cx, kind, 's_', n=2, rich=False)
    pos = cx.choice('field', range(n_fields(cx, d)))
    k = break_field(cx, d, how, pos)
    e = cx.raises(u.write_sets, d)
    if how == 'short' and k in TOO_SHORT.get(kind, ()) and e is None:
        whole(cx, kind, len(want), k)
    if e is not None:
        cx.check(cx.read_file('a.uff') == old if cx.exists('a.uff') else old == b'', 'file as before')
    after(cx, u, want, e, kind, v, before)


def whole(cx, kind, i, k):
    """A set accepted with a list that is too short is not written in part: every list has one entry per member."""
    x = cx.raises(fresh(cx).read_sets, i)
    cx.check(x is None, 'the set written with a short %s can be read' % k)
    if x is None:
        r = fresh(cx).read_sets(i)
        for h in r['groups'] if kind in ('2429', '2467') else [r]:
            first = {'18': 'cs_num', '2420': 'CS_types', '2429': 'entity_type_code', '2467': 'entity_type_code', '58': 'data', '58b': 'data'}.get(kind, 'node_nums')
            n = len(h[first]) if first in h else 0
            cx.check(n > 0, 'a set written with a short %s has the members it is long enough for' % k)
            for f in TOO_SHORT[kind]:
                cx.check(f in h and len(h[f]) == n, 'a set written with a short %s is whole: %s' % (k, f))


def no_type(cx, before):
    u, want = setup(cx, before)
    e = cx.raises(u.write_sets, {'node_nums': [1]})
    cx.check(e is not None, 'raises')
    after(cx, u, want, e, None, None, before)


def many(cx, before):
    """A list whose second set fails: the first one is in the file, the third not."""
    u, want = setup(cx, before)
    a, va = make(cx, '82', 'a_')
    b, _ = make(cx, '55', 'b_', rich=False)
    b[cx.choice('key', ['node_nums', 'r2', 'analysis_type', 'mode_n'])] = None
    c, _ = make(cx, '164', 'c_', rich=False)
    e = cx.raises(u.write_sets, [a, b, c])
    cx.check(e is not None, 'raises')
    after(cx, u, want + [(82, va)], e, None, None, before)


def faulty(cx, kind, lo, hi, before, twice=False, n=2):
    """The k-th operation on the output fails."""
    u, want = setup(cx, before)
    k = cx.choice('k', range(lo, hi))
    d, v = make(cx, kind, 's_', n=n, rich=n > 2, long=n > 2)
    with cx.fault_writes(k):
        e = cx.raises(u.write_sets, dict(d))
    if twice:
        with cx.fault_writes(k + 1):
            e = cx.raises(u.write_sets, dict(d)) or e
        if e is None:
            return
        cx.check(u.get_n_sets() == fresh(cx).get_n_sets(), 'number of sets')
        return
    after(cx, u, want, e, kind, v, before)


def instances(tier):
    out = []
    q = tier == 'quick'
    bs = [None, 'empty', ['15'], ['58b'], ['58', '2412'], ['2467', '58b']]
    i = 0
    for kind in KINDS:
        for how in BAD:
            out.append(('malformed', dict(kind=kind, how=how, before=bs[i % len(bs)])))
            if not bs[i % len(bs)] or bs[i % len(bs)] == 'empty':
                out.append(('malformed', dict(kind=kind, how=how, before=['82'] if i % 2 else ['58b'])))
            i += 1
        out.append(('faulty', dict(kind=kind, lo=0, hi=25 if q else 60, before=bs[i % len(bs)])))
    for j, kind in enumerate(LISTED):
        for b in (['58b*300'], ['15*200', '82*400', '58*300']):
            out.append(('malformed', dict(kind=kind, how=BAD[j % len(BAD)], before=b)))
            lo = (3, 30, 90, 150)[j % 4]
            out.append(('faulty', dict(kind=kind, lo=lo, hi=lo + (3 if q else 30), before=b, n=120)))
    for b in bs if q else bs + [[k] for k in KINDS]:
        out.append(('no_type', dict(before=b)))
        out.append(('many', dict(before=b)))
        for kind in ('15', '58b', '2429', '151') if q else KINDS:
            out.append(('faulty', dict(kind=kind, lo=0, hi=8 if q else 25, before=b)))
            if not q:
                out.append(('faulty', dict(kind=kind, lo=0, hi=25, before=b, twice=True)))
                for how in BAD:
                    out.append(('malformed', dict(kind=kind, how=how, before=b)))
    return out

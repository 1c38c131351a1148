"""P11: groups (sets 2429 and 2467) survive a write and a read."""
from checks.common import one, ints, span, constant, sparsable, with_long, long_instances

BOUNDS = with_long({'quick': 'both sets, given as a list of 0..3 groups (2429 also as the fields of one group), 0..9, 12 and 25 entities per group in every mixture of remainders; group numbers over 10 columns, active-set '
                   'numbers and entities 0..999999999 (also negative ones singly, and ten-digit ones in all or some fields), names of 1..40 symbolic characters or literal, lists and arrays',
          'thorough': 'as quick, 0..26 entities in each of up to 4 groups, 100 entities'})
ASSUMPTIONS = ['names neither begin nor end with a blank; symbolic names hold no minus sign', 'which entity fields have ten digits (fill their columns) is fixed by the instance']
SETS = ('active_constraint_set_no_for_group', 'active_restraint_set_no_for_group', 'active_load_set_no_for_group', 'active_dof_set_no_for_group', 'active_temperature_set_no_for_group',
        'active_contact_set_no_for_group')
NAMES = ['A-1 B', '    x', '1 2', '-1', '0', '7 8 9 10 11 12 13 14']
M = 999999999


def group(cx, t, i, n, form, idl, neg=None, full=None):
    g = {'group_number': cx.int('g%d' % i, 0, 9999999999), 'group_name': cx.text('name%d' % i, idl) if idl > 0 else NAMES[(i - idl) % len(NAMES)].strip()}
    for k in SETS:
        g[k] = cx.int('%s%d' % (k, i), -99999999 if k == neg else 0, M)
    keys = ('entity_type_code', 'entity_tag') + (('entity_node_leaf_id', 'entity_component_id') if t == 2467 else ())
    for k in keys:
        g[k] = ints(cx, '%s%d_' % (k, i), n, *span(full, k, M))
        if k == neg:
            g[k][0] = cx.int('neg', -99999999, -2)
    want = dict(g)
    if form == 'array':
        for k in keys:
            g[k] = cx.array(g[k], 'int64')
    return g, want, keys


@sparsable
def groups(cx, t, ns, form='list', idl=5, neg=None, single=False, full=None):
    gs = [group(cx, t, i, n, form, idl + i if idl > 0 else idl, neg, full) for i, n in enumerate(ns)]
    if single:
        d = dict(gs[0][0], type=t)
    else:
        d = {'type': t, 'groups': [g for g, _, _ in gs]}
    r = one(cx, d)
    got = cx.get(r, 'groups')
    cx.check(len(got) == len(ns), 'number of groups')
    if len(got) != len(ns):
        cx.stop()
    for (g, w, keys), o, n in zip(gs, got, ns):
        for k in ('group_number', 'group_name') + SETS + keys:
            cx.check_eq(cx.get(o, k), w[k], k)
        cx.check_eq(cx.get(o, 'number_of_entities_in_group'), n, 'number_of_entities_in_group')


@sparsable
def long_group(cx, t, n, form='list', single=False, two=False):
    groups(cx, t, [n, 3] if two else [n], form, 5, None, single, sparse=True)


@sparsable
def many_groups(cx, t, n):
    """Many groups of few entities."""
    gs, want = [], []
    for i in range(n):
        if constant(cx, n, i):
            m = (i * i) % 6
            g = {'group_number': i + 5, 'group_name': 'g %d' % i}
            for j, k in enumerate(SETS):
                g[k] = (i * j) % 11
            for k in ('entity_type_code', 'entity_tag') + (('entity_node_leaf_id', 'entity_component_id') if t == 2467 else ()):
                g[k] = [i + 10 * j + len(k) for j in range(m)]
            w = dict(g)
        else:
            g, w, _ = group(cx, t, i, i % 4, 'list', 4)
        gs.append(g)
        want.append(w)
    got = cx.get(one(cx, {'type': t, 'groups': gs}), 'groups')
    cx.check(len(got) == n, 'number of groups')
    if len(got) == n:
        for o, w in zip(got, want):
            for k in w:
                cx.check_eq(cx.get(o, k), w[k], k)


def instances(tier):
    out = []
    q = tier == 'quick'
    for t in (2429, 2467):
        ns = list(range(10)) + [12, 25] if q else list(range(27)) + [100]
        i = 0
        for n in ns:
            out.append(('groups', dict(t=t, ns=[n], form='array' if n % 2 else 'list', idl=1 + 3 * (n % 14))))
            if t == 2429:
                out.append(('groups', dict(t=t, ns=[n], form='list' if n % 2 else 'array', single=True)))
        for a in range(6) if q else range(9):
            for b in range(6) if q else range(9):
                out.append(('groups', dict(t=t, ns=[a, b], form='array' if (a + b) % 2 else 'list', idl=-1 - i)))
                i += 1
        for ns in ([], [3, 0, 4], [0, 0, 0], [1, 8, 2], [4, 4, 4], [2, 5, 0, 9]):
            out.append(('groups', dict(t=t, ns=ns)))
        out.append(('groups', dict(t=t, ns=[2, 3], idl=39)))
        for neg in SETS + ('entity_type_code', 'entity_tag') + (('entity_node_leaf_id', 'entity_component_id') if t == 2467 else ()):
            out.append(('groups', dict(t=t, ns=[1, 3] if neg in SETS[:2] else [2], neg=neg, idl=2)))
    # integers that fill their columns
    E = ['entity_tag', 'entity_node_leaf_id', 'entity_component_id']
    for i, full in enumerate(('all', E[:1], E[:2], E, E[1:], ['entity_type_code', 'entity_tag'])):
        out += [('groups', dict(t=t, ns=ns, form='array' if i % 2 else 'list', full=full)) for t in ((2429, 2467) if i in (0, 1, 5) else (2467,)) for ns in ([1], [2, 1, 4], [5])]
    for t in (2429, 2467):
        out += long_instances(tier, 'long_group', dict(t=t), dict(t=t, form='array'), dict(t=t, two=True), *([dict(t=t, single=True)] if t == 2429 else []))
        out += long_instances(tier, 'many_groups', dict(t=t))
    return out

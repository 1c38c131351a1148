"""P19: the prepare functions build exactly the dictionary of their arguments."""
from checks.common import ints, reals
from checks.f58 import AXES

BOUNDS = {'quick': 'every prepare function: all arguments, none, and every subset of each window of 5 arguments (the others all given or all left out), given by name and by position, values symbolic (choices cycle through their members; integers of 9 digits, '
                   'any real, text of 0..4 characters, also between blanks, lists, tuples and arrays of 2), full dictionary asked for or not; each checked argument of the wrong kind (8 kinds of values) alone and with all others given; each argument '
                   'with documented choices over all integers of 6 digits and non-integer reals; groups of 2429 and 2467 with each field wrong in the first and the second group',
          'thorough': 'as quick with windows of 8 arguments'}
ASSUMPTIONS = ['integers are Python integers or int64 arrays and non-empty lists of them, reals are Python floats or float64 arrays and non-empty lists of them (numpy scalars and other widths are outside)',
               'no error is demanded for arguments the functions leave unchecked: those of set 18, modal_m of 55, x and the ignored record 1 fields of 58, the members of status_mask of 2400']

# kinds: s text; i integer or integers; I one integer; f real or reals; F one real; n numbers; d real or complex; t list of 32; u unchecked; N list of text; 'l' list, tuple or array of integers; a tuple: the choices
S58 = [('binary', (0, 1))] + [('id%d' % k, 's') for k in range(1, 6)] + [
    ('func_type', tuple(range(28))), ('ver_num', 'i'), ('load_case_id', 'i'), ('rsp_ent_name', 's'), ('rsp_node', 'i'), ('rsp_dir', tuple(range(-6, 7))), ('ref_ent_name', 's'), ('ref_node', 'i'),
    ('ref_dir', tuple(range(-6, 7))), ('ord_data_type', (2, 4, 5, 6)), ('num_pts', 'i'), ('abscissa_spacing', (0, 1)), ('abscissa_min', 'f'), ('abscissa_inc', 'f'), ('z_axis_value', 'f')]
for _a in AXES:
    S58 += [(_a + '_spec_data_type', tuple(range(21))), (_a + '_len_unit_exp', 'i'), (_a + '_force_unit_exp', 'i'), (_a + '_temp_unit_exp', 'i'), (_a + '_axis_units_lab', 's')]
S58 += [('data', 'd'), ('x', 'u'), ('spec_data_type', 'u'), ('byte_ordering', 'u'), ('fp_format', 'u'), ('n_ascii_lines', 'u'), ('n_bytes', 'u')]
GROUP = [('group_number', 'I+'), ('group_name', 's+'), ('entity_type_code', 'i'), ('entity_tag', 'i')]
ACTIVE = [('active_%s_set_no_for_group' % k, 'I+') for k in ('constraint', 'restraint', 'load', 'dof', 'temperature', 'contact')]
SPEC = {
    'prepare_15': [('node_nums', 'l'), ('def_cs', 'i'), ('disp_cs', 'i'), ('color', 'i'), ('x', 'f'), ('y', 'f'), ('z', 'f')],
    'prepare_18': [(k, 'u') for k in ('cs_num', 'cs_type', 'ref_cs_num', 'color', 'method', 'cs_name', 'ref_o', 'x_point', 'xz_point')],
    'prepare_55': [('id%d' % k, 's') for k in range(1, 6)] + [('model_type', (0, 1, 2, 3)), ('analysis_type', (2, 3, 5, 7)), ('data_ch', (0, 1, 2, 3, 4, 5)), ('spec_data_type', tuple(range(19))), ('data_type', (2, 5)),
                                                              ('n_data_per_node', 'i')] + [('r%d' % k, 'n') for k in range(1, 7)] +
                  [('load_case', 'I'), ('mode_n', 'I'), ('freq', 'f'), ('modal_m', 'u'), ('modal_damp_vis', 'F'), ('modal_damp_his', 'F'), ('eig', 'n'), ('modal_a', 'n'), ('modal_b', 'n'), ('freq_step_n', 'I'), ('node_nums', 'i')],
    'prepare_58': S58,
    'prepare_82': [('trace_num', 'i'), ('n_nodes', 'i'), ('color', 'i'), ('id', 's'), ('nodes', 'i')],
    'prepare_151': [('model_name', 's'), ('description', 's'), ('db_app', 's'), ('date_db_created', 's'), ('time_db_created', 's'), ('version_db1', 'i'), ('version_db2', 'i'), ('file_type', (0, 1, 2)), ('date_db_saved', 's'),
                    ('time_db_saved', 's'), ('program', 's'), ('date_db_written', 's'), ('time_db_written', 's')],
    'prepare_164': [('units_code', tuple(range(10))), ('units_description', 's'), ('temp_mode', (1, 2)), ('length', 'F'), ('force', 'F'), ('temp', 'F'), ('temp_offset', 'F')],
    'prepare_1858': [(k, 'i') for k in ('record_num', 'octave_format', 'measurement_run', 'weighting_type', 'window_type', 'amplitude_units', 'normalization_method', 'abscissa_data_type_qualifier',
                                        'ordinate_numerator_data_type_qualifier', 'ordinate_denominator_data_type_qualifier', 'z_axis_data_type_qualifier', 'sampling_type')] +
                    [(k, 'f') for k in ('z_rpm_value', 'z_time_value', 'z_order_value', 'num_of_samples', 'user_value_1', 'user_value_2', 'user_value_3', 'user_value_4', 'exponential_window_damping_factor')] +
                    [('response_direction', 's'), ('reference_direction', 's')],
    'prepare_2400': [('model_uid', 'i'), ('entity_type', 'i'), ('entity_subtype', 'i'), ('version_number', 'i'), ('entity_name', 's'), ('part_number', 's'), ('status_mask', 't'), ('date', 's'), ('time', 's'), ('idm_version_id', 'i'),
                     ('idm_item_id', 'i'), ('primary_parent_uid', 'i'), ('optimization_switches', 'i')],
    'prepare_2411': [('node_nums', 'i'), ('def_cs', 'i'), ('disp_cs', 'i'), ('color', 'i'), ('x', 'f'), ('y', 'f'), ('z', 'f')],
    'prepare_2412': [(k, 'i') for k in ('element_nums', 'fe_descriptor', 'phys_table', 'mat_table', 'color', 'num_nodes', 'nodes_nums', 'beam_orientation', 'beam_foreend_cross', 'beam_aftend_cross')],
    'prepare_2414': [('analysis_dataset_label', 'i'), ('analysis_dataset_name', 's'), ('dataset_location', (1, 2, 3, 5))] + [('id%d' % k, 's') for k in range(1, 6)] +
                    [('model_type', (0, 1, 2, 3)), ('analysis_type', (0, 1, 2, 3, 4, 5, 6, 7, 9)), ('data_characteristic', (0, 1, 2, 3, 4, 6)), ('result_type', 'I'), ('data_type', (1, 2, 4, 5, 6))] +
                    [(k, 'i') for k in ('number_of_data_values_for_the_data_component', 'design_set_id', 'iteration_number', 'solution_set_id', 'boundary_condition', 'load_set', 'mode_number', 'time_step_number',
                                        'frequency_number', 'creation_option', 'number_retained')] +
                    [(k, 'f') for k in ('time', 'frequency', 'eigenvalue', 'modal_mass', 'viscous_damping', 'hysteretic_damping', 'real_part_eigenvalue', 'imaginary_part_eigenvalue', 'real_part_of_modal_A_or_modal_mass',
                                        'imaginary_part_of_modal_A_or_modal_mass', 'real_part_of_modal_B_or_modal_mass', 'imaginary_part_of_modal_B_or_modal_mass', 'd')] + [('node_nums', 'i'), ('x', 'd'), ('y', 'd'), ('z', 'd')],
    'prepare_2420': [('Part_UID', 'i'), ('Part_Name', 's'), ('CS_sys_labels', 'i'), ('CS_types', 'c'), ('CS_colors', 'i'), ('CS_names', 'N'), ('CS_matrices', 'f')],
    'prepare_group': GROUP + ACTIVE,
    'prepare_group_2467': GROUP + [('entity_node_leaf_id', 'i'), ('entity_component_id', 'i')] + ACTIVE,
}
I9 = 999999999


def func(cx, fn):
    return cx.pyuff.datasets.dataset_2467.prepare_group if fn == 'prepare_group_2467' else getattr(cx.pyuff, fn)


def right(cx, name, kind, form):
    """A value of the right kind; form picks scalar, list, tuple or array."""
    if isinstance(kind, tuple):
        return kind[(form * 7 + len(name)) % len(kind)]
    if kind in ('s', 's+'):
        v = cx.text(name, (name[-1] in 'aei12') + (2 if kind == 's' else 1) if name[-1] != 't' or kind == 's+' else 0)
        return ' ' + v + '  ' if form % 3 == 1 else v
    if kind == 't':
        return [cx.int(name, 0, I9)] * 16 + [0] * 16
    if kind == 'N':
        v = [cx.text(name + '0', 3), '']
        return [v, v[0], v][form % 3]
    if kind == 'c':
        v = [cx.int(name + '0', 0, 2), cx.int(name + '1', 0, 2)]
        return [v, tuple(v), cx.array(v, 'int64')][form % 3]
    if kind in ('I', 'I+'):
        return cx.int(name, 0 if kind == 'I+' else -I9, I9)
    if kind == 'F':
        return cx.real(name, small=False)
    if kind in ('i', 'l'):
        if form % 4 == 0 and kind == 'i':
            return cx.int(name, -I9, I9)
        v = ints(cx, name, 2, -I9, I9)
        return [v, v, tuple(v), cx.array(v, 'int64')][form % 4]
    v = reals(cx, name, 2, small=False)
    if kind in ('n', 'd', 'u') and form % 8 > 3:
        w = [cx.cplx(v[0], v[1]), cx.cplx(v[1], 0.5)]
        return [w[0], w, tuple(w), cx.array(w, 'complex128')][form % 4]
    if kind == 'u' and form % 8 == 2:
        return 'text'
    if kind == 'n' and form % 8 == 2:
        return ints(cx, name + 'i', 2, -I9, I9)
    return [v[0], v, tuple(v), cx.array(v, 'float64')][form % 4]


def plain(cx, name, kind):
    """Arguments that could be taken for missing ones: empty text, zero, False-like choices."""
    if isinstance(kind, tuple):
        return 0 if 0 in kind else kind[0]
    return {'s': '', 's+': 'g', 't': [0] * 32, 'N': ['', ''], 'c': [0, 0], 'I': 0, 'I+': 0, 'F': 0.0, 'i': 0, 'l': [0], 'n': 0.0}.get(kind, 0.0)


def nothing(cx, fn, which, full):
    """All arguments empty or zero, or one of them (the others not given)."""
    spec = SPEC[fn]
    need = len([1 for k, _ in spec if not k.startswith('active')]) if fn.startswith('prepare_group') else 0
    if which == 'all':
        pick = range(len(spec))
    else:
        j = cx.int('which', need, len(spec) - 1).__index__()
        pick = list(range(need)) + [j]
    vals = {spec[j][0]: plain(cx, *spec[j]) for j in pick}
    was = kept(cx, vals)
    r = func(cx, fn)(**dict(vals, **({} if full is None else {'return_full_dict': full})))
    want = dict(vals)
    if not need:
        want['type'] = int(fn[8:])
    for k, _ in spec:
        if k not in want and (need or full):
            want[k] = 0 if need else None
    cx.check_eq(sorted(r), sorted(want), 'keys')
    for k in vals:
        same(cx, r[k], vals[k], k, was[k])
    cx.check_eq({k: r[k] for k in r if k not in vals}, {k: want[k] for k in want if k not in vals}, 'the others')


def kept(cx, vals):
    """The contents of the arguments, before the call."""
    return {k: [x for x in v] if isinstance(v, (list, tuple)) or cx.is_array(v) else v for k, v in vals.items()}


def same(cx, got, v, k, was):
    """The argument itself or an equal value of the same kind; the contents are those before the call."""
    if got is not v:
        cx.check(cx.type_name(got) == cx.type_name(v), k + ' has the kind given')
    if isinstance(v, (list, tuple)) or cx.is_array(v):
        if got is not v and cx.is_array(v):
            cx.check(str(got.dtype) == str(v.dtype), k + ' has the element type given')
        n = len(was)
        cx.check(len(got) == n and len(v) == n, k + ' length')
        if len(got) == n and len(v) == n:
            cx.check(cx.all([x == w if not (x is w) else True for x, w in zip(got, was)]), k + ' as given')
            if got is not v:
                cx.check(cx.all([x == w if not (x is w) else True for x, w in zip(v, was)]), k + ' unchanged')
    elif got is v:
        cx.check(True, k + ' as given')
    else:
        cx.check_eq(got, v, k + ' as given')


def given(cx, fn, lo, m, others, form, full, how):
    """The arguments lo..lo+m-1 each given or not, the others all given or not."""
    spec = SPEC[fn]
    need = 0
    if fn.startswith('prepare_group'):
        need = 4 if fn == 'prepare_group' else 6
    vals = {}
    for j, (k, kind) in enumerate(spec):
        if j < need or (cx.bool('give ' + k) if lo <= j < lo + m else others):
            vals[k] = right(cx, k, kind, form + j)
    f = func(cx, fn)
    was = kept(cx, vals)
    kw = {} if full is None else {'return_full_dict': full}
    if how == 'position':
        # all up to the last one given; the others None, or their default for groups
        last = max([j for j, (k, _) in enumerate(spec) if k in vals], default=-1)
        args = [vals.get(k, None if need == 0 else 0) for k, _ in spec[:last + 1]]
        r = f(*args, **kw)
    else:
        r = f(**dict(vals, **kw))
    want = dict(vals)
    if need == 0:
        want['type'] = int(fn[8:])
    for k, kind in spec:
        if k not in want:
            if need:
                want[k] = 0
            elif full:
                want[k] = None
    cx.check(type(r).__name__ == 'dict', 'a dictionary')
    cx.check_eq(sorted(r), sorted(want), 'keys')
    for k in want:
        if k in vals:
            same(cx, r[k], vals[k], k, was[k])
        else:
            cx.check_eq(r[k], want[k], k)


def wrongs(cx, kind, name):
    """Values of the wrong kind."""
    i, f, t = cx.int(name + 'i', -I9, I9), cx.real(name + 'f'), cx.text(name + 't', 2)
    c = cx.cplx(f, 1.5)
    if isinstance(kind, tuple):
        cx.assume(cx.no(cx.any([f == k for k in kind])))
        return [f, t, [t, t]]
    if kind in ('s', 's+'):
        return [i, f, [t], (t, t), c, cx.array([i, 2], 'int64')]
    if kind == 't':
        return [i, [i] * 31, [i] * 33, f, t]
    if kind == 'N':
        return [i, f, [t, i], [f], (t,)]
    if kind == 'c':
        return [[0, i + 3 * I9], [-I9 - 1 + i, 1], f, t, [f + 5000, 0.5], [t], (t, 1)]
    if kind == 'l':
        return [i, f, t, [f, 0.5], [t], c, (f, 1.5), cx.array([f, 2.0], 'float64')]
    if kind == 'i':
        return [f, t, [f, 0.5], [t], c, (i, f), cx.array([f, 2.0], 'float64'), cx.array([f], 'float64')]
    if kind in ('I', 'I+'):
        return [f, t, [i], c, (i, 2), cx.array([i, 2], 'int64')] + ([-1 - cx.int(name + 'neg', 0, I9)] if kind == 'I+' else [])
    if kind == 'F':
        return [i, t, [f], c, (f, 0.5), cx.array([f, 2.0], 'float64')]
    if kind == 'f':
        return [i, t, [i, 2], [t], c, [c, f], cx.array([i, 2], 'int64'), cx.array([i], 'int64')]
    if kind == 'n':
        return [t, [t, 'x'], (t,)]
    return [t, i, [i, 2], [t, 'x'], cx.array([i, 2], 'int64')]


def count(kind):
    return 3 if isinstance(kind, tuple) else {'s': 6, 's+': 6, 't': 5, 'N': 5, 'c': 7, 'l': 8, 'i': 8, 'I': 6, 'I+': 7, 'F': 6, 'f': 8, 'n': 3, 'd': 5}[kind]


def wrong(cx, fn, name, others):
    spec = SPEC[fn]
    kind = dict(spec)[name]
    vals = {}
    for j, (k, kd) in enumerate(spec):
        if k != name and (others or (fn.startswith('prepare_group') and not k.startswith('active'))):
            vals[k] = right(cx, k, kd, j)
    j = cx.int('kind', 0, count(kind) - 1).__index__()
    w = wrongs(cx, kind, 'w')
    cx.check(len(w) == count(kind), 'number of kinds')
    vals[name] = w[j]
    e = cx.raises(func(cx, fn), **vals)
    cx.check(e is not None and type(e).__name__ in ('TypeError', 'ValueError'), '%s of the wrong kind raises' % name)


def chosen(cx, fn, name, choices, others):
    """Accepted exactly if it is one of the choices."""
    v = cx.int('v', -999999, 999999)
    vals = {name: v}
    if others:
        for j, (k, kd) in enumerate(SPEC[fn]):
            if k != name:
                vals[k] = right(cx, k, kd, j)
    e = cx.raises(func(cx, fn), **vals)
    ok = cx.any([v == c for c in choices])
    if e is None:
        cx.check(ok, '%s outside the choices raises' % name)
    else:
        cx.check(type(e).__name__ in ('TypeError', 'ValueError'), 'kind of error')
        cx.check(cx.no(ok), '%s among the choices is accepted' % name)


def mask(cx, n):
    e = cx.raises(cx.pyuff.prepare_2400, status_mask=ints(cx, 'm', n, 0, 9))
    cx.check((e is None) == (n == 32), 'status_mask has 32 members')


def empty_name(cx, fn):
    vals = {k: right(cx, k, kd, 1) for k, kd in SPEC[fn] if k != 'group_name'}
    e = cx.raises(func(cx, fn), group_name='', **vals)
    cx.check(e is not None and type(e).__name__ in ('TypeError', 'ValueError'), 'an empty group name raises')


def groups(cx, t, n, full):
    fn = 'prepare_group' if t == 2429 else 'prepare_group_2467'
    gs = []
    for i in range(n):
        vals = {k: right(cx, '%d%s' % (i, k), kd, i + j) for j, (k, kd) in enumerate(SPEC[fn])}
        gs.append(func(cx, fn)(**vals))
    copies = [dict(g) for g in gs]
    wases = [kept(cx, g) for g in gs]
    f = getattr(cx.pyuff, 'prepare_%d' % t)
    r = f(gs) if full is None else f(groups=gs, return_full_dict=full)
    cx.check_eq(sorted(r), ['groups', 'type'], 'keys')
    cx.check_eq(r['type'], t, 'type')
    cx.check(type(r['groups']).__name__ == 'list' and len(r['groups']) == len(copies) and len(gs) == len(copies), 'groups')
    if len(r['groups']) == len(copies) and len(gs) == len(copies):
        for got, g, c, w in zip(r['groups'], gs, copies, wases):
            for x in (got, g):
                cx.check_eq(sorted(x), sorted(c), 'keys of the group')
                for k in c:
                    if k in x:
                        same(cx, x[k], c[k], k, w[k])


def wrong_group(cx, t, at, name):
    fn = 'prepare_group' if t == 2429 else 'prepare_group_2467'
    gs = [{k: right(cx, '%d%s' % (i, k), kd, 1) for k, kd in SPEC[fn]} for i in range(2)]
    kind = dict(SPEC[fn])[name]
    gs[at][name] = wrongs(cx, kind, 'w')[cx.int('kind', 0, count(kind) - 1).__index__()]
    e = cx.raises(getattr(cx.pyuff, 'prepare_%d' % t), gs)
    cx.check(e is not None and type(e).__name__ in ('TypeError', 'ValueError'), '%s of the wrong kind raises' % name)


def not_list(cx, t):
    fn = 'prepare_group' if t == 2429 else 'prepare_group_2467'
    g = {k: right(cx, k, kd, 1) for k, kd in SPEC[fn]}
    j = cx.int('kind', 0, 3).__index__()
    e = cx.raises(getattr(cx.pyuff, 'prepare_%d' % t), [g, (g,), 'text', 5][j])
    cx.check(e is not None and type(e).__name__ in ('TypeError', 'ValueError'), 'groups that are no list raise')


def instances(tier):
    q = tier == 'quick'
    W = 5 if q else 8
    out = []
    i = 0
    for fn, spec in SPEC.items():
        n = len(spec)
        need = 0 if not fn.startswith('prepare_group') else n - 6
        for form in range(8):
            for full in (None, True, False):
                out.append(('given', dict(fn=fn, lo=0, m=0, others=True, form=form, full=full, how='position' if (form + (full is True)) % 2 else 'name')))
        for full in (None, True, False):
            out.append(('given', dict(fn=fn, lo=0, m=0, others=False, form=0, full=full, how='name')))
        for full in (None, True, False) if need == 0 else (None,):
            for which in ('all', 'one'):
                out.append(('nothing', dict(fn=fn, which=which, full=full)))
        for lo in range(need, n, W):
            for others in (True, False):
                i += 1
                out.append(('given', dict(fn=fn, lo=lo, m=W, others=others, form=i % 8, full=(None, True, False)[i % 3], how='position' if i % 2 else 'name')))
        for k, kind in spec:
            if kind != 'u':
                for others in (True, False):
                    out.append(('wrong', dict(fn=fn, name=k, others=others)))
            if isinstance(kind, tuple):
                for others in (True, False):
                    out.append(('chosen', dict(fn=fn, name=k, choices=kind, others=others)))
    for n in (0, 1, 31, 32, 33):
        out.append(('mask', dict(n=n)))
    for t, fn in ((2429, 'prepare_group'), (2467, 'prepare_group_2467')):
        out.append(('empty_name', dict(fn=fn)))
        out.append(('not_list', dict(t=t)))
        for n in range(4):
            for full in (None, True, False):
                out.append(('groups', dict(t=t, n=n, full=full)))
        for at in (0, 1):
            for k, _ in SPEC[fn]:
                out.append(('wrong_group', dict(t=t, at=at, name=k)))
    return out

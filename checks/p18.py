"""P18: optional fields get their documented defaults, missing required fields raise."""
from checks.common import ints, reals
from checks.f58 import header, AXES, LAB, UNITS
from checks import layout
from checks.p05 import data55
from checks.p16 import written
from checks.sets import make, set_type

BOUNDS = {'quick': 'sets 15, 18, 55 (each analysis type), 58 (ASCII; single and double), 82, 151, 164, 2400, 2414, 2420, 2429 (groups and single group), 2467: every subset of the optional fields where there are up to 5; '
                   'else every single field, all but one, all, none, and (58, 2400, 2414: a third of) all pairs; content of 1 and 2 members symbolic. Required fields: each one left out, with all and without any optional fields, '
                   'for every supported set type',
          'thorough': 'as quick with all pairs and subsets of up to 8 optional fields'}
ASSUMPTIONS = ['documented defaults are those the writers declare: zero integers and numbers, text NONE, and the particular ones listed in checks/p18.py', 'the current date and time of set 151 do not change format or day between two calls '
               'of time.strftime more than once per check', 'column layout as in checks/layout.py']
ACTIVE = tuple('active_%s_set_no_for_group' % k for k in ('constraint', 'restraint', 'load', 'dof', 'temperature', 'contact'))


def defaults(kind, d, n):
    """The optional fields and their defaults."""
    z = [0] * n
    if kind == '15':
        return {'def_cs': z, 'disp_cs': z, 'color': z}
    if kind == '18':
        return {'cs_type': z, 'color': z, 'method': [1] * n, 'cs_name': [''] * n}
    if kind == '55':
        o = {'id%d' % k: 'NONE' for k in range(1, 6)}
        o['model_type'] = 1
        if d['analysis_type'] == 2:
            o.update({'modal_m': 0, 'modal_damp_vis': 0, 'modal_damp_his': 0})
        elif d['analysis_type'] in (3, 7):
            o.update({'modal_a': 0j, 'modal_b': 0j})
        return o
    if kind == '58':
        o = {'id%d' % k: 'NONE' for k in range(1, 6)}
        for k in ('func_id', 'ver_num', 'load_case_id', 'z_axis_value', 'binary'):
            o[k] = 0
        o['rsp_ent_name'] = o['ref_ent_name'] = 'NONE'
        for a in AXES:
            for q in ('spec_data_type', 'len_unit_exp', 'force_unit_exp', 'temp_unit_exp'):
                o['%s_%s' % (a, q)] = 0
            o[LAB[a]] = o[UNITS[a]] = 'NONE'
        return o
    if kind == '82':
        return {'id': 'NONE', 'color': 0}
    if kind == '151':
        return {'version_db1': 0, 'version_db2': 0, 'file_type': 0, 'date_db_created': None, 'time_db_created': None, 'date_db_saved': None, 'time_db_saved': None,
                'date_file_written': None, 'time_file_written': None}
    if kind == '164':
        return {'units_description': 'User unit system', 'temp_mode': 1}
    if kind == '2400':
        o = {k: 0 for k in ('model_uid', 'entity_type', 'entity_subtype', 'version_number', 'idm_version_id', 'idm_item_id', 'primary_parent_uid', 'optimization_switches')}
        o.update({'entity_name': '', 'part_number': '', 'date': '', 'time': '', 'status_mask': [0] * 32})
        return o
    if kind == '2414g':
        return {'record%d_field%d' % (r, f): 0 for r, m in ((10, 8), (11, 8), (12, 6), (13, 6)) for f in range(1, m + 1)}
    if kind == '2420':
        return {'Part_UID': 1, 'Part_Name': 'None', 'CS_types': [0], 'CS_colors': [8]}
    if kind in ('2429', '2467'):
        return {k: 0 for k in ACTIVE}
    return {}


def full(cx, kind, n, at=2, variant=0):
    """A set with every optional field given, the dictionary for the layout and the arguments of layout.body."""
    kw = {}
    if kind == '55':
        d, want = data55(cx, at, at in (3, 7), 3, n, 'list', 12)
        if variant:
            # real values for the complex modal parameters
            for k in ('modal_a', 'modal_b'):
                if k in d:
                    d[k] = want[k] = cx.real(k + 'real')
        return d, dict(want), {'complex_': at in (3, 7)}
    if kind == '58':
        d, _ = make(cx, kind, 'a', n)
        d.update(header(cx, 3))
        d['binary'] = 0
        kw = {'complex_': False, 'even': True, 'double': True}
    elif kind == '2414g':
        d, _ = make(cx, kind, 'a', n)
        for r, m in ((10, 8), (11, 8), (12, 6), (13, 6)):
            for f in range(1, m + 1):
                d['record%d_field%d' % (r, f)] = cx.int('q%d_%d' % (r, f), 0, 99999) if r < 12 else cx.real('q%d_%d' % (r, f))
    elif kind == '2400':
        d, _ = make(cx, kind, 'a', n)
        d['status_mask'] = ints(cx, 'mask', 32, 0, 9)
        d['date'], d['time'] = cx.text('date', 10), cx.text('time', 10)
    elif kind == '151':
        d, _ = make(cx, kind, 'a', n)
        for k in ('version_db1', 'version_db2', 'file_type'):
            d[k] = cx.int('q' + k, 0, 999)
        for k in ('date_db_created', 'time_db_created', 'date_db_saved', 'time_db_saved', 'date_file_written', 'time_file_written'):
            d[k] = cx.text('q' + k, 9)
    else:
        d, _ = make(cx, kind, 'a', n)
    return d, dict(d), kw


def holder(kind, d):
    """The dictionaries that hold the optional fields."""
    return d['groups'] if kind in ('2429', '2467') and 'groups' in d else [d]


def optional(cx, kind, n, mode, at=2, variant=0, at1=None, m1=0):
    """Any subset (mode all), one field (one), all but one (but) or two fields (pair) left out."""
    d, want, kw = full(cx, kind, n, at, variant)
    if kind in ('2429', '2467'):
        d['groups'] = [dict(d['groups'][0])]
        want['groups'] = [dict(d['groups'][0])]
        if variant == 1:
            # a second group without any optional field
            two = {'group_number': 77, 'group_name': 'two', 'entity_type_code': [7], 'entity_tag': [12], 'entity_node_leaf_id': [1], 'entity_component_id': [2]}
            d['groups'].insert(0, two)
            want['groups'].insert(0, dict({k: 0 for k in ACTIVE}, **two))
        elif variant == 2:
            d = dict(d['groups'][0], type=2429)
    o = defaults(kind, d, n)
    keys = sorted(o)
    if mode == 'all':
        left = [k for k in keys if cx.bool('no ' + k)]
    elif mode == 'every':
        left = keys
    elif mode == 'pair':
        j = cx.int('which', 0, len(keys) - 1).__index__()
        left = [keys[at1], keys[j]]
    else:
        lo = at1 or 0
        j = cx.int('which', lo, min(lo + m1 - 1, len(keys) - 1) if m1 else len(keys) - 1).__index__()
        left = [keys[j]] if mode == 'one' else keys[:j] + keys[j + 1:]
    h, w = holder(kind, d)[-1], holder(kind, want)[-1]
    for k in left:
        h.pop(k, None)
        w[k] = o[k]
    before = dict(h)
    if kind == '151':
        return dates(cx, d, want, left)
    written(cx, kind, d, layout.body(cx, kind, want, **kw))
    for k in before:
        if k not in ('data', 'x', 'n_bytes', 'abscissa_min', 'ord_data_type') and not (kind == '55' and k in ('modal_a', 'modal_b')):
            cx.check_eq(h[k], before[k], 'given ' + k)


def blank(cx, kind, n, others):
    """Optional texts given as the empty text stay empty, whatever else is given (the other optional fields or none of them)."""
    d, want, kw = full(cx, kind, n)
    o = defaults(kind, d, n)
    h, w = holder(kind, d)[-1], holder(kind, want)[-1]
    keys = sorted(k for k in o if isinstance(h.get(k), str) or kind in ('55', '58') and isinstance(o[k], str) or cx.type_name(h.get(k)) == 'str')
    cx.check(len(keys) > 0, 'there are optional texts')
    if cx.bool('all of them'):
        pick = keys
    else:
        pick = [keys[cx.int('which', 0, len(keys) - 1).__index__()]]
    for k in o:
        if k in pick:
            h[k] = w[k] = ''
        elif not others and o[k] is not None:
            h.pop(k, None)
            w[k] = o[k]
    written(cx, kind, d, layout.body(cx, kind, want, **kw))
    for k in pick:
        cx.check_eq(h[k], '', 'given ' + k)
    r = cx.pyuff.UFF(cx.path('a.uff')).read_sets()
    r = cx.get(r, 'groups')[-1] if kind in ('2429', '2467') else r
    for k in pick:
        cx.check_eq(cx.get(r, k), '', 'read ' + k)


def dates(cx, d, want, left):
    """Set 151: dates and times that are left out are the current ones."""
    def now():
        return {'d': cx.now('%d-%b-%y'), 't': cx.now('%H:%M:%S')}
    before = dict(d)
    t0 = now()
    u = cx.pyuff.UFF(cx.path('a.uff'))
    u.write_sets(d)
    t1 = now()
    lines = layout.split(cx, cx.read_file('a.uff'), '151')
    cx.check(len(lines) == 10, '151 number of lines')
    if len(lines) != 10:
        cx.stop()
    want = dict(want)
    for ln, off, k in ((5, 0, 'date_db_created'), (5, 10, 'time_db_created'), (6, 0, 'date_db_saved'), (6, 10, 'time_db_saved'), (8, 0, 'date_file_written'), (8, 10, 'time_file_written')):
        if k in left:
            c = k[0]
            got = lines[ln][off:off + 10].strip()
            ok = [t0[c], t1[c]]
            if c == 't':
                # any time of the day between the two calls
                cx.check(cx.length(got) == 8, k + ' is a time')
                if t0['d'] == t1['d']:
                    sec = [int(x[:2]) * 3600 + int(x[3:5]) * 60 + int(x[6:8]) for x in (t0['t'], t1['t'])]
                    g = str(got)
                    v = int(g[:2]) * 3600 + int(g[3:5]) * 60 + int(g[6:8])
                    cx.check(sec[0] <= v <= sec[1], k + ' is the current time')
            else:
                cx.check(cx.any([got == x for x in ok]), k + ' is the current date')
            want[k] = got
    layout.check_records(cx, lines[2:-1], layout.body(cx, '151', want), '151')
    for k in before:
        cx.check_eq(d[k], before[k], 'given ' + k)


def prepared151(cx):
    """The names prepare_151 uses for the date and time the file is written."""
    d, _ = make(cx, '151', 'a', 1)
    for k in ('date_file_written', 'time_file_written'):
        del d[k]
    d['date_db_written'], d['time_db_written'] = cx.text('date', 9), cx.text('time', 9)
    want = dict(d, date_file_written=d['date_db_written'], time_file_written=d['time_db_written'])
    written(cx, '151', d, layout.body(cx, '151', want))


def list2420(cx, n, names):
    """Several coordinate systems: the defaults of types and colours are lists of one, so both calls are refused alike."""
    d, _ = make(cx, '2420', 'a', n)
    e = dict(d)
    for k in names:
        del d[k]
        e[k] = {'CS_types': [0], 'CS_colors': [8]}[k]
    for x, f in ((d, 'a.uff'), (e, 'b.uff')):
        u = cx.pyuff.UFF(cx.path(f))
        cx.check(cx.raises(u.write_sets, x) is not None, 'lists of different lengths raise')
        cx.check_eq(u.get_n_sets(), 0, 'nothing written')


NAMED = ('15', '18', '55', '58', '82', '151', '164', '2400')
REQUIRED = {
    '15': ('node_nums', 'x', 'y', 'z'), '18': ('cs_num', 'ref_cs_num', 'ref_o', 'x_point', 'xz_point'), '82': ('trace_num', 'nodes'),
    '151': ('model_name', 'description', 'db_app', 'program'), '164': ('units_code', 'length', 'force', 'temp', 'temp_offset'),
    '58': ('func_type', 'rsp_node', 'rsp_dir', 'ref_node', 'ref_dir', 'x', 'data'), '58b': ('func_type', 'rsp_node', 'rsp_dir', 'ref_node', 'ref_dir', 'x', 'data'),
    '58s': ('ord_data_type',), '55-2': ('analysis_type', 'data_ch', 'spec_data_type', 'load_case', 'mode_n', 'freq', 'node_nums', 'r1', 'r2', 'r3'),
    '55-3': ('analysis_type', 'data_ch', 'spec_data_type', 'load_case', 'mode_n', 'eig', 'node_nums', 'r1', 'r2', 'r3'),
    '55-5': ('analysis_type', 'data_ch', 'spec_data_type', 'load_case', 'freq_step_n', 'freq', 'node_nums', 'r1', 'r2', 'r3'),
    '55-7': ('analysis_type', 'data_ch', 'spec_data_type', 'load_case', 'mode_n', 'eig', 'node_nums', 'r1', 'r2', 'r3'),
    '1858': ('record_num', 'octave_format', 'measurement_run', 'weighting_type', 'window_type', 'amplitude_units', 'normalization_method', 'abscissa_data_type_qualifier',
             'ordinate_numerator_data_type_qualifier', 'ordinate_denominator_data_type_qualifier', 'z_axis_data_type_qualifier', 'sampling_type', 'z_rpm_value', 'z_time_value', 'z_order_value',
             'num_of_samples', 'user_value_1', 'user_value_2', 'user_value_3', 'user_value_4', 'exponential_window_damping_factor', 'response_direction', 'reference_direction'),
    '2411': ('node_nums', 'def_cs', 'disp_cs', 'color', 'x', 'y', 'z'), '2420': ('CS_sys_labels', 'CS_names', 'CS_matrices'),
    '2412': ('element_nums', 'fe_descriptor', 'phys_table', 'mat_table', 'color', 'num_nodes', 'nodes_nums'),
    '2412b': ('beam_orientation', 'beam_foreend_cross', 'beam_aftend_cross'),
    '2414': ('analysis_dataset_label', 'analysis_dataset_name', 'dataset_location', 'id1', 'id2', 'id3', 'id4', 'id5', 'model_type', 'analysis_type', 'data_characteristic', 'result_type', 'data_type',
             'number_of_data_values_for_the_data_component', 'x', 'y', 'z', 'node_nums') + layout.R10 + layout.R11[:2] + layout.R12 + layout.R13,
    '2414g': ('analysis_dataset_label', 'analysis_dataset_name', 'dataset_location', 'id1', 'id2', 'id3', 'id4', 'id5', 'model_type', 'analysis_type', 'data_characteristic', 'result_type', 'data_type',
              'number_of_data_values_for_the_data_component', 'node_nums', 'data_at_node'),
    '2429': ('group_number', 'group_name', 'entity_type_code', 'entity_tag'),
    '2467': ('group_number', 'group_name', 'entity_type_code', 'entity_tag', 'entity_node_leaf_id', 'entity_component_id'),
}


def required(cx, what, keys, bare, n):
    kind = what[:2] if what[:3] == '55-' else {'58s': '58', '2412b': '2412'}.get(what, what)
    if kind == '55':
        d, _ = data55(cx, int(what[3:]), what[3:] in '37', 3, n, 'list', 4)
    else:
        d, _ = make(cx, kind, 'a', n)
    if bare:
        for h in holder(kind, d):
            for k in defaults(kind, d, n) if kind != '58b' else ():
                h.pop(k, None)
    key = keys[cx.int('which', 0, len(keys) - 1).__index__()]
    h = d[21][0] if what == '2412b' else d[44][-1] if what == '2412' else holder(kind, d)[-1]
    cx.check(key in h, 'key there')
    del h[key]
    u = cx.pyuff.UFF(cx.path('a.uff'))
    e = cx.raises(u.write_sets, d, force_double=what != '58s')
    if what == '2414g' and key == 'number_of_data_values_for_the_data_component' and e is None:
        cx.stop()
    cx.check(e is not None, 'a missing required field raises')
    if e is not None and kind.rstrip('b') in NAMED:
        cx.check("'%s'" % key in str(e), 'the message names the key')
        cx.check(str(set_type(kind)) in str(e), 'the message names the set')


def no_type(cx, kind, again):
    d, verify = make(cx, kind, 'a', 1)
    del d['type']
    u = cx.pyuff.UFF(cx.path('a.uff'))
    e = cx.raises(u.write_sets, d)
    cx.check(e is not None and "'type'" in str(e), 'a missing type is named')
    cx.check_eq(u.get_n_sets(), 0, 'nothing written')
    d['type'] = set_type(kind)
    u.write_sets(d)
    verify(cx, u.read_sets())


def instances(tier):
    q = tier == 'quick'
    out = []
    for k in ('15', '18', '82', '164', '2420'):
        for n in (1,) if k == '2420' else (1, 2, 3):
            out.append(('optional', dict(kind=k, n=n, mode='all')))
    for at in (2, 3, 5, 7):
        for v in (0, 1) if at in (3, 7) else (0,):
            for m in ('one', 'but', 'every'):
                out.append(('optional', dict(kind='55', n=1, mode=m, at=at, variant=v)))
            if not q:
                out.append(('optional', dict(kind='55', n=1, mode='all', at=at, variant=v), dict(max_paths=600, seconds=300)))
    for k, v in (('2429', 0), ('2429', 1), ('2429', 2), ('2467', 0), ('2467', 1)):
        out.append(('optional', dict(kind=k, n=1, mode='all', variant=v)))
        out.append(('optional', dict(kind=k, n=3, mode='every', variant=v)))
    for k in ('58', '151', '2400', '2414g'):
        m = len(defaults(k, {}, 1))
        for mode in ('one', 'but'):
            for lo in range(0, m, 8):
                out.append(('optional', dict(kind=k, n=1, mode=mode, at1=lo, m1=8)))
        out.append(('optional', dict(kind=k, n=2, mode='every')))
        for j in range(m):
            if not q or k == '151' or j % 3 == 0:
                out.append(('optional', dict(kind=k, n=1, mode='pair', at1=j)))
    for k in ('55', '58', '82', '151', '164', '2400', '2420'):
        for others in (True, False):
            out.append(('blank', dict(kind=k, n=1, others=others)))
    out.append(('prepared151', {}))
    for names in (('CS_types',), ('CS_colors',), ('CS_types', 'CS_colors')):
        out.append(('list2420', dict(n=2, names=names)))
    for w, ks in REQUIRED.items():
        for bare in (False, True):
            for lo in range(0, len(ks), 12):
                out.append(('required', dict(what=w, keys=ks[lo:lo + 12], bare=bare, n=2 if w != '2420' else 1)))
    for k in ('15', '58', '58b', '2412', '2429'):
        out.append(('no_type', dict(kind=k, again=False)))
    return out

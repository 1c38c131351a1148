"""The published record layout of every set, written down from the format descriptions, independent of the writers and readers.

A record is a list of fields (code, width, value, digits): I integer, E real with that many digits after the leading one, A text, X blanks, B anything (not compared).
body(cx, kind, d) gives the records of the dictionary d (all fields present) between the type line and the closing delimiter.
"""
from checks.f58 import AXES, LAB, UNITS

BEAMS = (11, 21, 22, 23, 24)


def I(w, v):
    return ('I', w, v, 0)


def E(w, v, p=5):
    return ('E', w, v, p)


def A(w, v):
    return ('A', w, v, 0)


def X(w):
    return ('X', w, '', 0)


def chunks(fields, n):
    return [fields[i:i + n] for i in range(0, len(fields), n)]


def seq(v):
    return v.tolist() if hasattr(v, 'tolist') else list(v)


def r15(cx, d):
    return [[I(10, d[k][i]) for k in ('node_nums', 'def_cs', 'disp_cs', 'color')] + [E(13, d[k][i]) for k in 'xyz'] for i in range(len(d['node_nums']))]


def r2411(cx, d):
    out = []
    for i in range(len(d['node_nums'])):
        out += [[I(10, d[k][i]) for k in ('node_nums', 'def_cs', 'disp_cs', 'color')], [E(25, d[k][i], 16) for k in 'xyz']]
    return out


def r18(cx, d):
    out = []
    for i in range(len(d['cs_num'])):
        out += [[I(10, d[k][i]) for k in ('cs_num', 'cs_type', 'ref_cs_num', 'color', 'method')], [A(40, d['cs_name'][i])],
                [E(13, d[k][i][a]) for k in ('ref_o', 'x_point') for a in range(3)], [E(13, d['xz_point'][i][a]) for a in range(3)]]
    return out


def r2420(cx, d):
    out = [[I(10, d['Part_UID'])], [A(80, d['Part_Name'])]]
    for i in range(len(d['CS_sys_labels'])):
        out += [[I(10, d[k][i]) for k in ('CS_sys_labels', 'CS_types', 'CS_colors')], [A(80, d['CS_names'][i])]]
        out += [[E(25, v, 16) for v in row] for row in seq(d['CS_matrices'][i])]
    return out


def r82(cx, d):
    n = seq(d['nodes'])
    return [[I(10, d['trace_num']), I(10, len(n)), I(10, d['color'])], [A(80, d['id'])]] + chunks([I(10, v) for v in n], 8)


def parts(v):
    return [v.real, v.imag]


def ids(d):
    return [[A(80, d['id%d' % k])] for k in range(1, 6)]


def r55(cx, d, complex_):
    comps = 6 if 'r6' in d else 3
    out = ids(d) + [[I(10, v) for v in (d['model_type'], d['analysis_type'], d['data_ch'], d['spec_data_type'], 5 if complex_ else 2, comps)]]
    at = d['analysis_type']
    if at == 2:
        out += [[I(10, v) for v in (2, 4, d['load_case'], d['mode_n'])], [E(13, d[k]) for k in ('freq', 'modal_m', 'modal_damp_vis', 'modal_damp_his')]]
    elif at == 5:
        out += [[I(10, v) for v in (2, 1, d['load_case'], d['freq_step_n'])], [E(13, d['freq'])]]
    else:
        out += [[I(10, v) for v in (2, 6, d['load_case'], d['mode_n'])], [E(13, v) for k in ('eig', 'modal_a', 'modal_b') for v in parts(d[k])]]
    for i in range(len(d['node_nums'])):
        out += [[I(10, d['node_nums'][i])], [E(13, v) for k in range(1, comps + 1) for v in (parts(d['r%d' % k][i]) if complex_ else [d['r%d' % k][i]])]]
    return out


def head58(cx, d, complex_, even, double, inc=None):
    """Records 1 to 11; d with every header field."""
    n = len(d['data'])
    x = seq(d['x'])
    return ids(d) + [
        [I(5, d['func_type']), I(10, d['func_id']), I(5, d['ver_num']), I(10, d['load_case_id']), X(1), A(10, d['rsp_ent_name']), I(10, d['rsp_node']), I(4, d['rsp_dir']),
         X(1), A(10, d['ref_ent_name']), I(10, d['ref_node']), I(4, d['ref_dir'])],
        [I(10, (6 if complex_ else 4) if double else (5 if complex_ else 2)), I(10, n), I(10, 1 if even else 0), E(13, x[0] if even else 0.0),
         ('B', 13, None, 0) if even and inc is None else E(13, inc if even else 0.0), E(13, d['z_axis_value'])]] + [
        [I(10, d[a + '_spec_data_type']), I(5, d[a + '_len_unit_exp']), I(5, d[a + '_force_unit_exp']), I(5, d[a + '_temp_unit_exp']), X(1), A(20, d[LAB[a]]), X(1), A(20, d[UNITS[a]])]
        for a in AXES]


def values58(d, complex_, even):
    """Data values in file order, each with its mark: x abscissa, y ordinate."""
    out = []
    y, x = seq(d['data']), seq(d['x'])
    for k in range(len(y)):
        out += ([] if even else [('x', x[k])]) + [('y', v) for v in (parts(y[k]) if complex_ else [y[k]])]
    return out


def r58(cx, d, complex_, even, double, inc=None):
    per = 6 if not double else 3 if complex_ and not even else 4
    return head58(cx, d, complex_, even, double, inc) + chunks([E(20, v, 11) if double and m == 'y' else E(13, v) for m, v in values58(d, complex_, even)], per)


def r151(cx, d):
    return [[A(80, d['model_name'])], [A(80, d['description'])], [A(80, d['db_app'])],
            [A(10, d['date_db_created']), A(10, d['time_db_created']), I(10, d['version_db1']), I(10, d['version_db2']), I(10, d['file_type'])],
            [A(10, d['date_db_saved']), A(10, d['time_db_saved'])], [A(80, d['program'])], [A(10, d['date_file_written']), A(10, d['time_file_written'])]]


def r164(cx, d):
    return [[I(10, d['units_code']), A(20, d['units_description']), I(10, d['temp_mode'])], [E(25, d[k], 16) for k in ('length', 'force', 'temp')], [E(25, d['temp_offset'], 16)]]


def r2400(cx, d):
    return [[I(12, d['model_uid']), I(6, d['entity_type']), I(6, d['entity_subtype']), I(12, d['version_number'])], [A(80, d['entity_name'])], [A(80, d['part_number'])],
            [I(2, v) for v in d['status_mask']], [A(10, d['date']), A(10, d['time']), I(12, d['idm_version_id']), I(12, d['idm_item_id']), I(12, d['primary_parent_uid'])],
            [I(12, d['optimization_switches'])]]


def r1858(cx, d):
    return [[I(12, v) for v in (d['record_num'], d['octave_format'], d['measurement_run'], 0, 0, 0)],
            [I(6, d[k]) for k in ('weighting_type', 'window_type', 'amplitude_units', 'normalization_method', 'abscissa_data_type_qualifier', 'ordinate_numerator_data_type_qualifier',
                                  'ordinate_denominator_data_type_qualifier', 'z_axis_data_type_qualifier', 'sampling_type')] + [I(6, 0)] * 3,
            [E(15, d[k], 7) for k in ('z_rpm_value', 'z_time_value', 'z_order_value', 'num_of_samples')] + [E(15, 0.0, 7)],
            [E(15, d[k], 7) for k in ('user_value_1', 'user_value_2', 'user_value_3', 'user_value_4', 'exponential_window_damping_factor')],
            [E(15, 0.0, 7)] * 5, [A(4, d['response_direction']), X(2), A(4, d['reference_direction'])], [A(80, 'NONE')]]


def r2412(cx, d):
    out = []
    for fe in d:
        if fe == 'type':
            continue
        for e in d[fe]:
            nn = seq(e['nodes_nums'])
            out += [[I(10, e['element_nums']), I(10, e['fe_descriptor']), I(10, e['phys_table']), I(10, e['mat_table']), I(10, e['color']), I(10, len(nn))]]
            if e['fe_descriptor'] in BEAMS:
                out += [[I(10, e['beam_orientation']), I(10, e['beam_foreend_cross']), I(10, e['beam_aftend_cross'])]]
            out += chunks([I(10, v) for v in nn], 8)
    return out


R10 = ('design_set_id', 'iteration_number', 'solution_set_id', 'boundary_condition', 'load_set', 'mode_number', 'time_step_number', 'frequency_number')
R11 = ('creation_option', 'number_retained')
R12 = ('time', 'frequency', 'eigenvalue', 'modal_mass', 'viscous_damping', 'hysteretic_damping')
R13 = ('real_part_eigenvalue', 'imaginary_part_eigenvalue', 'real_part_of_modal_A_or_modal_mass', 'imaginary_part_of_modal_A_or_modal_mass',
       'real_part_of_modal_B_or_modal_mass', 'imaginary_part_of_modal_B_or_modal_mass')


def r2414(cx, d):
    nv = d['number_of_data_values_for_the_data_component']
    at = d['analysis_type']
    out = [[I(10, d['analysis_dataset_label'])], [A(80, d['analysis_dataset_name'])], [I(10, d['dataset_location'])]] + ids(d)
    out += [[I(10, d[k]) for k in ('model_type', 'analysis_type', 'data_characteristic', 'result_type', 'data_type', 'number_of_data_values_for_the_data_component')]]
    if at == 5:
        out += [[I(10, d[k]) for k in R10], [I(10, d[k]) for k in R11], [E(13, d[k]) for k in R12], [E(13, d[k]) for k in R13]]
        for i, n in enumerate(seq(d['node_nums'])):
            out += [[I(10, n)], [E(13, v) for k in 'xyz'[:nv] for v in parts(d[k][i])]]
        return out
    out += [[I(10, d.get('record%d_field%d' % (r, f), 0)) for f in range(1, 9)] for r in (10, 11)]
    out += [[E(13, d.get('record%d_field%d' % (r, f), 0.0)) for f in range(1, 7)] for r in (12, 13)]
    if d['dataset_location'] == 1:
        for n, v in zip(seq(d['node_nums']), d['data_at_node']):
            out += [[I(10, n)]] + chunks([E(13, x) for x in v], 6)
    elif d['dataset_location'] == 2:
        for n, v in zip(seq(d['element_nums']), d['data_at_element']):
            out += [[I(10, n), I(10, len(v))]] + chunks([E(13, x) for x in v], 6)
    else:
        for n, e, nn, nv, v in zip(seq(d['element_nums']), seq(d['IEXP']), seq(d['number_of_nodes']), seq(d['number_of_values_per_node']), d['data_at_nodes_on_element']):
            out += [[I(10, n), I(10, e), I(10, nn), I(10, nv)]]
            for line in v:
                out += [[E(13, x) for x in line]]
    return out


SETS = ('active_constraint_set_no_for_group', 'active_restraint_set_no_for_group', 'active_load_set_no_for_group', 'active_dof_set_no_for_group', 'active_temperature_set_no_for_group',
        'active_contact_set_no_for_group')


def groups(cx, d, keys, per):
    out = []
    for g in d['groups']:
        n = len(g['entity_tag'])
        out += [[I(10, g['group_number'])] + [I(10, g[k]) for k in SETS] + [I(10, n)], [A(40, g['group_name'])]]
        out += chunks([I(10, g[k][i]) for i in range(n) for k in keys], per)
    return out


def body(cx, kind, d, **kw):
    if kind == '2429':
        return groups(cx, d, ('entity_type_code', 'entity_tag'), 8)
    if kind == '2467':
        return groups(cx, d, ('entity_type_code', 'entity_tag', 'entity_node_leaf_id', 'entity_component_id'), 8)
    f = {'15': r15, '2411': r2411, '18': r18, '2420': r2420, '82': r82, '55': r55, '58': r58, '151': r151, '164': r164, '2400': r2400, '1858': r1858, '2412': r2412, '2414': r2414, '2414g': r2414}
    return f[kind](cx, d, **kw)


def split(cx, data, label):
    """The lines of a file (bytes), which ends with a line end, as text."""
    cx.check_eq(data[cx.length(data) - 1:], b'\n', label + ' ends with a line end')
    out = []
    p, n = 0, cx.length(data)
    while p < n:
        q = data.find(b'\n', p)
        if q < 0:
            break
        out.append(data[p:q].decode('utf-8'))
        p = q + 1
    return out


def check_records(cx, lines, recs, label):
    cx.check(len(lines) == len(recs), '%s: number of records' % label)
    if len(lines) != len(recs):
        cx.stop()
    for k, (line, rec) in enumerate(zip(lines, recs)):
        check_record(cx, line, rec, '%s record %d' % (label, k + 1))


def check_record(cx, line, rec, label):
    w = sum(f[1] for f in rec)
    n = cx.length(line)
    cx.check(n <= 80, label + ': at most 80 columns')
    cx.check_eq(line[w:].strip(), '', label + ': nothing after the last field')
    p = 0
    for j, (code, width, value, prec) in enumerate(rec):
        s = line[p:p + width]
        p += width
        what = '%s field %d' % (label, j + 1)
        if code in 'IE':
            cx.check(cx.all([p <= n, s.rstrip() == s]), what + ' ends in its last column')
        if code == 'I':
            cx.check_eq(cx.int_of(s), value, what)
        elif code == 'E':
            cx.check_close(cx.float_of(s.replace('D', 'e').replace('d', 'e')), value, what, prec if prec < 16 else None)
        elif code == 'A':
            cx.check_eq(s.strip(), value, what)
        elif code == 'X':
            cx.check_eq(s, ' ' * width, what)

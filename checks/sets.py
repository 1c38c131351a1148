"""One small data set of every kind, with a function that checks a set read back against it."""
from checks.common import ints, reals
from checks.f58 import base58

KINDS = ('15', '18', '55', '58', '58b', '82', '151', '164', '1858', '2400', '2411', '2412', '2414', '2414g', '2420', '2429', '2467')
# kinds whose length varies
LISTED = tuple(k for k in KINDS if k not in ('151', '164', '1858', '2400'))
I8 = 99999999


def make(cx, kind, pre, n=1, rich=True, text=None, long=False):
    """(dictionary, verify(cx, read set)).  The content is symbolic, with inputs named pre...; rich=False or a number: constants only; text(name, length): the text fields;
    long: only the first and the last two members of lists are symbolic, the others constants that tell them apart."""
    exact, close = {}, {}
    const = 3 if rich is False else rich
    rich = rich is True

    def i(nm, hi=I8):
        return cx.int(pre + nm, 0, hi) if rich else const

    def f(nm, **k):
        return cx.real(pre + nm, **k) if rich else const / 4.0

    def s(nm, k=4):
        if text is not None:
            return text(nm, k)
        return cx.text(pre + nm, k) if rich else 'text%d' % const if k > 2 else 'Y+'

    def sym(k):
        return not long or k == 0 or k >= n - 2

    def il(nm):
        return [i('%s%d' % (nm, k)) if sym(k) else 1000 + 3 * k + ord(nm[0]) for k in range(n)]

    def fl(nm, **kw):
        return [f('%s%d' % (nm, k), **kw) if sym(k) else (k - 40) / 4.0 + ord(nm[0]) for k in range(n)]

    if kind in ('15', '2411'):
        d = {'type': int(kind), 'node_nums': il('n'), 'def_cs': il('d'), 'disp_cs': il('p'), 'color': il('c')}
        exact = dict(d)
        for k in 'xyz':
            d[k] = fl(k)
            close[k] = (d[k], 5 if kind == '15' else None)
    elif kind == '18':
        d = {'type': 18, 'cs_num': il('n'), 'cs_type': il('t'), 'ref_cs_num': il('r'), 'color': il('c'), 'method': il('m'), 'cs_name': [s('s%d' % k) if sym(k) else 'cs%d' % k for k in range(n)]}
        exact = dict(d)
        for k in ('ref_o', 'x_point', 'xz_point'):
            d[k] = [[f('%s%d%d' % (k, j, a)) if sym(j) else j + a / 4.0 for a in range(3)] for j in range(n)]
            close[k] = (d[k], 5)
    elif kind == '55':
        d = {'type': 55, 'id1': s('a'), 'id2': s('b'), 'id3': 'c', 'id4': 'd', 'id5': s('e'), 'model_type': 1, 'analysis_type': 2, 'data_ch': 2, 'spec_data_type': 8,
             'load_case': i('lc'), 'mode_n': i('mode'), 'node_nums': il('n')}
        exact = dict(d)
        d.update({'freq': f('freq'), 'modal_m': 1.0, 'modal_damp_vis': 0.0, 'modal_damp_his': 0.0})
        close['freq'] = (d['freq'], 5)
        for k in ('r1', 'r2', 'r3'):
            d[k] = fl(k)
            close[k] = (d[k], 5)
    elif kind in ('58', '58b'):
        b = kind == '58b'
        d = base58(cx, ([0.5, -0.25, 8.0] + [0.25 * k for k in range(3, n)])[:n] if b else fl('y'), [0.5 * k for k in range(n)], True, False, binary=1 if b else 0)
        exact = {'type': 58, 'binary': 1 if b else 0, 'num_pts': n, 'func_type': 1, 'ref_node': 2}
        for k in ('id1', 'id4', 'rsp_ent_name', 'abscissa_axis_lab'):
            d[k] = exact[k] = s(k)
        for k in ('rsp_node', 'load_case_id'):
            d[k] = exact[k] = i(k)
        close['data'] = (list(d['data']), None if b else 11)
        close['x'] = ([0.5 * k for k in range(n)], 5)
    elif kind == '82':
        d = {'type': 82, 'trace_num': i('t'), 'n_nodes': n, 'color': i('c'), 'id': s('id'), 'nodes': il('n')}
        exact = dict(d)
        d['nodes'] = cx.array(d['nodes'], 'int64')
    elif kind == '151':
        d = {'type': 151, 'model_name': s('m'), 'description': s('d'), 'db_app': s('a'), 'date_db_created': '01-01-20', 'time_db_created': '10:10:10', 'version_db1': i('v1'),
             'version_db2': 2, 'file_type': i('ft'), 'date_db_saved': '02-01-20', 'time_db_saved': '11:10:10', 'program': s('p'), 'date_file_written': '03-01-20', 'time_file_written': '12:10:10'}
        exact = dict(d)
    elif kind == '164':
        d = {'type': 164, 'units_code': i('u'), 'units_description': s('s'), 'temp_mode': 1}
        exact = dict(d)
        for k in ('length', 'force', 'temp', 'temp_offset'):
            d[k] = f(k)
            close[k] = (d[k], None)
    elif kind == '1858':
        d = {'type': 1858}
        for k in ('record_num', 'octave_format', 'measurement_run'):
            d[k] = exact[k] = i(k)
        for k in ('weighting_type', 'window_type', 'amplitude_units', 'normalization_method', 'abscissa_data_type_qualifier', 'ordinate_numerator_data_type_qualifier',
                  'ordinate_denominator_data_type_qualifier', 'z_axis_data_type_qualifier', 'sampling_type'):
            d[k] = exact[k] = i(k, 9999)
        for k in ('z_rpm_value', 'z_time_value', 'z_order_value', 'num_of_samples', 'user_value_1', 'user_value_2', 'user_value_3', 'user_value_4', 'exponential_window_damping_factor'):
            d[k] = f(k)
            close[k] = (d[k], 7)
        d['response_direction'] = exact['response_direction'] = 'X+'
        d['reference_direction'] = exact['reference_direction'] = s('dir', 2)
    elif kind == '2400':
        d = {'type': 2400, 'entity_name': s('n'), 'part_number': s('p'), 'date': '01-01-20', 'time': '10:10:10', 'status_mask': [1] * 32}
        for k in ('model_uid', 'version_number', 'idm_version_id', 'idm_item_id', 'primary_parent_uid', 'optimization_switches'):
            d[k] = i(k)
        d['entity_type'] = i('et', 9999)
        d['entity_subtype'] = i('es', 9999)
        exact = dict(d)
    elif kind == '2412':
        els = [{'element_nums': i('e%d' % k) if sym(k) else 70 + k, 'fe_descriptor': 44, 'phys_table': i('p%d' % k) if sym(k) else k, 'mat_table': 2, 'color': 8, 'num_nodes': 4,
                'nodes_nums': [i('n%d_%d' % (k, j)) if sym(k) else 10 * k + j for j in range(4)]} for k in range(n)]
        d = {'type': 2412, 44: els, 21: [{'element_nums': i('be'), 'fe_descriptor': 21, 'phys_table': 1, 'mat_table': 2, 'color': 8, 'num_nodes': 2, 'nodes_nums': [i('bn'), 5],
                                          'beam_orientation': i('bo'), 'beam_foreend_cross': 2, 'beam_aftend_cross': 3}]}
        exact = {'type': 2412}

        def verify(cx, r):
            cx.check_eq(cx.get(r, 'type'), 2412, kind + ' type')
            for fe in (44, 21):
                g = cx.get(r, fe)
                cx.check(len(g) == len(d[fe]), kind + ' number of elements')
                for a, b in zip(g, d[fe]):
                    for k in b:
                        cx.check_eq(cx.get(a, k), b[k], kind + ' ' + k)
        return d, verify
    elif kind in ('2414', '2414g'):
        d = {'type': 2414, 'analysis_dataset_label': i('l'), 'analysis_dataset_name': s('n'), 'dataset_location': 1, 'id1': s('a'), 'id2': 'b', 'id3': 'c', 'id4': 'd', 'id5': s('e'),
             'model_type': 1, 'data_characteristic': 2, 'result_type': 8, 'number_of_data_values_for_the_data_component': 3}
        nodes = il('nn')
        if kind == '2414':
            d.update({'analysis_type': 5, 'data_type': 5})
            for k in ('design_set_id', 'iteration_number', 'solution_set_id', 'boundary_condition', 'load_set', 'mode_number', 'time_step_number', 'frequency_number', 'creation_option',
                      'number_retained'):
                d[k] = i(k) if k in ('load_set', 'frequency_number') else 2
            exact = dict(d)
            for k in ('time', 'eigenvalue', 'modal_mass', 'viscous_damping', 'hysteretic_damping', 'real_part_eigenvalue', 'imaginary_part_eigenvalue',
                      'real_part_of_modal_A_or_modal_mass', 'imaginary_part_of_modal_A_or_modal_mass', 'real_part_of_modal_B_or_modal_mass', 'imaginary_part_of_modal_B_or_modal_mass'):
                d[k] = 0.5
            d['frequency'] = f('fr')
            close['frequency'] = (d['frequency'], 5)
            for k in 'xyz':
                v = [cx.cplx(f('%sr%d' % (k, j)), f('%si%d' % (k, j))) if sym(j) else cx.cplx(j / 4.0, -j) for j in range(n)]
                d[k] = cx.array(v, 'complex128')
                close[k] = (v, 5)
        else:
            d.update({'analysis_type': 2, 'data_type': 2, 'record10_field6': i('r6')})
            exact = dict(d)
            d['record12_field1'] = f('r12')
            close['record12_field1'] = (d['record12_field1'], 5)
            d['data_at_node'] = [[f('v%d_%d' % (j, k)) if sym(j) else j + k / 4.0 for k in range(3)] for j in range(n)]
            close['data_at_node'] = (d['data_at_node'], 5)
        d['node_nums'] = cx.array(nodes, 'int64')
        exact['node_nums'] = nodes
    elif kind == '2420':
        d = {'type': 2420, 'Part_UID': i('u'), 'Part_Name': s('p'), 'CS_sys_labels': il('l'), 'CS_types': il('t'), 'CS_colors': il('c'), 'CS_names': [s('s%d' % k) if sym(k) else 'cs%d' % k for k in range(n)]}
        exact = dict(d)
        m = [[[f('m%d_%d%d' % (j, a, b)) if sym(j) else j + a / 4.0 - b for b in range(3)] for a in range(4)] for j in range(n)]
        d['CS_matrices'] = [cx.array(x, 'float64') for x in m]
        close['CS_matrices'] = (m, None)
    elif kind in ('2429', '2467'):
        g = {'group_number': i('g'), 'group_name': s('n'), 'active_constraint_set_no_for_group': 1, 'active_restraint_set_no_for_group': 2, 'active_load_set_no_for_group': i('ls'),
             'active_dof_set_no_for_group': 3, 'active_temperature_set_no_for_group': 4, 'active_contact_set_no_for_group': 5, 'entity_type_code': il('c'), 'entity_tag': il('t')}
        if kind == '2467':
            g['entity_node_leaf_id'] = il('lf')
            g['entity_component_id'] = il('cp')
        d = {'type': int(kind), 'groups': [g]}
        exact = {'type': int(kind), 'groups': [dict(g)]}
    else:
        raise ValueError(kind)

    def verify(cx, r):
        for k in exact:
            cx.check_eq(cx.get(r, k, kind), exact[k], kind + ' ' + k)
        for k in close:
            cx.check_close(cx.get(r, k, kind), close[k][0], kind + ' ' + k, close[k][1])
    return d, verify


def set_type(kind):
    return 58 if kind == '58b' else 2414 if kind == '2414g' else int(kind)

"""P10: header sets 151, 164, 2400 and 1858 survive a write and a read."""
from checks.common import one, ints

BOUNDS = {'quick': 'every field of the four sets symbolic at once: text of 0, 1, 2, 5, 9, 10, 20, 40 and 80 characters (as far as the column allows), integers over their whole column (negative ones one field '
                   'at a time), every finite normal double, alone and between other sets',
          'thorough': 'as quick, every text length 0..80'}
ASSUMPTIONS = ['text neither begins nor ends with a blank; symbolic text holds no minus sign, so dates are also given literally (31-Dec-99)']
DATES = [('31-Dec-99', '23:59:59'), ('1-1-1', '-1'), ('-1', '0'), ('', '')]


def txt(cx, name, n, w):
    n = min(n, w)
    return cx.text(name, n) if n else ''


def same(cx, r, d, close=()):
    for k in d:
        if k in close:
            cx.check_close(cx.get(r, k), d[k], k, close[k])
        else:
            cx.check_eq(cx.get(r, k), d[k], k)


def check_set(cx, d, close=(), among=False):
    if not among:
        same(cx, one(cx, dict(d)), d, close)
        return
    other = {'type': 15, 'node_nums': [7], 'def_cs': [1], 'disp_cs': [2], 'color': [3], 'x': [1.0], 'y': [2.0], 'z': [3.0]}
    u = cx.pyuff.UFF(cx.path('a.uff'))
    u.write_sets([dict(other), dict(d), dict(other)])
    u.write_sets(dict(d))
    r = cx.pyuff.UFF(cx.path('a.uff')).read_sets()
    cx.check(len(r) == 4, 'four sets')
    for i in (1, 3):
        same(cx, r[i], d, close)
    for i in (0, 2):
        cx.check_eq(cx.get(r[i], 'node_nums'), [7], 'neighbour')


def k1(cx, d, *keys):
    """Fields at the end of a line."""
    cx.known_finding('K1', cx.any([d[k] == -1 for k in keys]))


def h151(cx, n, dates=None, neg=None, among=False, keys='file'):
    d = {'type': 151, 'model_name': txt(cx, 'model', n, 80), 'description': txt(cx, 'desc', n, 80), 'db_app': txt(cx, 'app', n, 80), 'program': txt(cx, 'prog', n, 80)}
    for i, (a, b) in enumerate((('date_db_created', 'time_db_created'), ('date_db_saved', 'time_db_saved'), ('date_file_written', 'time_file_written'))):
        if dates is None:
            d[a], d[b] = txt(cx, a, n, 10), txt(cx, b, n, 10)
        else:
            d[a], d[b] = DATES[(dates + i) % len(DATES)]
    for k in ('version_db1', 'version_db2', 'file_type'):
        d[k] = cx.int(k, -999999999 if k == neg else 0, 9999999999 if k == 'version_db1' else 9999999999)
    k1(cx, d, 'file_type')
    if keys == 'db':                      # the names prepare_151 uses
        w = dict(d)
        w['date_db_written'], w['time_db_written'] = w.pop('date_file_written'), w.pop('time_file_written')
        same(cx, one(cx, w), d)
        return
    check_set(cx, d, among=among)


def h164(cx, n, temp_mode, neg=False, among=False):
    d = {'type': 164, 'units_code': cx.int('code', -99999999 if neg else 0, 9999999999), 'units_description': txt(cx, 'desc', n, 20), 'temp_mode': temp_mode}
    ex = {}
    for k in ('length', 'force', 'temp', 'temp_offset'):
        d[k] = cx.real(k, small=False)
        ex[k] = None
    check_set(cx, d, ex, among)


def h2400(cx, n, dates=None, neg=None, among=False):
    d = {'type': 2400}
    for k, w in (('model_uid', 12), ('entity_type', 6), ('entity_subtype', 6), ('version_number', 12), ('idm_version_id', 12), ('idm_item_id', 12), ('primary_parent_uid', 12),
                 ('optimization_switches', 12)):
        d[k] = cx.int(k, -(10 ** (w - 2) - 1) if k == neg else 0, 10 ** w - 1)
    d['entity_name'] = txt(cx, 'name', n, 80)
    d['part_number'] = txt(cx, 'part', n, 80)
    d['date'], d['time'] = (txt(cx, 'date', n, 10), txt(cx, 'time', n, 10)) if dates is None else DATES[dates]
    d['status_mask'] = ints(cx, 'm', 32, 0, 99) if neg != 'status_mask' else ints(cx, 'm', 2, -9, 99) + ints(cx, 'p', 30, 0, 9)
    k1(cx, d, 'version_number', 'primary_parent_uid', 'optimization_switches')
    check_set(cx, d, among=among)


def h1858(cx, n, neg=None, among=False, dirs=None):
    d = {'type': 1858}
    for k in ('record_num', 'octave_format', 'measurement_run'):
        d[k] = cx.int(k, -(10 ** 10 - 1) if k == neg else 0, 10 ** 12 - 1)
    for k in ('weighting_type', 'window_type', 'amplitude_units', 'normalization_method', 'abscissa_data_type_qualifier', 'ordinate_numerator_data_type_qualifier',
              'ordinate_denominator_data_type_qualifier', 'z_axis_data_type_qualifier', 'sampling_type'):
        d[k] = cx.int(k, -9999 if k == neg else 0, 999999)
    cl = {}
    for k in ('z_rpm_value', 'z_time_value', 'z_order_value', 'num_of_samples', 'user_value_1', 'user_value_2', 'user_value_3', 'user_value_4', 'exponential_window_damping_factor'):
        d[k] = cx.real(k, small=False)
        cl[k] = 7
    d['response_direction'], d['reference_direction'] = (txt(cx, 'rsp', n, 4), txt(cx, 'ref', n, 4)) if dirs is None else dirs
    check_set(cx, d, cl, among)


def instances(tier):
    out = []
    ns = [0, 1, 2, 5, 9, 10, 20, 40, 80] if tier == 'quick' else list(range(81))
    for n in ns:
        out.append(('h151', dict(n=n)))
        out.append(('h2400', dict(n=n)))
        if n <= 20:
            out.append(('h164', dict(n=n, temp_mode=1 + n % 2)))
        if n <= 4:
            out.append(('h1858', dict(n=n)))
    out += [('h1858', dict(n=n)) for n in (3, 4)]
    for i in range(len(DATES)):
        out.append(('h151', dict(n=6, dates=i)))
        out.append(('h2400', dict(n=6, dates=i)))
    out.append(('h151', dict(n=4, keys='db')))
    for neg in ('version_db1', 'version_db2', 'file_type'):
        out.append(('h151', dict(n=3, neg=neg)))
    for neg in ('model_uid', 'entity_type', 'entity_subtype', 'version_number', 'idm_version_id', 'idm_item_id', 'primary_parent_uid', 'optimization_switches', 'status_mask'):
        out.append(('h2400', dict(n=3, neg=neg)))
    for neg in ('record_num', 'octave_format', 'measurement_run', 'weighting_type', 'window_type', 'amplitude_units', 'normalization_method', 'abscissa_data_type_qualifier',
                'ordinate_numerator_data_type_qualifier', 'ordinate_denominator_data_type_qualifier', 'z_axis_data_type_qualifier', 'sampling_type'):
        out.append(('h1858', dict(n=2, neg=neg)))
    for dirs in (('X+', 'Z-'), ('-RX', '+RY'), ('-', '-1')):
        out.append(('h1858', dict(n=2, dirs=dirs)))
    out.append(('h164', dict(n=5, temp_mode=2, neg=True)))
    for f in ('h151', 'h2400', 'h1858'):
        out.append((f, dict(n=4, among=True)))
    out.append(('h164', dict(n=4, temp_mode=1, among=True)))
    return out

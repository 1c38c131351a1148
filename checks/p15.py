"""P15: cached file information always describes the file."""
from checks.sets import make, set_type
from checks.p12 import fresh

OPS = ['add15', 'add58b', 'addlist', 'over82', 'overlist', 'foreign', 'overforeign', 'bad', 'badover', 'badmode', 'readall', 'readout', 'refresh', 'replace', 'delete', 'clear', 'garbage', 'retype', 'peeradd', 'peerover', 'fault']
BOUNDS = {'quick': 'every sequence of three (file missing or empty at first: two) operations out of %d (writes of one or several sets in both modes, foreign sets, failing writes and reads, reads, refreshes, writes of another object followed by one of this object, external replacement, deletion, emptying and '
                   'garbage followed by refresh) on an object created for a missing, empty or filled file; after each operation the object is compared with a fresh one and with the expected list of sets; '
                   'set contents and the moment of an I/O error symbolic' % len(OPS),
          'thorough': 'every sequence of four operations'}
ASSUMPTIONS = ['external changes are followed by refresh(), as documented (creation of a missing file is not)']


def foreign(cx, r):
    cx.check(list(r) == ['type'], 'a foreign set')
    cx.check_eq(r['type'], 999, 'type of a foreign set')


class State:
    def __init__(self):
        self.sets = []
        self.exists = False
        self.k = 0


def new(cx, st, kind):
    st.k += 1
    return make(cx, kind, 'w%d_' % st.k, rich=True if kind == '82' else st.k)


def apply(cx, u, st, op):
    def put(ds, mode):
        if mode == 'overwrite':
            st.sets = []
        u.write_sets([d for d, _, _ in ds] if len(ds) > 1 else ds[0][0], mode)
        st.sets = st.sets + [(t, v) for _, v, t in ds if v is not None]
        st.exists = True

    def s(kind):
        d, v = new(cx, st, kind)
        return d, v, set_type(kind)
    if op == 'add15':
        put([s('15')], 'add')
    elif op == 'add58b':
        put([s('58b')], 'add')
    elif op == 'addlist':
        put([s('151'), s('82')], 'add')
    elif op == 'over82':
        put([s('82')], 'overwrite')
    elif op == 'overlist':
        put([s('58b'), s('2411'), s('58')], 'overwrite')
    elif op == 'foreign':
        put([({'type': 999}, None, 999)], 'add')
    elif op == 'overforeign':
        put([({'type': 999}, None, 999)], 'overwrite')
    elif op in ('bad', 'badover'):
        d, _ = new(cx, st, '15')
        del d['x']
        cx.check(cx.raises(u.write_sets, d, 'add' if op == 'bad' else 'overwrite') is not None, 'raises')
        st.exists = True
        if op == 'badover':
            st.sets = []
    elif op == 'badmode':
        d, _ = new(cx, st, '15')
        cx.check(cx.raises(u.write_sets, d, 'append') is not None, 'raises')
        st.exists = cx.exists('a.uff')
    elif op == 'readall':
        if st.exists:
            r = u.read_sets()
        else:
            cx.check(cx.raises(u.read_sets) is not None, 'raises')
    elif op == 'readout':
        cx.check(cx.raises(u.read_sets, len(st.sets)) is not None, 'raises')
        cx.check(cx.raises(u.read_sets, -1) is not None, 'raises')
    elif op in ('peeradd', 'peerover'):
        # another object writes to the file, then this one does, without a refresh in between
        o = fresh(cx)
        a, b = s('58b'), s('82')
        o.write_sets(a[0], 'overwrite' if op == 'peerover' else 'add')
        if op == 'peerover':
            st.sets = []
        st.sets = st.sets + [(58, a[1])]
        put([b], 'add')
        o.refresh()
        agree(cx, o, st, False)
    elif op == 'refresh':
        cx.check(bool(u.refresh()) is st.exists, 'refresh')
    elif op in ('replace', 'clear', 'garbage', 'delete', 'retype'):
        if op == 'replace':
            o = cx.pyuff.UFF(cx.path('other.uff'))
            ds = [s('164'), s('58b')] if st.k % 2 else [s('15')]
            o.write_sets([d for d, _, _ in ds], 'overwrite')
            cx.write_file('a.uff', cx.read_file('other.uff'))
            st.sets = [(t, v) for _, v, t in ds]
        elif op == 'clear':
            st.k += 1
            cx.write_file('a.uff', b'')
            st.sets = []
        elif op == 'garbage':
            st.k += 1
            cx.write_file('a.uff', cx.cat([b'   -1\n', cx.bytestr('g%d' % st.k, 3, [ord('a'), ord('1'), 200]), b'\n']))
            st.sets = []
        elif op == 'retype':
            # another file of the same size and time: the first set is one of another type, or there are none any more
            b = cx.read_file('a.uff') if cx.exists('a.uff') else b''
            if st.sets and b[:7] != b'    -1\n':
                pass  # behind garbage
            elif st.sets:
                cx.write_file('a.uff', cx.cat([b[:7], b'   999', b[13:]]), same_time=True)
                st.sets = [(999, foreign)] + st.sets[1:]
            elif cx.exists('a.uff'):
                cx.write_file('a.uff', b'.' * cx.length(b), same_time=True)
        elif cx.exists('a.uff'):
            cx.remove('a.uff')
            st.sets = []
        st.exists = op != 'delete' and cx.exists('a.uff')
        cx.check(bool(u.refresh()) is st.exists, 'refresh')
    elif op == 'fault':
        d, v = new(cx, st, '82')
        with cx.fault_writes(cx.choice('k%d' % st.k, [0, 5])):
            e = cx.raises(u.write_sets, d)
        st.exists = True
        if e is None:
            st.sets = st.sets + [(82, v)]


def agree(cx, u, st, deep=True):
    w = fresh(cx)
    cx.check(cx.exists('a.uff') is st.exists, 'file exists')
    for o in (u, w):
        cx.check(bool(o.get_status()) is st.exists, 'status')
        cx.check_eq(o.get_n_sets(), len(st.sets), 'number of sets')
        cx.check_eq(o.get_set_types(), [t for t, _ in st.sets], 'types')
        cx.check(cx.length(o.get_set_formats()) == len(st.sets), 'number of formats')
        cx.check(bool(o.file_exists()) is st.exists, 'file_exists')
    cx.check_eq(u.get_set_formats(), w.get_set_formats(), 'formats')
    if deep and st.exists:
        r = u.read_sets()
        r = r if isinstance(r, list) else [r]
        cx.check(len(r) == len(st.sets), 'as many sets read')
        for x, (t, v) in zip(r, st.sets):
            v(cx, x)


def history(cx, first, n, start):
    st = State()
    if start == 'empty':
        cx.write_file('a.uff', b'')
        st.exists = True
    u = fresh(cx)
    if start == 'filled':
        o = fresh(cx)
        d, v = make(cx, '15', 'f_')
        e, w = make(cx, '58b', 'g_', rich=False)
        o.write_sets([d, e])
        st.sets = [(15, v), (58, w)]
        st.exists = True
        u = fresh(cx)
    ops = [OPS[i] for i in first] + [cx.choice('op%d' % k, OPS) for k in range(len(first), n)]
    for k, op in enumerate(ops):
        apply(cx, u, st, op)
        agree(cx, u, st, k == n - 1)


def created(cx):
    """The file is created by another object, without an explicit refresh."""
    u = fresh(cx)
    cx.check(u.get_status() is False and u.get_n_sets() == 0, 'nothing yet')
    st = State()
    o = fresh(cx)
    d, v = make(cx, '15', 'f_')
    e, w = make(cx, '164', 'g_')
    o.write_sets([d, e])
    how = cx.choice('how', ['n', 'types', 'formats', 'all', 'index', 'write', 'status'])
    if how == 'n':
        cx.check_eq(u.get_n_sets(), 2, 'number')
    elif how == 'types':
        cx.check_eq(u.get_set_types(), [15, 164], 'types')
    elif how == 'formats':
        cx.check_eq(u.get_set_formats(), [0, 0], 'formats')
    elif how == 'all':
        r = u.read_sets()
        cx.check(isinstance(r, list) and len(r) == 2, 'both')
    elif how == 'index':
        w(cx, u.read_sets(1))
    elif how == 'write':
        u.write_sets(dict(d))
    else:
        cx.check(u.get_status() is False, 'not refreshed yet')
        u.refresh()
    st.exists = True
    st.sets = [(15, v), (164, w)] + ([(15, v)] if how == 'write' else [])
    agree(cx, u, st)


def names(cx, n):
    nm = 'f%s.uff' % ('x' * n)
    u = cx.pyuff.UFF(cx.path(nm))
    cx.check_eq(u.get_file_name(), cx.path(nm), 'file name')
    cx.check(u.file_exists() is False, 'no file')
    cx.check(u.refresh() is False, 'refresh')
    u.write_sets(make(cx, '15', 'f_')[0])
    cx.check(u.file_exists() is True, 'file')
    cx.check_eq(u.get_file_name(), cx.path(nm), 'file name')
    cx.check_eq(u.get_supported_sets(), ['15', '18', '55', '58', '58b', '82', '151', '164', '1858', '2400', '2411', '2412', '2414', '2420', '2429', '2467'], 'supported sets')


def instances(tier):
    out = [('created', {}), ('names', dict(n=1))]
    lim = dict(max_paths=4000, seconds=120.0)
    for s in ('missing', 'empty', 'filled'):
        for a in range(len(OPS)):
            if tier == 'quick' and not (s == 'filled' and OPS[a] == 'fault'):
                out.append(('history', dict(first=[a], n=3 if s == 'filled' else 2, start=s), lim))
            else:
                for b in range(len(OPS)):
                    out.append(('history', dict(first=[a, b], n=3 if tier == 'quick' else 4, start=s), lim))
    return out

"""Helpers shared by the check harnesses."""
import functools


def as_list(x):
    return x if isinstance(x, list) else [x]


def write_read(cx, dsets, name='a.uff', **kw):
    """Write with one UFF object, read everything with a fresh one."""
    u = cx.pyuff.UFF(cx.path(name))
    u.write_sets(dsets, **kw)
    return read_all(cx, name)


def read_all(cx, name='a.uff', **kw):
    r = cx.pyuff.UFF(cx.path(name))
    n = r.get_n_sets()
    if n == 0:
        return []
    return as_list(r.read_sets(**kw))


def one(cx, dsets, name='a.uff', **kw):
    out = write_read(cx, dsets, name, **kw)
    cx.check(len(out) == 1, 'exactly one set in the file')
    if len(out) != 1:
        cx.stop()
    return out[0]


def constant(cx, n, k):
    """Long lists (cx.sparse): all but the first and the last two members are constants that tell them apart."""
    return getattr(cx, 'sparse', False) and 0 < k < n - 2


def salt(pre):
    return sum(ord(c) for c in pre) % 97


def ints(cx, pre, n, lo, hi):
    return [1000 + 3 * i + salt(pre) if constant(cx, n, i) else cx.int('%s%d' % (pre, i), lo, hi) for i in range(n)]


FULL = (10 ** 9, 10 ** 10 - 1)      # integers that fill a column of ten


def span(full, key, hi):
    """Bounds of the integers of a field: those of ten digits if it is one of the full ones."""
    return FULL if full and (full == 'all' or key in full) else (0, hi)


def reals(cx, pre, n, **kw):
    return [(i - 40) / 4.0 + salt(pre) if constant(cx, n, i) else cx.real('%s%d' % (pre, i), **kw) for i in range(n)]


LONG = {'quick': tuple(range(10, 35)) + (48, 49, 50, 63, 64, 65, 80, 99, 100, 127, 128, 129, 200, 256, 257, 512, 1000, 3000), 'thorough': tuple(range(10, 131)) + (199, 200, 255, 256, 257, 300, 500, 512, 513, 1000, 1024, 3000)}
LONG_TEXT = {'quick': '; lists of 10..34, 48..50, 63..65, 80, 99, 100, 127..129, 200, 256, 257, 512, 1000 and 3000 members, of which the first and the last two are symbolic', 'thorough': '; lists of 10..130 and many lengths to 3000 members, of '
             'which the first and the last two are symbolic'}


def sparsable(fn):
    @functools.wraps(fn)
    def f(cx, *args, sparse=False, **kw):
        cx.sparse = sparse
        return fn(cx, *args, **kw)
    return f


def with_long(bounds):
    return {t: bounds[t] + LONG_TEXT[t] for t in bounds}


def long_instances(tier, fn, *params):
    """Instances of fn for every length, going round the given parameters."""
    return [(fn, dict(params[i % len(params)], n=n, sparse=True)) for i, n in enumerate(LONG[tier])] if tier == 'quick' else [(fn, dict(p, n=n, sparse=True)) for n in LONG[tier] for p in params]

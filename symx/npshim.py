"""numpy for symbolic values: object arrays that remember the dtype the code asked for.

SymArr is a real numpy array of Python objects (so indexing, slicing, reshaping, views and stacking are
numpy's own), whose elements may be symbolic numbers; `dtype` reports the declared dtype.
"""
import math
import numpy as np
import z3
from . import engine as E
from .values import (Sym, SBool, SInt, SFloat, SComplex, is_sym, mkbool, mkint, trunc, zb, _is_int, _is_float,
                     cplx_op, parts, known, ite)
from .text import Seq, Tok, Dbl, parse_float, parse_int, s_pack, s_unpack, conc_int_narrow, regroup


class SymArr(np.ndarray):
    sdtype = np.dtype(object)
    ro = False

    def __array_finalize__(self, obj):
        self.sdtype = getattr(obj, 'sdtype', np.dtype(object))

    @property
    def dtype(self):
        return self.sdtype

    def _mk(self, a, dt):
        return wrap(a, dt)

    @property
    def real(self):
        if self.sdtype.kind == 'c':
            return emap(lambda x: parts(x)[0], self, np.dtype(float))
        return self

    @real.setter
    def real(self, v):
        v = np.broadcast_to(np.asarray(_objs(v), dtype=object), self.shape)
        flat, vf = self.reshape(-1), v.reshape(-1)
        for i in range(self.size):
            flat[i] = SComplex(vf[i], parts(flat[i])[1])
        self[...] = flat.reshape(self.shape)

    @property
    def imag(self):
        if self.sdtype.kind == 'c':
            return emap(lambda x: parts(x)[1], self, np.dtype(float))
        return emap(lambda x: 0.0, self, np.dtype(float))

    @imag.setter
    def imag(self, v):
        v = np.broadcast_to(np.asarray(_objs(v), dtype=object), self.shape)
        flat, vf = self.reshape(-1), v.reshape(-1)
        for i in range(self.size):
            flat[i] = SComplex(parts(flat[i])[0], vf[i])
        self[...] = flat.reshape(self.shape)

    def astype(self, dtype, *a, **k):
        return convert(self, np.dtype(dtype))

    def copy(self, order='C'):
        return wrap(np.array(np.asarray(self.view(np.ndarray)), dtype=object, copy=True), self.sdtype)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def flatten(self, order='C'):
        return wrap(self.view(np.ndarray).flatten(order), self.sdtype)

    def conj(self):
        return emap(lambda x: x.conjugate() if hasattr(x, 'conjugate') else x, self, self.sdtype)
    conjugate = conj

    def sum(self, axis=None, dtype=None, out=None, **kw):
        if axis is not None:
            return wrap(np.add.reduce(self.view(np.ndarray), axis=axis), self.sdtype)
        r = 0
        for x in self.view(np.ndarray).reshape(-1):
            r = r + x
        return r

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(lambda a, b: lower(a, b), self, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(lambda a, b: higher(a, b), self, axis, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_(lambda a, b: a * b, self, axis, keepdims, 1)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        s = reduce_(lambda a, b: a + b, self, axis, keepdims, 0)
        return s / (self.size if axis is None else self.shape[axis])

    def ptp(self, axis=None, out=None, keepdims=False):
        return self.max(axis) - self.min(axis)

    def cumsum(self, axis=None, dtype=None, out=None):
        return wrap(np.add.accumulate((self.reshape(-1) if axis is None else self).view(np.ndarray),
                                      axis=0 if axis is None else axis), self.sdtype)

    def cumprod(self, axis=None, dtype=None, out=None):
        return wrap(np.multiply.accumulate((self.reshape(-1) if axis is None else self).view(np.ndarray),
                                           axis=0 if axis is None else axis), self.sdtype)

    def argmin(self, axis=None, out=None, **k):
        return _arg(self, axis, lambda new, best: new < best)

    def argmax(self, axis=None, out=None, **k):
        return _arg(self, axis, lambda new, best: new > best)

    def argsort(self, axis=-1, kind=None, order=None, **k):
        if self.ndim != 1:
            return np.argsort(_concretised(self), axis, kind)
        xs = list(self.view(np.ndarray))
        return np.array(_order(xs), dtype=int)

    def sort(self, axis=-1, kind=None, order=None, **k):
        if self.ndim != 1:
            self[...] = np.sort(_concretised(self), axis, kind)
            return
        xs = list(self.view(np.ndarray))
        base = self.view(np.ndarray)
        for i, j in enumerate(_order(xs)):
            base[i] = xs[j]

    def clip(self, min=None, max=None, out=None, **k):
        r = NP.clip(self, min, max)
        if out is not None:
            out[...] = r
            return out
        return r

    def round(self, decimals=0, out=None):
        return _round(self, decimals)

    def nonzero(self):
        return np.nonzero(np.array([bool(x) for x in self.view(np.ndarray).reshape(-1)], bool).reshape(self.shape))

    def dot(self, b, out=None):
        return NP.dot(self, b)

    def fill(self, v):
        self[...] = v

    def view(self, *a, **k):
        t = a[0] if a else k.get('dtype', k.get('type'))
        if t is None or isinstance(t, type) and issubclass(t, np.ndarray):
            return super().view(*a, **k)
        dt = np.dtype(t)
        v = [x for x in super().view(np.ndarray).reshape(-1)]
        sh = self.shape
        if dt == self.sdtype:
            return super().view(SymArr)
        if dt.kind == 'f' and self.sdtype.kind == 'c' and dt.itemsize * 2 == self.sdtype.itemsize and sh:
            o = [p for x in v for p in parts(x)]
            sh = sh[:-1] + (2 * sh[-1],)
        elif dt.kind == 'c' and self.sdtype.kind == 'f' and dt.itemsize == self.sdtype.itemsize * 2 and sh and sh[-1] % 2 == 0:
            o = [SComplex(v[i], v[i + 1]) for i in range(0, len(v), 2)]
            sh = sh[:-1] + (sh[-1] // 2,)
        elif dt.kind == self.sdtype.kind and dt.itemsize == self.sdtype.itemsize:
            o = v
        else:
            raise E.Unsupported('view of %s as %s' % (self.sdtype, dt))
        b = np.empty(len(o), object)
        for i, x in enumerate(o):
            b[i] = x
        r = wrap(b.reshape(sh), dt)
        r.ro = True                     # a copy: writes through it would be lost
        return r

    def any(self, *a, **k):
        xs = [x for x in self.view(np.ndarray).reshape(-1)]
        return mkbool(z3.Or(*[_truth(x) for x in xs])) if xs else False

    def all(self, *a, **k):
        xs = [x for x in self.view(np.ndarray).reshape(-1)]
        return mkbool(z3.And(*[_truth(x) for x in xs])) if xs else True

    def tobytes(self, order='C'):
        return tobytes(self)

    def byteswap(self, inplace=False):
        raise E.Unsupported('byteswap')

    def tofile(self, fh, sep='', format='%s'):
        if sep:
            raise E.Unsupported('tofile text')
        fh.write(tobytes(self))

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = [i.view(np.ndarray) if isinstance(i, SymArr) else i for i in inputs]
        dts = [i.sdtype if isinstance(i, SymArr) else _dt(i) for i in inputs]
        kw.pop('dtype', None)
        if out is not None:
            kw['out'] = tuple(o.view(np.ndarray) if isinstance(o, SymArr) else o for o in out)
        if method == '__call__':
            name = ufunc.__name__
            if name in ('equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal'):
                r = ufunc(*[_lift(i) for i in ins], dtype=object, **kw)
                return wrap(r, np.dtype(bool)) if isinstance(r, np.ndarray) else r
            if name in ('isnan', 'isinf', 'isfinite'):
                f = {'isnan': math.isnan, 'isinf': math.isinf, 'isfinite': math.isfinite}[name]

                def g(x):
                    ps = parts(x)
                    vs = [f(p) if not is_sym(p) else (name == 'isfinite') for p in ps]
                    return all(vs) if name == 'isfinite' else any(vs)
                return np.array([g(x) for x in ins[0].reshape(-1)], dtype=bool).reshape(ins[0].shape)
            if name in ('logical_and', 'logical_or', 'logical_not', 'bitwise_and', 'bitwise_or', 'invert') \
                    and all(d.kind == 'b' for d in dts):
                import operator
                if name in ('logical_not', 'invert'):
                    return emap(lambda x: ~x if isinstance(x, SBool) else not x, inputs[0], np.dtype(bool))
                op = operator.and_ if 'and' in name else operator.or_
                a, b = np.broadcast_arrays(*[_lift(i) for i in ins])
                r = np.empty(a.shape, object)
                rf, af, bf = r.reshape(-1), a.reshape(-1), b.reshape(-1)
                for i in range(r.size):
                    rf[i] = op(af[i], bf[i])
                return wrap(r, np.dtype(bool))
            if name in ('minimum', 'maximum', 'fmin', 'fmax') and out is None:
                a, b = np.broadcast_arrays(*[_lift(i) for i in ins])
                g = lower if 'min' in name else higher
                r = np.empty(a.shape, object)
                rf, af, bf = r.reshape(-1), a.reshape(-1), b.reshape(-1)
                for i in range(r.size):
                    rf[i] = g(af[i], bf[i])
                ds = [d for d in dts if d is not None and d != object]
                return wrap(r, np.result_type(*ds) if ds else np.dtype(object)) if r.ndim else r[()]
            if name == 'sign':
                return emap(lambda x: ite_n(x > 0, 1.0, ite_n(x < 0, -1.0, 0.0)), inputs[0], dts[0])
            if name in ('logical_and', 'logical_or', 'logical_not', 'logical_xor'):
                ms = [emap(lambda x: mkbool(_truth(x)), wrap(np.asarray(_lift(i), dtype=object), np.dtype(object)), np.dtype(bool))
                      for i in ins]
                if name == 'logical_xor':
                    return ms[0] != ms[1]
                return getattr(np, name)(*ms)
            if name in ('absolute', 'conjugate', 'floor', 'ceil', 'trunc', 'rint'):
                import math as _m
                f = {'absolute': abs, 'conjugate': lambda x: x.conjugate(), 'floor': lambda x: x.__floor__(),
                     'ceil': lambda x: x.__ceil__(), 'trunc': lambda x: x.__trunc__(), 'rint': round}[name]
                return emap(f, inputs[0], np.dtype(float) if name == 'absolute' else dts[0])
            r = getattr(ufunc, method)(*[_lift(i) for i in ins], **kw)
            dt = np.result_type(*[d for d in dts if d is not None]) if any(d is not None and d != object for d in dts) else np.dtype(object)
            if name == 'divide' and dt.kind in 'iub':
                dt = np.dtype(float)
            if out is not None:
                return out[0] if len(out) == 1 else out
            return wrap(r, dt) if isinstance(r, np.ndarray) else r
        r = getattr(ufunc, method)(*[_lift(i) for i in ins], **kw)
        return wrap(r, dts[0]) if isinstance(r, np.ndarray) else r

    def __getitem__(self, k):
        return super().__getitem__(_key(k))

    def __setitem__(self, k, v):
        if self.ro:
            raise E.Unsupported('write through a dtype view')
        k = _key(k)
        if isinstance(v, SymArr):
            if v.sdtype != self.sdtype and self.sdtype.kind in 'iufc':
                v = convert(v, self.sdtype)
            v = v.view(np.ndarray)
        elif isinstance(v, np.ndarray):
            v = v.astype(object) if self.sdtype.kind not in 'iuf' or v.dtype.kind == self.sdtype.kind else \
                _boxed(v.astype(self.sdtype))
        elif is_sym(v):
            v = conv1(v, self.sdtype)
            b = np.empty((), object)
            b[()] = v
            v = b
        elif isinstance(v, (list, tuple)):
            v = asarray(v).view(np.ndarray).astype(object) if True else v
        elif self.sdtype.kind in 'iufcb':
            v = conv1(v, self.sdtype)
        self.view(np.ndarray)[k] = v

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __reduce__(self):
        raise E.Unsupported('pickle')


def _nan(x):
    return not is_sym(x) and any(isinstance(p, float) and p != p for p in parts(x))


def ite_n(c, a, b):
    if isinstance(a, (SComplex, complex)) or isinstance(b, (SComplex, complex)):
        return a if bool(c) else b
    return ite(c, a, b)


def _lt(a, b):
    if isinstance(a, (SComplex, complex)) or isinstance(b, (SComplex, complex)):
        (p, q), (r, s) = parts(a), parts(b)
        if bool(p == r):
            return q < s
        return p < r
    return a < b


def lower(a, b):
    if _nan(a) or _nan(b):
        return a if _nan(a) else b
    return ite_n(_lt(b, a), b, a)


def higher(a, b):
    if _nan(a) or _nan(b):
        return a if _nan(a) else b
    return ite_n(_lt(a, b), b, a)


def reduce_(f, a, axis=None, keepdims=False, empty=None):
    src = a.view(np.ndarray) if isinstance(a, SymArr) else np.asarray(a, dtype=object)
    dt = a.sdtype if isinstance(a, SymArr) else np.dtype(object)

    def one(xs):
        if not xs:
            if empty is None:
                raise ValueError('zero-size array to reduction operation which has no identity')
            return empty
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r
    if axis is None:
        r = one(list(src.reshape(-1)))
        if keepdims:
            b = np.empty((1,) * src.ndim, object)
            b.reshape(-1)[0] = r
            return wrap(b, dt)
        return r
    m = np.moveaxis(src, axis, -1)
    o = np.empty(m.shape[:-1], object)
    for ix in np.ndindex(*m.shape[:-1]):
        o[ix] = one(list(m[ix]))
    if not m.shape[:-1]:
        return o[()]
    return wrap(np.expand_dims(o, axis) if keepdims else o, dt)


def _arg(a, axis, better):
    if axis is not None and a.ndim != 1:
        m = np.moveaxis(a.view(np.ndarray), axis, -1)
        o = np.empty(m.shape[:-1], int)
        for ix in np.ndindex(*m.shape[:-1]):
            o[ix] = _arg(wrap(m[ix], a.sdtype), None, better)
        return o
    xs = list(a.view(np.ndarray).reshape(-1))
    if not xs:
        raise ValueError('attempt to get argmax of an empty sequence')
    b = 0
    for i, x in enumerate(xs):
        if i and bool(better(x, xs[b])):
            b = i
    return np.int64(b)


def _order(xs):
    import functools
    return sorted(range(len(xs)), key=functools.cmp_to_key(
        lambda i, j: -1 if bool(_lt(xs[i], xs[j])) else 1 if bool(_lt(xs[j], xs[i])) else 0))


def _concretised(x):
    from .runtime import concretise
    E.eng().flag('array on concrete values')
    return concretise(x)


def _round(a, decimals=0):
    from .values import round_int
    if a.sdtype.kind in 'iub' and decimals >= 0:
        return a.copy()
    if decimals == 0 and a.sdtype.kind == 'f':
        return emap(lambda x: SFloat.of_int(round_int(x)) if isinstance(x, SFloat) else np.round(x), a, a.sdtype)
    return np.round(_concretised(a), decimals)


def _key(k):
    """Concrete index: masks are decided element by element."""
    if isinstance(k, SInt):
        return k.__index__()
    if isinstance(k, SymArr):
        if k.sdtype.kind == 'b':
            return np.array([bool(x) for x in k.view(np.ndarray).reshape(-1)], bool).reshape(k.shape)
        if k.sdtype.kind in 'iu':
            return np.array([int(x) for x in k.view(np.ndarray).reshape(-1)], int).reshape(k.shape)
        return k.view(np.ndarray)
    if isinstance(k, tuple):
        return tuple(_key(x) for x in k)
    return k


def _boxed(a):
    o = np.empty(a.shape, object)
    of, af = o.reshape(-1), a.reshape(-1)
    for i in range(a.size):
        of[i] = af[i].item()
    return o


def _objs(v):
    return v.view(np.ndarray) if isinstance(v, SymArr) else v


def _truth(x):
    if isinstance(x, SBool):
        return x.z
    if is_sym(x):
        return zb(x != 0)
    return z3.BoolVal(bool(x))


def _lift(i):
    if isinstance(i, Sym):
        b = np.empty((), object)
        b[()] = i
        return b
    if isinstance(i, np.ndarray) and i.dtype != object:
        return i.astype(object)
    if isinstance(i, (list, tuple)):
        return asarray(i).view(np.ndarray).astype(object)
    return i


def _dt(x):
    """dtype of a scalar or array operand."""
    if isinstance(x, SymArr):
        return x.sdtype
    if isinstance(x, np.ndarray):
        return None if x.dtype == object and x.ndim == 0 else x.dtype
    if isinstance(x, SBool) or isinstance(x, (bool, np.bool_)):
        return np.dtype(bool)
    if isinstance(x, SInt) or _is_int(x):
        return np.dtype(int)
    if isinstance(x, SFloat) or _is_float(x):
        return np.dtype(float)
    if isinstance(x, (SComplex, complex, np.complexfloating)):
        return np.dtype(complex)
    if isinstance(x, Seq):
        return np.dtype('U1' if x.kind == 'str' else 'S1')
    if isinstance(x, str):
        return np.dtype('U1')
    if isinstance(x, bytes):
        return np.dtype('S1')
    if isinstance(x, (list, tuple)):
        return asarray(x).dtype
    return np.dtype(object)


def wrap(a, dt):
    if not isinstance(a, np.ndarray):
        return a
    r = np.asarray(a, dtype=object).view(SymArr) if not isinstance(a, SymArr) else a.view(np.ndarray).view(SymArr)
    r.sdtype = np.dtype(dt)
    return r


def emap(f, a, dt):
    src = a.view(np.ndarray)
    o = np.empty(src.shape, object)
    of, sf = o.reshape(-1), src.reshape(-1)
    for i in range(src.size):
        of[i] = f(sf[i])
    return wrap(o, dt)


def conv1(x, dt):
    """Element conversion to dtype dt."""
    k = dt.kind
    if isinstance(x, (Seq, str, bytes)) and k in 'fiuc':
        if isinstance(x, Seq):
            return parse_float(x) if k in 'fc' else parse_int(x)
        return float(x) if k in 'fc' else int(x)
    if k == 'f':
        if isinstance(x, SFloat):
            if dt.itemsize == 4:
                from .values import rnd_single
                return rnd_single(x)
            return x
        if isinstance(x, (SInt, SBool)):
            return SFloat.of_int(x)
        if isinstance(x, SComplex):
            return x.real
        if x is None:
            return float('nan')
        if isinstance(x, (complex, np.complexfloating)):
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        return dt.type(x).item()
    if k in 'iu':
        if isinstance(x, SFloat):
            return trunc(x)
        if isinstance(x, SBool):
            return x.as_int()
        if isinstance(x, SInt):
            return x
        if isinstance(x, SComplex):
            return conv1(x.real, dt)
        return int(x)
    if k == 'c':
        if isinstance(x, (SFloat, SInt, SBool)):
            return SComplex(x if isinstance(x, SFloat) else SFloat.of_int(x), 0.0)
        return x
    if k == 'b':
        if is_sym(x):
            return mkbool(_truth(x))
        return bool(x)
    return x


def convert(a, dt):
    if dt.kind in 'US' or dt.kind == 'O':
        return wrap(np.array(a.view(np.ndarray), dtype=object, copy=True), dt)
    return emap(lambda x: conv1(x, dt), a, dt)


def has_sym(x, depth=5):
    if isinstance(x, (Sym, SymArr)):
        return True
    if depth and isinstance(x, (list, tuple)):
        return any(has_sym(i, depth - 1) for i in x)
    if depth and isinstance(x, dict):
        return any(has_sym(i, depth - 1) for i in x.values())
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(isinstance(i, Sym) for i in x.reshape(-1))
    return False


def _shape(x):
    if isinstance(x, (Sym, str, bytes)) or not isinstance(x, (list, tuple, np.ndarray, range)) and not hasattr(x, '__len__'):
        return ()
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, dict):
        return ()
    if len(x) == 0:
        return (0,)
    subs = [_shape(i) for i in x]
    if any(s != subs[0] for s in subs):
        raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
    return (len(x),) + subs[0]


def _flat(x, out):
    if isinstance(x, SymArr):
        out.extend(x.view(np.ndarray).reshape(-1))
    elif isinstance(x, np.ndarray):
        out.extend(x.reshape(-1).tolist() if x.dtype != object else list(x.reshape(-1)))
    elif isinstance(x, (list, tuple, range)) and not isinstance(x, (str, bytes)):
        for i in x:
            _flat(i, out)
    elif isinstance(x, (Sym, str, bytes)) or not hasattr(x, '__len__') or isinstance(x, dict):
        out.append(x)
    else:
        for i in x:
            _flat(i, out)


def build(x, dtype=None):
    if isinstance(x, (map, filter, zip)) or hasattr(x, '__next__'):
        b = np.empty((), object)
        b[()] = x
        return wrap(b, np.dtype(object))
    dts = None
    if dtype is not None:
        dt = np.dtype(dtype)
    shape = _shape(x)
    flat = []
    _flat(x, flat)
    if dtype is None:
        ds = [_dt(i) for i in flat]
        if isinstance(x, SymArr):
            dt = x.sdtype
        elif not ds:
            dt = np.dtype(float)
        elif any(d == object for d in ds):
            dt = np.dtype(object)
        else:
            try:
                dt = np.result_type(*set(ds))
            except Exception:
                dt = np.dtype(object)
    o = np.empty(len(flat), object)
    for i, v in enumerate(flat):
        o[i] = conv1(v, dt)
    return wrap(o.reshape(shape), dt)


def asarray(x, dtype=None, *a, **k):
    if isinstance(x, SymArr):
        if dtype is None or np.dtype(dtype) == x.sdtype:
            return x
        return convert(x, np.dtype(dtype))
    if isinstance(x, np.ndarray) and x.dtype != object:
        r = np.asarray(x, dtype=dtype)
        return wrap(_boxed(r), r.dtype) if r.dtype.kind in 'ifcbu' and E.eng() is not None and False else r
    if not has_sym(x):
        return np.asarray(x, dtype=dtype)
    return build(x, dtype)


def array(x, dtype=None, copy=True, **k):
    if isinstance(x, SymArr):
        return x.copy() if dtype is None or np.dtype(dtype) == x.sdtype else convert(x, np.dtype(dtype))
    if not has_sym(x):
        return np.array(x, dtype=dtype)
    return build(x, dtype)


def tobytes(a):
    dt = a.sdtype
    if dt.kind == 'f':
        c = 'd' if dt.itemsize == 8 else 'f'
        en = '>' if dt.byteorder == '>' else '<'
        v = list(a.view(np.ndarray).reshape(-1))
        return s_pack(en + '%d%s' % (len(v), c), *v)
    if dt.kind == 'c':
        v = []
        for x in a.view(np.ndarray).reshape(-1):
            v.extend(parts(x))
        c = 'd' if dt.itemsize == 16 else 'f'
        en = '>' if dt.byteorder == '>' else '<'
        return s_pack(en + '%d%s' % (len(v), c), *v)
    raise E.Unsupported('tobytes of %s' % dt)


class NP:
    """Stands for the numpy module in the code under test."""

    def __getattr__(self, name):
        f = getattr(np, name)
        if callable(f) and not isinstance(f, type):
            if isinstance(f, np.ufunc):
                return f
            return _Generic(f)
        return f

    SymArr = SymArr
    ndarray = np.ndarray

    @staticmethod
    def zeros(shape, dtype=float, order='C', **k):
        dt = np.dtype(dtype)
        shape = shape.__index__() if isinstance(shape, SInt) else shape
        if dt.kind in 'ifcbu':
            return wrap(_boxed(np.zeros(shape, dt)), dt)
        return np.zeros(shape, dt)

    @staticmethod
    def ones(shape, dtype=float, order='C', **k):
        dt = np.dtype(dtype)
        return wrap(_boxed(np.ones(shape, dt)), dt)

    @staticmethod
    def full(shape, v, dtype=None, **k):
        dt = np.dtype(dtype) if dtype is not None else _dt(v)
        a = wrap(np.empty(shape, object), dt)
        a[...] = v
        return a

    @staticmethod
    def empty(shape, dtype=float, order='C', **k):
        dt = np.dtype(dtype)
        if dt.kind in 'ifcbu':
            return wrap(_boxed(np.zeros(shape, dt)), dt)
        return np.empty(shape, dt)

    @staticmethod
    def zeros_like(a, dtype=None, **k):
        a = asarray(a)
        return NP.zeros(a.shape, dtype or a.dtype)

    @staticmethod
    def empty_like(a, dtype=None, **k):
        a = asarray(a)
        return NP.zeros(a.shape, dtype or a.dtype)

    @staticmethod
    def ones_like(a, dtype=None, **k):
        a = asarray(a)
        return NP.ones(a.shape, dtype or a.dtype)

    asarray = staticmethod(asarray)
    array = staticmethod(array)
    asanyarray = staticmethod(asarray)
    ascontiguousarray = staticmethod(asarray)

    @staticmethod
    def copy(a, *x, **k):
        return array(a)

    @staticmethod
    def fromiter(it, dtype, count=-1):
        return array(list(it), dtype)

    @staticmethod
    def iscomplexobj(x):
        if isinstance(x, SymArr):
            return x.sdtype.kind == 'c'
        if isinstance(x, SComplex):
            return True
        if isinstance(x, Sym):
            return False
        if has_sym(x):
            return asarray(x).dtype.kind == 'c'
        return np.iscomplexobj(x)

    @staticmethod
    def isrealobj(x):
        return not NP.iscomplexobj(x)

    @staticmethod
    def real(x):
        if isinstance(x, (SymArr, SComplex)):
            return x.real
        if isinstance(x, Sym):
            return x
        return asarray(x).real if has_sym(x) else np.real(x)

    @staticmethod
    def imag(x):
        if isinstance(x, (SymArr, SComplex)):
            return x.imag
        if isinstance(x, Sym):
            return 0
        return asarray(x).imag if has_sym(x) else np.imag(x)

    @staticmethod
    def conj(x):
        return x.conj() if isinstance(x, SymArr) else x.conjugate() if isinstance(x, Sym) else np.conj(x)
    conjugate = conj

    @staticmethod
    def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
        if not has_sym(x):
            return np.nan_to_num(x, copy=copy, nan=nan, posinf=posinf, neginf=neginf)
        a = asarray(x) if not isinstance(x, Sym) else None

        def f(v):
            if isinstance(v, SComplex):
                return SComplex(f(v.real), f(v.imag))
            if isinstance(v, Sym):
                return v
            if isinstance(v, (int, np.integer)) and not isinstance(v, bool):
                return v
            r = np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf)
            return r.item() if hasattr(r, 'item') else r
        if a is None:
            return f(x)
        r = emap(f, a, a.dtype)
        if not copy and isinstance(x, SymArr):
            x[...] = r
            return x
        return r

    @staticmethod
    def isnan(x):
        if isinstance(x, SymArr):
            return np.isnan(x)
        if isinstance(x, Sym):
            return False
        return asarray(x).__array_ufunc__(np.isnan, '__call__', asarray(x)) if has_sym(x) else np.isnan(x)

    @staticmethod
    def isfinite(x):
        if isinstance(x, Sym):
            return True
        return np.isfinite(asarray(x))

    @staticmethod
    def isinf(x):
        if isinstance(x, Sym):
            return False
        return np.isinf(asarray(x))

    @staticmethod
    def sum(x, *a, **k):
        x = asarray(x)
        return x.sum(*a, **k)

    @staticmethod
    def any(x, *a, **k):
        x = asarray(x)
        return x.any(*a, **k)

    @staticmethod
    def all(x, *a, **k):
        x = asarray(x)
        return x.all(*a, **k)

    @staticmethod
    def count_nonzero(x, *a, **k):
        if has_sym(x):
            r = 0
            for v in asarray(x).view(np.ndarray).reshape(-1):
                r = r + mkbool(_truth(v))
            return r
        return np.count_nonzero(x, *a, **k)

    @staticmethod
    def diff(x, n=1, axis=-1):
        x = asarray(x)
        return x[1:] - x[:-1] if x.ndim == 1 and n == 1 else np.diff(x, n, axis)

    @staticmethod
    def array_equal(a, b, *x, **k):
        if has_sym(a) or has_sym(b):
            a, b = asarray(a), asarray(b)
            if a.shape != b.shape:
                return False
            return (wrap(a, a.dtype) == wrap(b, b.dtype)).all()
        return np.array_equal(a, b, *x, **k)

    @staticmethod
    def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
        if has_sym(a) or has_sym(b):
            a, b = asarray(a), asarray(b)
            d = abs(a - b)
            return (d <= atol + rtol * abs(b)).all()
        return np.allclose(a, b, rtol, atol, **k)

    @staticmethod
    def frombuffer(buf, dtype=float, count=-1, offset=0):
        dt = np.dtype(dtype)
        if not isinstance(buf, Seq):
            return np.frombuffer(buf, dtype, count, offset)
        b = buf[offset:] if offset else buf
        n = len(b) // dt.itemsize
        if count < 0 and len(b) % dt.itemsize:
            raise ValueError('buffer size must be a multiple of element size')
        if count >= 0:
            if count > n:
                raise ValueError('buffer is smaller than requested size')
            n = count
        if dt.kind == 'f':
            v = s_unpack(('>' if dt.byteorder == '>' else '<') + '%d%s' % (n, 'd' if dt.itemsize == 8 else 'f'), b[:n * dt.itemsize])
            return build(list(v), dt)
        if dt.kind == 'c':
            h = dt.itemsize // 2
            v = s_unpack(('>' if dt.byteorder == '>' else '<') + '%d%s' % (2 * n, 'd' if h == 8 else 'f'), b[:n * dt.itemsize])
            o = np.empty(n, object)
            for i in range(n):
                o[i] = SComplex(v[2 * i], v[2 * i + 1])
            return wrap(o, dt)
        return np.frombuffer(b.concrete() if isinstance(b, Seq) else b, dtype, count)

    @staticmethod
    def column_stack(xs):
        xs = [asarray(x) for x in xs]
        r = np.column_stack([x.view(np.ndarray) if isinstance(x, SymArr) else x for x in xs])
        return wrap(r, np.result_type(*[_dt(x) for x in xs])) if any(isinstance(x, SymArr) for x in xs) else r

    @staticmethod
    def _stack(f, xs, *a, **k):
        xs = [asarray(x) if not isinstance(x, np.ndarray) else x for x in xs]
        if any(isinstance(x, SymArr) for x in xs):
            r = f([x.view(np.ndarray) if isinstance(x, SymArr) else x.astype(object) for x in xs], *a, **k)
            return wrap(r, np.result_type(*[x.dtype for x in xs if x.size or True]))
        return f(xs, *a, **k)

    @staticmethod
    def vstack(xs, *a, **k):
        return NP._stack(np.vstack, xs, *a, **k)

    @staticmethod
    def hstack(xs, *a, **k):
        return NP._stack(np.hstack, xs, *a, **k)

    @staticmethod
    def concatenate(xs, *a, **k):
        return NP._stack(np.concatenate, xs, *a, **k)

    @staticmethod
    def stack(xs, *a, **k):
        return NP._stack(np.stack, xs, *a, **k)

    @staticmethod
    def append(a, b, axis=None):
        if has_sym(a) or has_sym(b):
            return NP.concatenate([asarray(a).reshape(-1), asarray(b).reshape(-1)])
        return np.append(a, b, axis)

    @staticmethod
    def ndim(x):
        return len(_shape(x)) if has_sym(x) else np.ndim(x)

    @staticmethod
    def shape(x):
        return _shape(x) if has_sym(x) else np.shape(x)

    @staticmethod
    def size(x):
        return asarray(x).size

    @staticmethod
    def isscalar(x):
        return isinstance(x, Sym) or np.isscalar(x)

    @staticmethod
    def atleast_1d(x):
        if has_sym(x):
            a = build(x) if not isinstance(x, np.ndarray) else x
            return a if a.ndim else a.reshape(1)
        return np.atleast_1d(x)

    @staticmethod
    def ravel(x, order='C'):
        return asarray(x).reshape(-1, order=order)

    @staticmethod
    def min(x, axis=None, out=None, **k):
        return asarray(x).min(axis=axis, **k)

    @staticmethod
    def max(x, axis=None, out=None, **k):
        return asarray(x).max(axis=axis, **k)
    amin, amax = min, max

    @staticmethod
    def nanmin(x, axis=None, **k):
        return asarray(x).min(axis=axis) if has_sym(x) and not NP._nans(x) else np.nanmin(NP._conc(x), axis, **k)

    @staticmethod
    def nanmax(x, axis=None, **k):
        return asarray(x).max(axis=axis) if has_sym(x) and not NP._nans(x) else np.nanmax(NP._conc(x), axis, **k)

    @staticmethod
    def _nans(x):
        return any(_nan(v) for v in asarray(x).reshape(-1).tolist())

    @staticmethod
    def _conc(x):
        from .runtime import concretise
        return concretise(x)

    @staticmethod
    def _two(f, g, a, b, k):
        if not has_sym((a, b)):
            return f(a, b, **k)
        if isinstance(a, Sym) and not isinstance(b, (np.ndarray, list, tuple)) or isinstance(b, Sym) and not isinstance(a, (np.ndarray, list, tuple)):
            return g(a, b)
        a = asarray(a) if has_sym(a) or not has_sym(b) else wrap(np.asarray(a, dtype=object), np.asarray(a).dtype)
        return f(a, asarray(b) if isinstance(b, (list, tuple)) else b, **k)

    @staticmethod
    def minimum(a, b, **k):
        return NP._two(np.minimum, lower, a, b, k)

    @staticmethod
    def maximum(a, b, **k):
        return NP._two(np.maximum, higher, a, b, k)
    fmin, fmax = minimum, maximum

    @staticmethod
    def clip(a, a_min=None, a_max=None, out=None, **k):
        if not has_sym((a, a_min, a_max)):
            return np.clip(a, a_min, a_max, **k)
        a = asarray(a) if not isinstance(a, Sym) else a
        if a_min is not None:
            a = NP.maximum(a, a_min)
        if a_max is not None:
            a = NP.minimum(a, a_max)
        return a

    @staticmethod
    def _method(name):
        def f(x, *a, **k):
            if isinstance(x, Sym) or not has_sym(x):
                if isinstance(x, Sym):
                    x = build([x])
                    return getattr(x, name)(*a, **k)
                return getattr(np, name)(x, *a, **k)
            x = asarray(x)
            return getattr(x, name)(*a, **k)
        f.__name__ = name
        return f

    @staticmethod
    def median(x, *a, **k):
        if not has_sym(x):
            return np.median(x, *a, **k)
        v = NP.sort(asarray(x).reshape(-1))
        n = v.size
        return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2

    @staticmethod
    def sort(x, axis=-1, **k):
        if not has_sym(x):
            return np.sort(x, axis, **k)
        r = array(x)
        r.sort(axis, **k)
        return r

    @staticmethod
    def dot(a, b, out=None):
        if not has_sym((a, b)):
            return np.dot(a, b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            return a * b
        dt = np.result_type(_dt(a), _dt(b))
        r = np.dot(np.asarray(_objs(asarray(a)), dtype=object), np.asarray(_objs(asarray(b)), dtype=object))
        return wrap(r, dt) if isinstance(r, np.ndarray) else r
    matmul = dot

    @staticmethod
    def outer(a, b):
        if not has_sym((a, b)):
            return np.outer(a, b)
        return asarray(a).reshape(-1, 1) * asarray(b).reshape(1, -1)

    @staticmethod
    def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
        if not has_sym((a, b)):
            return np.isclose(a, b, rtol, atol, **k)
        if not isinstance(a, Sym):
            a = asarray(a)
        if not isinstance(b, Sym):
            b = asarray(b)
        return abs(a - b) <= atol + rtol * abs(b)

    @staticmethod
    def isin(a, b, **k):
        if not has_sym((a, b)):
            return np.isin(a, b, **k)
        from .runtime import contains
        bs = asarray(b).reshape(-1).tolist()
        if isinstance(a, Sym):
            return contains(a, bs)
        a = asarray(a)
        return emap(lambda x: contains(x, bs), a if isinstance(a, SymArr) else wrap(_boxed(a), a.dtype), np.dtype(bool))

    @staticmethod
    def around(x, decimals=0, out=None):
        if isinstance(x, SInt):
            return x
        if isinstance(x, Sym):
            return _round(build([x]), decimals)[0]
        return _round(asarray(x), decimals) if has_sym(x) else np.around(x, decimals)
    round = around
    rint = around

    @staticmethod
    def sign(x):
        if isinstance(x, Sym):
            return ite_n(x > 0, 1.0, ite_n(x < 0, -1.0, 0.0))
        return np.sign(asarray(x))

    @staticmethod
    def nonzero(x):
        return asarray(x).nonzero()

    @staticmethod
    def flatnonzero(x):
        return asarray(x).reshape(-1).nonzero()[0]

    @staticmethod
    def argwhere(x):
        return np.transpose(asarray(x).nonzero())

    @staticmethod
    def full_like(a, v, dtype=None, **k):
        a = asarray(a)
        return NP.full(a.shape, v, dtype or a.dtype)

    @staticmethod
    def vectorize(f, otypes=None, **k):
        def g(x, *a):
            if isinstance(x, Sym) or np.ndim(x) == 0 and not isinstance(x, np.ndarray):
                return f(x, *a)
            x = asarray(x)
            sh = x.shape
            return array([f(v, *a) for v in x.reshape(-1).tolist()], otypes[0] if otypes else None).reshape(sh)
        return g

    @staticmethod
    def fromfile(fh, dtype=float, count=-1, sep='', offset=0):
        dt = np.dtype(dtype)
        if not hasattr(fh, 'readinto') and hasattr(fh, '_data') and not sep:
            if offset:
                fh.seek(offset, 1)
            was, fh.binary = fh.binary, True
            try:
                b = fh.read(-1 if count < 0 else count * dt.itemsize)
            finally:
                fh.binary = was
            n = len(b) // dt.itemsize
            return NP.frombuffer(b[:n * dt.itemsize], dt)
        if sep and hasattr(fh, 'read'):
            return NP._fromtext(fh.read(), dt, count, sep)
        return np.fromfile(fh, dtype, count, sep, offset)

    @staticmethod
    def _fromtext(s, dt, count, sep):
        if isinstance(s, Seq) and s.kind == 'bytes':
            s = s.decode('latin-1')
        elif isinstance(s, bytes):
            s = s.decode('latin-1')
        ws = s.split() if not sep.strip() else [w for w in s.split(sep.strip())]
        if count >= 0:
            ws = ws[:count]
        return array([conv1(w, dt) for w in ws], dt)

    @staticmethod
    def fromstring(s, dtype=float, count=-1, *, sep=''):
        if sep:
            return NP._fromtext(s, np.dtype(dtype), count, sep) if isinstance(s, Seq) else np.fromstring(s, dtype, count, sep=sep)
        return NP.frombuffer(s, dtype, count)

    @staticmethod
    def loadtxt(src, dtype=float, comments='#', delimiter=None, converters=None, skiprows=0, usecols=None, unpack=False,
                ndmin=0, encoding=None, max_rows=None, **k):
        lines = list(src)
        if not has_sym(lines):
            return np.loadtxt(lines, dtype=dtype, comments=comments, delimiter=delimiter, skiprows=skiprows, usecols=usecols,
                              unpack=unpack, ndmin=ndmin, max_rows=max_rows)
        rows = []
        for l in lines[skiprows:]:
            if max_rows is not None and len(rows) >= max_rows:
                break
            ws = l.split(delimiter)
            if ws:
                rows.append([ws[i] for i in usecols] if usecols is not None else ws)
        if any(len(r) != len(rows[0]) for r in rows):
            raise ValueError('the number of columns changed')
        a = build([[conv1(w, np.dtype(dtype)) for w in r] for r in rows], dtype)
        if ndmin == 0:
            a = np.squeeze(a)
        elif ndmin == 1 and a.ndim == 2 and 1 in a.shape:
            a = a.reshape(-1)
        return a.T if unpack else a

    @staticmethod
    def savetxt(fh, X, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', comments='# ', encoding=None):
        from .runtime import mod, call, sx_open, vpath
        own = None
        if vpath(fh):
            own = fh = sx_open(fh, 'w', encoding=encoding or 'latin1')
        elif not has_sym(X) and not hasattr(fh, '_data'):
            return np.savetxt(fh, X, fmt, delimiter, newline, header, footer, comments, encoding)
        X = asarray(X)
        if X.ndim == 1:
            X = X.reshape(-1, 1)
        elif X.ndim != 2:
            raise ValueError('Expected 1D or 2D array, got %dD array instead' % X.ndim)
        if isinstance(fmt, (list, tuple)):
            if len(fmt) != X.shape[1]:
                raise AttributeError('fmt has wrong shape')
            line = delimiter.join(fmt)
        elif fmt.count('%') == 1:
            line = delimiter.join([fmt] * X.shape[1])
        else:
            line = fmt

        def put(s):
            if getattr(fh, 'binary', False):
                s = s.encode('latin-1')
            fh.write(s)
        try:
            if header:
                put(comments + header.replace('\n', '\n' + comments) + newline)
            for row in X.tolist():
                put(mod(line, tuple(row)) + newline)
            if footer:
                put(comments + footer.replace('\n', '\n' + comments) + newline)
        finally:
            if own is not None:
                own.close()

    @staticmethod
    def reshape(x, *a, **k):
        return asarray(x).reshape(*a, **k)

    @staticmethod
    def arange(*a, **k):
        if any(isinstance(x, SInt) for x in a):
            a = [x.__index__() if isinstance(x, SInt) else x for x in a]
        if any(isinstance(x, SFloat) for x in a):
            return np.arange(*[float(x) if isinstance(x, SFloat) else x for x in a], **k)
        return np.arange(*a, **k)

    @staticmethod
    def linspace(start, stop, num=50, endpoint=True, **k):
        if has_sym((start, stop)):
            num = int(num)
            div = (num - 1) if endpoint else num
            step = (stop - start) / div if div else 0.0
            return build([start + step * i for i in range(num)], float)
        return np.linspace(start, stop, num, endpoint, **k)

    @staticmethod
    def floor(x):
        return x.__floor__() if isinstance(x, Sym) else np.floor(x)

    @staticmethod
    def ceil(x):
        return x.__ceil__() if isinstance(x, Sym) else np.ceil(x)

    @staticmethod
    def abs(x):
        return abs(x)
    absolute = abs

    @staticmethod
    def unique(x, *a, **k):
        if has_sym(x):
            out = []
            for v in asarray(x).view(np.ndarray).reshape(-1):
                if not any(bool(v == o) for o in out):
                    out.append(v)
            import functools
            out.sort(key=functools.cmp_to_key(lambda p, q: -1 if bool(p < q) else (1 if bool(q < p) else 0)))
            return build(out, asarray(x).dtype)
        return np.unique(x, *a, **k)

    @staticmethod
    def where(c, *xy):
        if isinstance(c, SymArr):
            m = np.array([bool(v) for v in c.view(np.ndarray).reshape(-1)], dtype=bool).reshape(c.shape)
            if not xy:
                return np.where(m)
            r = np.where(m, *[_lift(v) if has_sym(v) else v for v in xy])
            return wrap(r, np.result_type(*[_dt(v) for v in xy])) if r.dtype == object else r
        return np.where(c, *xy)


for _n in ('mean', 'prod', 'cumsum', 'cumprod', 'ptp', 'argmin', 'argmax', 'argsort'):
    setattr(NP, _n, staticmethod(NP._method(_n)))
NP.nansum = NP.sum
NP.minimum.reduce = NP.fmin.reduce = lambda x, axis=0, **k: asarray(x).min(axis=axis)
NP.maximum.reduce = NP.fmax.reduce = lambda x, axis=0, **k: asarray(x).max(axis=axis)


class _Generic:
    """A numpy function without a symbolic version: numpy's own, on the object array when it is structural
    and on concrete values otherwise."""
    STRUCT = {'transpose', 'reshape', 'expand_dims', 'squeeze', 'swapaxes', 'moveaxis', 'split', 'array_split',
              'repeat', 'tile', 'flip', 'roll', 'broadcast_to', 'delete', 'insert', 'take', 'dstack', 'empty_like',
              'hsplit', 'vsplit', 'append', 'resize', 'ndindex', 'ndenumerate', 'nditer', 'flipud', 'fliplr', 'rot90',
              'atleast_2d', 'atleast_3d', 'broadcast_arrays', 'diag', 'fill_diagonal', 'put', 'copyto', 'rollaxis', 'trim_zeros',
              'block', 'select', 'pad', 'cross', 'kron', 'trace', 'apply_along_axis', 'meshgrid', 'compress', 'extract'}

    def __init__(self, f):
        self.f = f
        self.__name__ = getattr(f, '__name__', '?')

    def __call__(self, *a, **k):
        if not has_sym(a) and not has_sym(k):
            return self.f(*a, **k)
        if self.__name__ in self.STRUCT:
            a2 = [asarray(x) if has_sym(x) and isinstance(x, (list, tuple)) and i == 0 else x for i, x in enumerate(a)]
            return self.f(*a2, **k)
        from .runtime import concretise
        E.eng().flag('numpy.%s on concrete values' % self.__name__)
        return self.f(*concretise(list(a)), **concretise(k))


def _over_arrays():
    """scalar <op> array for the symbolic scalars (numpy defers to them)."""
    def make(cls, name, orig):
        def op(self, o):
            if isinstance(o, np.ndarray) and o.ndim > 0 or type(o) is SymArr:
                src = o.view(np.ndarray) if isinstance(o, SymArr) else _boxed(o) if o.dtype != object else o
                dts = [np.dtype(int) if isinstance(self, SInt) else np.dtype(bool) if isinstance(self, SBool) else
                       np.dtype(complex) if isinstance(self, SComplex) else np.dtype(float), o.dtype]
                dt = np.dtype(object) if object in dts else np.result_type(*dts)
                if 'truediv' in name and dt.kind in 'iub':
                    dt = np.dtype(float)
                if name in ('__lt__', '__le__', '__gt__', '__ge__', '__eq__', '__ne__'):
                    dt = np.dtype(bool)
                r = np.empty(src.shape, object)
                rf, sf = r.reshape(-1), src.reshape(-1)
                import operator
                if name in ('__lt__', '__le__', '__gt__', '__ge__', '__eq__', '__ne__'):
                    f = getattr(operator, name.strip('_'))
                    g = lambda x: f(self, x)
                elif name.startswith('__r'):
                    f = getattr(operator, name[3:].strip('_'))
                    g = lambda x: f(x, self)
                else:
                    f = getattr(operator, name.strip('_'))
                    g = lambda x: f(self, x)
                for i in range(r.size):
                    rf[i] = g(sf[i])
                return wrap(r, dt)
            return orig(self, o)
        op.__name__ = name
        return op
    for cls in (SInt, SFloat, SComplex, SBool):
        for nm in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod'):
            for name in ('__%s__' % nm, '__r%s__' % nm):
                orig = getattr(cls, name, None)
                if orig is not None:
                    setattr(cls, name, make(cls, name, orig))
        for name in ('__lt__', '__le__', '__gt__', '__ge__', '__eq__', '__ne__'):
            h = cls.__hash__
            setattr(cls, name, make(cls, name, getattr(cls, name)))


_over_arrays()

"""Concrete execution of a harness against the real package (no solver, no instrumentation)."""
import math
import os
import time
import sys
import tempfile
import traceback
from fractions import Fraction
import numpy as np
from .cxbase import Cx, Skip, tol


class Stop(BaseException):
    pass


class ConCx(Cx):
    symbolic = False

    def __init__(self, inputs, pyuff, root, params):
        self.inputs = inputs
        self.pyuff = pyuff
        self.np = np
        self.root = root
        self.failures = []
        self.known = []
        self.n_checks = 0
        self.log = []
        self.params = params

    # inputs
    def int(self, name, lo, hi):
        v = self.inputs.get(name, lo)
        if not lo <= v <= hi:
            raise Skip('%s out of range' % name)
        return int(v)

    def real(self, name, lo=None, hi=None, small=True, nonneg=False):
        v = self.inputs.get(name, 0.0)
        v = float.fromhex(v) if isinstance(v, str) else float(v)
        if nonneg and v < 0 or lo is not None and v < lo or hi is not None and v > hi:
            raise Skip('%s out of range' % name)
        if small and v != 0 and not 1e-98 <= abs(v) <= 9e98:
            raise Skip('%s out of range' % name)
        return v

    def single(self, name):
        return float(np.float32(self.real(name)))

    def text(self, name, n, alpha='ascii'):
        v = self.inputs.get(name)
        if v is None:
            v = [97] * n
        if len(v) != n:
            raise Skip('text length')
        return ''.join(chr(c) for c in v)

    def bytestr(self, name, n, alphabet):
        v = self.inputs.get(name)
        if v is None:
            v = [alphabet[0]] * n
        return bytes(v)

    def choice(self, name, options):
        options = list(options)
        return options[self.inputs.get(name, 0)]

    def bool(self, name):
        return bool(self.inputs.get(name, 0))

    # logic
    def assume(self, c):
        if not c:
            raise Skip('assumption')

    def all(self, cs):
        return all(bool(c) for c in cs)

    def any(self, cs):
        return any(bool(c) for c in cs)

    def no(self, c):
        return not c

    def known_finding(self, kid, cond):
        if cond:
            self.known.append(kid)

    def check(self, cond, label):
        self.n_checks += 1
        try:
            ok = bool(cond)
        except Exception:
            ok = False
        if not ok:
            self.failures.append(label)

    def stop(self):
        raise Stop()

    def eq1(self, g, w):
        if isinstance(w, (str, bytes)) or isinstance(g, (str, bytes)):
            return type(g) in (str, np.str_) and type(w) in (str, np.str_) and str(g) == str(w) or \
                isinstance(g, bytes) and isinstance(w, bytes) and g == w
        if g is None or w is None:
            return g is w
        try:
            return bool(g == w)
        except Exception:
            return False

    def close1(self, g, w, p):
        try:
            g, w = complex(g), complex(w)
        except Exception:
            return False
        t = tol(p)

        def one(a, b):
            if not (math.isfinite(a) and math.isfinite(b)):
                return a == b
            if t is None:
                return a == b
            a, b = Fraction(a), Fraction(b)
            return abs(a - b) <= t * abs(b) + Fraction(1, 2 ** 52) * abs(b)
        return one(g.real, w.real) and one(g.imag, w.imag)

    def near1(self, g, w, rel):
        """|g - w| <= rel * |w|"""
        g, w = complex(g), complex(w)
        return abs(g.real - w.real) <= rel * abs(w.real) and abs(g.imag - w.imag) <= rel * abs(w.imag)

    # environment
    def path(self, name):
        return os.path.join(self.root, name)

    def write_file(self, name, data, same_time=False):
        """same_time: the modification time stays as it was (a coarse clock)."""
        if isinstance(data, str):
            data = data.encode('utf-8')
        t = os.stat(self.path(name)) if same_time else None
        with open(self.path(name), 'wb') as f:
            f.write(data)
        if t is not None:
            os.utime(self.path(name), ns=(t.st_atime_ns, t.st_mtime_ns))

    def read_file(self, name):
        with open(self.path(name), 'rb') as f:
            return f.read()

    def exists(self, name):
        return os.path.exists(self.path(name))

    def remove(self, name):
        os.remove(self.path(name))

    def array(self, x, dtype=None):
        return np.array(x, dtype=dtype)

    def cplx(self, re, im):
        return complex(re, im)

    def raises(self, f, *a, **k):
        try:
            f(*a, **k)
        except Exception as x:
            return x
        return None

    def fmt(self, f, *a):
        return f % a

    def pack(self, f, *a):
        import struct
        return struct.pack(f, *a)

    def unpack(self, f, b):
        import struct
        return list(struct.unpack(f, b))

    def cat(self, parts):
        return (b'' if isinstance(parts[0], bytes) else '').join(parts)

    def fault_writes(self, k):
        """The k-th write call from now raises OSError; returns a context manager."""
        return _Fault(self.pyuff, k)

    def now(self, fmt):
        return time.strftime(fmt, time.localtime())

    def int_of(self, s):
        return int(s)

    def float_of(self, s):
        return float(s)

    def payload_markers(self):
        pass

    def is_array(self, x):
        return isinstance(x, np.ndarray)

    def type_name(self, x):
        return type(x).__name__

    def length(self, b):
        return len(b)


class _Fault:
    def __init__(self, pyuff, k):
        self.k = k
        self.mods = [m for n, m in list(sys.modules.items()) if n.startswith('pyuff') and m is not None]

    def __enter__(self):
        st = {'n': 0}
        k = self.k
        import builtins

        def count():
            st['n'] += 1
            if st['n'] == k + 1:
                raise OSError(28, 'No space left on device')

        class W:
            """A file object whose write and close calls count, the k-th of them failing."""
            def __init__(self, f):
                self.__dict__['_f'] = f

            def write(self, s):
                count()
                return self._f.write(s)

            def writelines(self, ls):
                for s in ls:
                    self.write(s)

            def close(self):
                if not self._f.closed:
                    try:
                        count()
                    finally:
                        self._f.close()

            @property
            def buffer(self):
                return W(self._f.buffer)

            def __getattr__(self, n):
                return getattr(self._f, n)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

        def fopen(path, mode='r', *a, **kw):
            f = builtins.open(path, mode, *a, **kw)
            return W(f) if any(c in mode for c in 'wax+') else f
        for m in self.mods:
            m.__dict__['open'] = fopen
        self.st = st
        return st

    def __exit__(self, *a):
        for m in self.mods:
            m.__dict__.pop('open', None)
        return False


def run(fn, params, inputs, pyuff):
    """{'ok':, 'failures':, 'exc':, 'known':, 'skip':}"""
    with tempfile.TemporaryDirectory(prefix='pyuffchk') as root:
        old = os.getcwd()
        os.chdir(root)
        cx = ConCx(inputs, pyuff, root, params)
        exc = None
        skip = None
        try:
            fn(cx, **params)
        except Stop:
            pass
        except Skip as s:
            skip = str(s)
        except Exception as x:
            exc = '%s: %s' % (type(x).__name__, x)
            if x.__context__ is not None and x.__context__ is not x:
                exc += ' (from %s: %s)' % (type(x.__context__).__name__, x.__context__)
            cx.log.append(traceback.format_exc()[-1500:])
            cx.failures.append('unexpected exception: %s' % exc)
        finally:
            os.chdir(old)
    return {'ok': not cx.failures, 'failures': cx.failures[:20], 'exc': exc, 'known': cx.known, 'skip': skip,
            'n_checks': cx.n_checks, 'log': cx.log[-3:]}

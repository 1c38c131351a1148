"""Operations of the instrumented code (`_sx`): calls, methods, formatting and membership on symbolic values,
and an in-memory file system for paths under /vfs/."""
import builtins
import io
import itertools
import functools
import math
import operator
import os
import struct
import sys
import time
import types
import numpy as _rnp
import z3
from . import engine as E
from . import text as T
from . import npshim as N
from .values import (Sym, SBool, SInt, SFloat, SComplex, is_sym, mkbool, zb, trunc, round_int, conc_int, conc_float)
from .text import Seq, Ch, Tok, parse_int, parse_float

np = N.NP()


# ---- concrete fallback --------------------------------------------------------------------------

def concretise(x, depth=6):
    if isinstance(x, Seq):
        return x.concrete()
    if isinstance(x, SBool):
        return bool(x)
    if isinstance(x, SInt):
        return T.conc_int_narrow(x)
    if isinstance(x, SFloat):
        return conc_float(x)
    if isinstance(x, SComplex):
        return complex(x)
    if isinstance(x, N.SymArr):
        dt = x.sdtype
        v = [concretise(i) for i in x.view(_rnp.ndarray).reshape(-1)]
        a = _rnp.empty(len(v), dt)
        for i, q in enumerate(v):
            a[i] = q
        return a.reshape(x.shape)
    if depth:
        if isinstance(x, list):
            return [concretise(i, depth - 1) for i in x]
        if isinstance(x, tuple):
            return tuple(concretise(i, depth - 1) for i in x)
        if type(x) is dict:
            return {concretise(k, depth - 1): concretise(v, depth - 1) for k, v in x.items()}
    return x


# ---- files --------------------------------------------------------------------------------------

class VFS:
    def __init__(self):
        self.files = {}
        self.ver = {}
        self.time = {}              # modification times
        self.log = []

    def put(self, p, content, same_time=False):
        self.files[p] = content
        self.ver[p] = self.ver.get(p, 0) + 1
        if not same_time:
            self.time[p] = self.ver[p]

    def remove(self, p):
        if p not in self.files:
            raise FileNotFoundError(2, 'No such file or directory: %r' % p)
        del self.files[p]
        self.ver[p] = self.ver.get(p, 0) + 1


VF = VFS()
PREFIX = '/vfs/'


def reset_fs():
    global VF
    VF = VFS()
    return VF


def vpath(p):
    if isinstance(p, Seq):
        p = p.concrete()
    if isinstance(p, (str, os.PathLike)):
        p = os.fspath(p)
        return isinstance(p, str) and p.startswith(PREFIX)
    return False


def _len(x):
    return len(x)


class VFile:
    """A file object over the in-memory file system."""
    bom = False

    def __init__(self, path, mode='r', encoding=None, errors=None, newline=None):
        self.name = path
        self.mode = mode
        self.binary = 'b' in mode
        self.encoding = encoding or 'utf-8'
        self.bom = not self.binary and T.norm_enc(self.encoding) == 'utf-8-sig'     # a byte order mark goes in front of the file
        if self.bom:
            self.encoding = 'utf-8'
        self.errors = errors or 'strict'
        self.newline = newline
        self.closed = False
        base = mode.replace('b', '').replace('t', '')
        self.append = base[0] == 'a'
        self.can_read = base[0] == 'r' or '+' in base
        self.can_write = base[0] in 'wax' or '+' in base
        fs = VF
        d = path[len(PREFIX):]
        if '/' in d:
            raise FileNotFoundError(2, 'No such file or directory: %r' % path)
        if base[0] == 'r' and path not in fs.files:
            raise FileNotFoundError(2, 'No such file or directory: %r' % path)
        if base[0] == 'x' and path in fs.files:
            raise FileExistsError(17, 'File exists: %r' % path)
        if base[0] in 'wx' or path not in fs.files:
            fs.put(path, b'')
        self.buf = []
        self.pos = 0                # byte position; None: at the end of the file
        if self.append:
            self.pos = None
        elif base[0] in 'wx':
            self.pos = None
            self.ver = fs.ver[path]
            self.end_ver = self.ver
        self.fs = fs
        if fs.log is not None:
            fs.log.append(('open', path, mode))

    # writing
    def _chk(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def write(self, s):
        self._chk()
        if not self.can_write:
            raise io.UnsupportedOperation('not writable')
        if self.binary:
            if isinstance(s, N.SymArr):
                s = N.tobytes(s)
            elif isinstance(s, (bytearray, memoryview, _rnp.ndarray)):
                s = bytes(s)
            if not (isinstance(s, bytes) or isinstance(s, Seq) and s.kind == 'bytes'):
                raise TypeError("a bytes-like object is required, not 'str'")
            n = s
        else:
            if not (isinstance(s, str) or isinstance(s, Seq) and s.kind == 'str'):
                raise TypeError('write() argument must be str, not %s' % type(s).__name__)
            n = s
            if self.newline not in (None, '', '\n'):
                n = n.replace('\n', self.newline)
            n = n.encode(self.encoding, self.errors)
            if self.bom:
                self.bom = False
                if not self.buf and len(VF.files.get(self.name, b'')) == 0:
                    n = T.join(b'', [b'\xef\xbb\xbf', n])
        if hook_write is not None:
            hook_write(self, s)
        self.buf.append(n)
        return 0

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def flush(self):
        self._chk()
        self._flush()

    def _flush(self):
        if not self.buf:
            return
        data = T.join(b'', self.buf)
        self.buf = []
        fs = VF
        if self.name not in fs.files:
            # the file was unlinked: writes go nowhere visible
            return
        cur = fs.files[self.name]
        if self.append:
            fs.put(self.name, T.join(b'', [cur, data]))
            return
        if self.pos is None and self.end_ver == fs.ver[self.name]:
            fs.put(self.name, T.join(b'', [cur, data]))
            self.end_ver = fs.ver[self.name]
            return
        pos = self._pos()
        n = len(data)
        L = len(cur)
        if pos > L:
            cur = T.join(b'', [cur, b'\0' * (pos - L)])
            L = pos
        fs.put(self.name, T.join(b'', [cur[:pos], data, cur[pos + n:] if pos + n < L else b'']))
        self.pos = pos + n

    def _pos(self):
        if self.pos is None:
            if self.append or self.end_ver == VF.ver.get(self.name):
                return len(VF.files[self.name])
            return self.end_len()
        return self.pos

    def end_len(self):
        raise E.Unsupported('two writers on one file')

    def tell(self):
        self._chk()
        self._flush()
        return self._pos()

    def seek(self, off, whence=0):
        self._chk()
        self._flush()
        off = off.__index__()
        if whence == 0:
            self.pos = off
        elif whence == 1:
            self.pos = self._pos() + off
        else:
            n = len(VF.files[self.name])
            self.pos = n + off
        return self.pos

    def truncate(self, size=None):
        self._chk()
        self._flush()
        if size is None:
            size = self._pos()
        size = size.__index__()
        cur = VF.files[self.name]
        L = len(cur)
        VF.put(self.name, cur[:size] if size <= L else T.join(b'', [cur, b'\0' * (size - L)]))
        if self.pos is None and not self.append:
            self.pos = L
        return size

    # reading
    def _data(self):
        self._chk()
        if not self.can_read:
            raise io.UnsupportedOperation('not readable')
        self._flush()
        return VF.files.get(self.name, b'')

    def _text(self, b):
        if self.binary:
            return b
        if self.bom:
            self.bom = False
            if b[:3] == b'\xef\xbb\xbf':
                b = b[3:]
        t = b.decode(self.encoding, self.errors)
        if self.newline is None:
            if isinstance(t, str):
                t = t.replace('\r\n', '\n').replace('\r', '\n')
            elif any(isinstance(i, str) and '\r' in i for i in t.items):
                t = t.replace('\r\n', '\n').replace('\r', '\n')
        return t

    def read(self, n=-1):
        d = self._data()
        p = self._pos()
        if isinstance(n, Sym):
            n = n.__index__()
        L = len(d)
        if self.binary:
            r = d[p:] if n is None or n < 0 else d[p:p + n]
            self.pos = p + len(r)
            return r
        if n is not None and n >= 0:
            t = self._text(d[p:])
            r = t[:n]
            enc = r.encode(self.encoding)
            self.pos = p + len(enc)
            return r
        self.pos = L
        return self._text(d[p:] if p else d)

    def readline(self, size=-1):
        d = self._data()
        p = self._pos()
        rest = d[p:]
        i = rest.find(b'\n')
        r = rest if i < 0 else rest[:i + 1]
        self.pos = p + len(r)
        return self._text(r)

    def readlines(self, hint=-1):
        out = []
        while True:
            l = self.readline()
            if not l:
                return out
            out.append(l)

    def __iter__(self):
        return self

    def __next__(self):
        l = self.readline()
        if not l:
            raise StopIteration
        return l

    def readable(self):
        return self.can_read

    def writable(self):
        return self.can_write

    def seekable(self):
        return True

    def fileno(self):
        self._chk()
        return FD0

    def detach(self):
        return self

    def readinto(self, buf):
        raise E.Unsupported('readinto')

    def isatty(self):
        return False

    def close(self):
        if not self.closed:
            self.closed = True
            try:
                if hook_write is not None and self.can_write:
                    hook_write(self, None)
            finally:
                self._flush()

    def __del__(self):
        # an abandoned handle is flushed when it is collected
        if not self.closed and self.can_write and self.buf and self.fs is VF:
            try:
                self._flush()
            except BaseException:
                pass

    @property
    def buffer(self):
        if self.binary:
            raise AttributeError('buffer')
        return _Buffer(self)

    def __enter__(self):
        self._chk()
        return self

    def __exit__(self, *a):
        self.close()


FD0 = 10 ** 6                   # descriptors handed out for in-memory files


class SIO(VFile):
    """io.StringIO / io.BytesIO: a private in-memory file."""
    text = False

    def __init__(self, initial=None, newline='\n'):
        fs = VF
        fs.sio = getattr(fs, 'sio', 0) + 1
        name = '\0sio%d' % fs.sio              # not below /vfs/: no path of the code under test
        if initial is None:
            initial = '' if self.text else b''
        if self.text:
            initial = initial.encode('utf-8', 'surrogatepass')
        elif isinstance(initial, (bytearray, memoryview)):
            initial = bytes(initial)
        fs.put(name, initial)
        self.name = name
        self.mode = 'r+' if self.text else 'r+b'
        self.binary = not self.text
        self.encoding = 'utf-8'
        self.errors = 'surrogatepass'
        self.newline = newline
        self.closed = False
        self.append = False
        self.can_read = self.can_write = True
        self.buf = []
        self.pos = 0
        self.fs = fs

    def write(self, s):
        self._chk()
        VFile.write(self, s)
        return len(s) if isinstance(s, (str, bytes)) else 0

    def getvalue(self):
        self._chk()
        self._flush()
        d = VF.files[self.name]
        return d.decode('utf-8', 'surrogatepass') if self.text else d

    def getbuffer(self):
        return self.getvalue()

    def close(self):
        self.closed = True

    def __del__(self):
        pass


class SStringIO(SIO):
    text = True


class SBytesIO(SIO):
    pass


class SByteArr(Seq):
    """bytearray"""
    __slots__ = ()

    def __init__(self, src=b'', *a):
        if isinstance(src, Seq) and src.kind == 'str':
            src = src.encode(*a)
        elif isinstance(src, (list, tuple)) and N.has_sym(src):
            src = _bytes_of(src)
        elif not isinstance(src, Seq):
            src = bytes(bytearray(src, *a))
        Seq.__init__(self, 'bytes', src.items if isinstance(src, Seq) else [src])

    def _set(self, v):
        v = v if isinstance(v, Seq) else Seq('bytes', [v])
        self.items = list(v.items)
        self._off = None

    def _val(self):
        return self.new(self.items)

    def extend(self, v):
        self._set(T.join(b'', [self._val(), v if isinstance(v, Seq) else _bytes_of(v)]))

    def append(self, v):
        self.extend(_bytes_of([v]))

    def __iadd__(self, v):
        self.extend(v)
        return self

    def __add__(self, o):
        return SByteArr(T.join(b'', [self._val(), o]))

    def __setitem__(self, k, v):
        n = len(self)
        if not isinstance(k, slice):
            k = k.__index__()
            k = slice(k, k + 1) if k >= 0 else slice(n + k, n + k + 1)
            v = _bytes_of([v])
        a, b, st = k.indices(n)
        if st != 1:
            raise E.Unsupported('bytearray step')
        cur = self._val()
        self._set(T.join(b'', [cur[:a], v if isinstance(v, Seq) else bytes(v), cur[max(a, b):]]))

    def __delitem__(self, k):
        if not isinstance(k, slice):
            k = k.__index__()
            k = slice(k, k + 1 or None)
        self.__setitem__(k, b'')

    def clear(self):
        self._set(b'')

    def __len__(self):
        return Seq.__len__(self)

    def __deepcopy__(self, memo):
        return SByteArr(self._val())
    __copy__ = lambda self: SByteArr(self._val())
    copy = __copy__


def _bytes_of(v):
    if isinstance(v, (bytes, bytearray, memoryview)):
        return bytes(v)
    out = []
    for x in v:
        out.append(Ch(x.z, 0 if x.lo is None else x.lo, 255 if x.hi is None else x.hi) if isinstance(x, SInt) else bytes([x]))
    s = Seq('bytes', out)
    return s.new(s.items)


class _Buffer:
    """The binary layer of a text file object."""

    def __init__(self, f):
        self.f = f

    def write(self, s):
        f = self.f
        f.binary = True
        try:
            return f.write(s)
        finally:
            f.binary = False

    def read(self, n=-1):
        f = self.f
        f.binary = True
        try:
            return f.read(n)
        finally:
            f.binary = False

    def __getattr__(self, n):
        return getattr(self.f, n)


hook_write = None


def set_hook_write(f):
    global hook_write
    hook_write = f


# ---- types --------------------------------------------------------------------------------------

PYTYPE = {SInt: int, SFloat: float, SBool: bool, SComplex: complex}


def sx_type(x, *a):
    if a:
        return type(x, *a)
    t = type(x)
    if t in PYTYPE:
        return PYTYPE[t]
    if t is Seq:
        return str if x.kind == 'str' else bytes
    if t is N.SymArr:
        return _rnp.ndarray
    if t is VFile:
        return io.BufferedWriter if x.binary else io.TextIOWrapper
    if t in (SStringIO, SBytesIO):
        return io.StringIO if x.text else io.BytesIO
    if t is SByteArr:
        return bytearray
    return t


def sx_isinstance(x, t):
    if isinstance(x, Sym):
        ts = t if isinstance(t, tuple) else (t,)
        pt = sx_type(x)
        for q in ts:
            if isinstance(q, tuple):
                if sx_isinstance(x, q):
                    return True
            elif isinstance(q, types.UnionType):
                if any(sx_isinstance(x, a) for a in q.__args__):
                    return True
            elif issubclass(pt, q):
                return True
        return False
    if isinstance(x, VFile):
        return isinstance(x, t) or (isinstance(t, type) and issubclass(sx_type(x), t))
    return isinstance(x, t)


# ---- builtins -----------------------------------------------------------------------------------

def sx_int(x=0, *base):
    if isinstance(x, Seq):
        if base and concretise(base[0]) != 10:
            return int(x.concrete(), *base)
        return parse_int(x)
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return x.as_int()
    if isinstance(x, SFloat):
        return trunc(x)
    if isinstance(x, SComplex):
        raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'complex'")
    if isinstance(x, N.SymArr):
        if x.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return sx_int(x.view(_rnp.ndarray).reshape(-1)[0])
    return int(x, *base)


def sx_float(x=0.0):
    if isinstance(x, Seq):
        return parse_float(x)
    if isinstance(x, SFloat):
        return x
    if isinstance(x, (SInt, SBool)):
        return SFloat.of_int(x)
    if isinstance(x, SComplex):
        raise TypeError("float() argument must be a string or a real number, not 'complex'")
    if isinstance(x, N.SymArr):
        if x.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return sx_float(x.view(_rnp.ndarray).reshape(-1)[0])
    return float(x)


def sx_complex(re=0, im=0):
    if isinstance(re, Seq) or isinstance(im, Seq):
        return complex(concretise(re), concretise(im)) if im else complex(concretise(re))
    if is_sym(re) or is_sym(im):
        a = re if isinstance(re, (SComplex, complex)) else SComplex(re, 0.0)
        if not is_sym(im) and im == 0:
            return a
        b = im if isinstance(im, (SComplex, complex)) else SComplex(im, 0.0)
        return a + b * 1j
    return complex(re, im) if im else complex(re)


def sx_str(x='', *a):
    if isinstance(x, Seq):
        if x.kind == 'bytes':
            return x.decode(*a) if a else str(x.concrete())
        return x.new(x.items)
    if isinstance(x, Sym):
        s = Seq('str', T.str_of(x))
        return s.new(s.items)
    if N.has_sym(x):
        return str(concretise(x))
    return str(x, *a)


def sx_repr(x):
    if isinstance(x, (SInt, SFloat)):
        return sx_str(x)
    return repr(concretise(x))


def sx_bytes(x=b'', *a):
    if isinstance(x, SByteArr):
        return x.new(x.items)
    if isinstance(x, Seq):
        return x.encode(*a) if x.kind == 'str' else x
    if isinstance(x, (list, tuple)) and N.has_sym(x, 1):
        return _bytes_of(x)
    if isinstance(x, N.SymArr):
        return N.tobytes(x)
    return bytes(concretise(x), *a)


def sx_bool(x=False):
    return bool(x)


def sx_len(x):
    if isinstance(x, Seq):
        return len(x)
    return len(x)


def sx_round(x, n=None):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SFloat) and n is None:
        return round_int(x)
    return round(concretise(x)) if n is None else round(concretise(x), n)


def sx_chr(x):
    if isinstance(x, SInt):
        lo, hi = x.lo, x.hi
        s = Seq('str', [Ch(x.z, 0 if lo is None else lo, 0x10ffff if hi is None else hi)])
        return s
    return chr(x)


def sx_ord(x):
    if isinstance(x, Seq):
        if len(x) != 1:
            raise TypeError('ord() expected a character')
        it = x.fixed().items[0]
        if isinstance(it, Ch):
            return SInt(it.z, it.lo, it.hi)
        return ord(x.concrete())
    return ord(x)


def sx_format(x, spec=''):
    if is_sym(x) or isinstance(spec, Seq):
        if not is_sym(x):
            return format(x, concretise(spec))
        s = Seq('str', T.format_value(x, spec))
        return s.new(s.items)
    return format(x, spec)


def sx_map(f, *its):
    return (call(f, *a) for a in zip(*its))


def sx_filter(f, it):
    if f is None:
        return (x for x in it if x)
    return (x for x in it if call(f, x))


def sx_open(path, mode='r', buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
    if isinstance(path, Seq):
        path = path.concrete()
    if isinstance(path, int) and path in Fds.table:
        path = Fds.table[path]
    if vpath(path):
        return VFile(os.fspath(path), mode, encoding, errors, newline)
    if 'r' in mode and '+' not in mode:
        return open(path, mode, buffering, encoding, errors, newline)
    raise E.Unsupported('write to a real file')


def sx_print(*a, sep=' ', end='\n', file=None, flush=False):
    if isinstance(file, (VFile, _Buffer)):
        file.write(T.join(' ' if sep is None else sep, [sx_str(x) for x in a]) if a else '')
        file.write('\n' if end is None else end)
    elif file is not None and file not in (sys.stdout, sys.stderr) and hasattr(file, 'write'):
        callm(file, 'write', T.join(' ' if sep is None else sep, [sx_str(x) for x in a] or ['']) + (end or ''))
    return None


def sx_nothing(*a, **k):
    return None


class Fds:
    table = {}


def sx_mkstemp(suffix=None, prefix=None, dir=None, text=False):
    VF.tmp = getattr(VF, 'tmp', 0) + 1
    p = '%s%s%d%s' % (PREFIX, concretise(prefix) or 'tmp', VF.tmp, concretise(suffix) or '')
    VF.put(p, b'')
    fd = FD0 + VF.tmp
    Fds.table[fd] = p
    return fd, p


def sx_named_tmp(mode='w+b', buffering=-1, encoding=None, newline=None, suffix=None, prefix=None, dir=None, delete=True, **k):
    fd, p = sx_mkstemp(suffix, prefix, dir)
    f = VFile(p, mode, encoding, None, newline)
    if delete:
        real = f.close

        def close():
            real()
            if p in VF.files:
                VF.remove(p)
        f.close = close
    return f


def sx_fdopen(fd, mode='r', buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
    if fd in Fds.table:
        return VFile(Fds.table[fd], mode, encoding, errors, newline)
    return os.fdopen(fd, mode, buffering, encoding, errors, newline, *a, **k)


def sx_osclose(fd):
    return None if isinstance(fd, int) and fd >= FD0 else os.close(fd)


def sx_fsync(fd):
    if not isinstance(fd, int):
        fd = fd.fileno()
    return None if fd >= FD0 else os.fsync(fd)


def sx_codecs_open(path, mode='r', encoding=None, errors='strict', buffering=-1):
    if encoding is None or 'b' in mode:
        return sx_open(path, mode)
    return sx_open(path, mode, -1, encoding, errors, '\n')


def sx_textwrap(f, encoding=None, errors=None, newline=None, *a, **k):
    if isinstance(f, VFile):
        f._flush()
        f.binary = False
        f.encoding, f.errors, f.newline = encoding or 'utf-8', errors or 'strict', newline
        return f
    return io.TextIOWrapper(f, encoding, errors, newline, *a, **k)


def sx_isdir(p):
    p = concretise(p)
    if isinstance(p, str) and p.rstrip('/') == PREFIX.rstrip('/'):
        return True
    return False if vpath(p) else os.path.isdir(p)


def sx_access(p, mode, **k):
    p = concretise(p)
    return os.fspath(p) in VF.files if vpath(p) else os.access(p, mode, **k)


def sx_listdir(p='.'):
    p = concretise(p)
    if os.fspath(p).rstrip('/') == PREFIX.rstrip('/'):
        return [q[len(PREFIX):] for q in VF.files if q.startswith(PREFIX)]
    return os.listdir(p)


def sx_memoryview(x):
    return x if isinstance(x, (Seq, N.SymArr)) else memoryview(x)


def path_method(p, name, a, k):
    """Methods of a pathlib path below /vfs/."""
    s = os.fspath(p)
    if name in ('exists', 'is_file'):
        return s in VF.files
    if name == 'is_dir':
        return sx_isdir(s)
    if name == 'open':
        return sx_open(s, *a, **k)
    if name in ('read_bytes', 'read_text'):
        with sx_open(s, 'rb') if name == 'read_bytes' else sx_open(s, 'r', -1, *a, **k) as f:
            return f.read()
    if name in ('write_bytes', 'write_text'):
        with sx_open(s, 'wb') if name == 'write_bytes' else sx_open(s, 'w', -1, *a[1:], **k) as f:
            f.write(a[0])
        return None
    if name == 'stat':
        return sx_stat(s)
    if name == 'unlink':
        if k.get('missing_ok') and s not in VF.files:
            return None
        return VF.remove(s)
    if name in ('rename', 'replace'):
        sx_rename(s, a[0])
        return type(p)(a[0])
    if name in ('touch',):
        if s not in VF.files:
            VF.put(s, b'')
        return None
    if name in ('resolve', 'absolute', 'expanduser'):
        return p
    if name in ('iterdir', 'glob', 'rglob', 'mkdir', 'rmdir', 'chmod', 'symlink_to', 'samefile'):
        raise E.Unsupported('Path.' + name)
    return getattr(p, name)(*concretise(list(a)), **concretise(k))


def sx_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def sx_minmax(pick):
    def f(*a, key=None, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not xs:
            if 'default' in k:
                return k['default']
            raise ValueError('arg is an empty sequence')
        if key is None and not any(is_sym(x) for x in xs):
            return (min if pick < 0 else max)(xs)
        kf = (lambda x: call(key, x)) if key else (lambda x: x)
        b, kb = xs[0], kf(xs[0])
        for x in xs[1:]:
            kx = kf(x)
            if bool(kx < kb) if pick < 0 else bool(kx > kb):
                b, kb = x, kx
        return b
    return f


def sx_any(it):
    for x in it:
        if x:
            return True
    return False


def sx_all(it):
    for x in it:
        if not x:
            return False
    return True


def sx_sorted(it, key=None, reverse=False):
    xs = list(it)
    if not N.has_sym(xs) and key is None:
        return sorted(xs, reverse=reverse)
    kf = (lambda x: call(key, x)) if key else (lambda x: x)

    def cmp(a, b):
        ka, kb = kf(a), kf(b)
        return -1 if bool(ka < kb) else 1 if bool(kb < ka) else 0
    return sorted(xs, key=functools.cmp_to_key(cmp), reverse=reverse)


def sx_divmod(a, b):
    return a // b, a % b


def sx_pow(a, b, *m):
    return a ** b if not m else pow(concretise(a), concretise(b), *m)


def sx_abs(x):
    return abs(x)


def sx_exists(p):
    if vpath(p):
        return concretise(p) in VF.files
    return os.path.exists(concretise(p))


def sx_getsize(p):
    p = concretise(p)
    if vpath(p):
        if p not in VF.files:
            raise FileNotFoundError(2, 'No such file or directory: %r' % p)
        return len(VF.files[p])
    return os.path.getsize(p)


def sx_remove(p):
    p = concretise(p)
    if vpath(p):
        return VF.remove(p)
    raise E.Unsupported('remove of a real file')


def sx_rename(a, b):
    a, b = concretise(a), concretise(b)
    if vpath(a) and vpath(b):
        c = VF.files.get(a)
        if c is None:
            raise FileNotFoundError(2, 'No such file or directory: %r' % a)
        VF.remove(a)
        VF.put(b, c)
        return None
    raise E.Unsupported('rename of a real file')


def sx_truncate(p, n):
    p = concretise(p)
    if vpath(p):
        with VFile(p, 'r+b') as f:
            f.truncate(n)
        return None
    raise E.Unsupported('truncate of a real file')


class _Stat:
    def __init__(self, p):
        self.st_size = sx_getsize(p)
        self.st_mtime = self.st_ctime = self.st_atime = float(VF.time.get(p, 0))
        self.st_mtime_ns = VF.time.get(p, 0) * 10 ** 9
        self.st_ino = 1
        self.st_mode = 0o100644


def sx_stat(p, *a, **k):
    if vpath(p):
        return _Stat(concretise(p))
    return os.stat(concretise(p))


def sx_getmtime(p):
    return sx_stat(p).st_mtime


def sx_copyfile(a, b, *x, **k):
    a, b = concretise(a), concretise(b)
    if vpath(a) and vpath(b):
        if a not in VF.files:
            raise FileNotFoundError(2, 'No such file or directory: %r' % a)
        VF.put(b, VF.files[a])
        return b
    raise E.Unsupported('copy of real files')


def sx_getattr(o, name, *d):
    return getattr(o, concretise(name), *d)


def mathf(name):
    g = getattr(math, name)

    def f(x, *a):
        if isinstance(x, SInt) and name in ('floor', 'ceil', 'trunc'):
            return x
        if isinstance(x, SFloat):
            if name == 'floor':
                return x.__floor__()
            if name == 'ceil':
                return x.__ceil__()
            if name == 'trunc':
                return trunc(x)
            if name == 'isfinite':
                return True
            if name in ('isnan', 'isinf'):
                return False
            if name == 'fabs':
                return abs(x)
        return g(*concretise([x] + list(a)))
    return f


def np_scalar(t):
    dt = _rnp.dtype(t)

    def f(x=0, *a, **k):
        if is_sym(x):
            return N.conv1(x, dt)
        if isinstance(x, N.SymArr) or N.has_sym(x):
            return N.asarray(x, dt)
        return t(x, *a, **k)
    return f


class SStruct:
    def __init__(self, fmt):
        self.format = fmt
        self.size = struct.calcsize(fmt)

    def pack(self, *v):
        return sx_pack(self.format, *v)

    def unpack(self, d):
        return sx_unpack(self.format, d)


def sx_pack(fmt, *v):
    if any(is_sym(x) for x in v) or is_sym(fmt):
        return T.s_pack(fmt, *[N.conv1(x, _rnp.dtype(float)) if False else x for x in v])
    return struct.pack(fmt, *v)


def sx_unpack(fmt, d):
    if isinstance(d, Seq) or is_sym(fmt):
        return T.s_unpack(fmt, d)
    return struct.unpack(fmt, d)


def sx_unpack_from(fmt, d, offset=0):
    if isinstance(d, Seq):
        n = struct.calcsize(fmt)
        return T.s_unpack(fmt, d[offset:offset + n])
    return struct.unpack_from(fmt, d, offset)


def sx_iter_unpack(fmt, d):
    if isinstance(d, Seq):
        n = struct.calcsize(fmt)
        return iter([T.s_unpack(fmt, d[i:i + n]) for i in range(0, len(d), n)])
    return struct.iter_unpack(fmt, d)


def sx_strftime(fmt, *a):
    return time.strftime(fmt, time.gmtime(0))


def sx_hasattr(o, name):
    return hasattr(o, concretise(name))


def sx_deepcopy(x, *a):
    import copy
    return copy.deepcopy(x)


def sx_list(*a):
    return list(*a)


SPECIAL = {}


def _reg(f, g):
    SPECIAL[f] = g


for f, g in [(int, sx_int), (float, sx_float), (complex, sx_complex), (str, sx_str), (bytes, sx_bytes), (bool, sx_bool),
             (repr, sx_repr), (type, sx_type), (isinstance, sx_isinstance), (len, sx_len), (round, sx_round),
             (chr, sx_chr), (ord, sx_ord), (format, sx_format), (map, sx_map), (filter, sx_filter), (open, sx_open),
             (io.open, sx_open), (print, sx_print), (sum, sx_sum), (min, sx_minmax(-1)), (max, sx_minmax(1)),
             (any, sx_any), (all, sx_all), (sorted, sx_sorted), (divmod, sx_divmod), (pow, sx_pow), (abs, sx_abs),
             (os.path.exists, sx_exists), (os.path.isfile, sx_exists), (os.path.lexists, sx_exists),
             (os.path.getsize, sx_getsize), (os.path.getmtime, sx_getmtime), (os.remove, sx_remove), (os.unlink, sx_remove), (os.rename, sx_rename),
             (os.replace, sx_rename), (os.truncate, sx_truncate), (os.stat, sx_stat),
             (struct.pack, sx_pack), (struct.unpack, sx_unpack), (struct.Struct, SStruct),
             (struct.unpack_from, sx_unpack_from), (struct.iter_unpack, sx_iter_unpack),
             (time.strftime, sx_strftime), (getattr, sx_getattr), (hasattr, sx_hasattr)]:
    _reg(f, g)
from . import rex  # noqa: E402
for f, g in rex.FUNCS:
    _reg(f, g)
import codecs  # noqa: E402
import logging  # noqa: E402
import pathlib  # noqa: E402
import shutil  # noqa: E402
import tempfile  # noqa: E402
import unicodedata  # noqa: E402
import warnings  # noqa: E402
for f, g in [(io.StringIO, SStringIO), (io.BytesIO, SBytesIO), (bytearray, SByteArr), (memoryview, sx_memoryview),
             (codecs.open, sx_codecs_open), (io.TextIOWrapper, sx_textwrap), (tempfile.mkstemp, sx_mkstemp),
             (tempfile.NamedTemporaryFile, sx_named_tmp), (os.fdopen, sx_fdopen), (os.close, sx_osclose), (os.fsync, sx_fsync),
             (os.path.isdir, sx_isdir), (os.access, sx_access), (os.listdir, sx_listdir), (warnings.warn, sx_nothing), (unicodedata.normalize, T.normalize)]:
    _reg(f, g)
for f in (shutil.copyfile, shutil.copy, shutil.copy2):
    _reg(f, sx_copyfile)
_reg(shutil.move, sx_rename)
for n in ('floor', 'ceil', 'trunc', 'isfinite', 'isnan', 'isinf', 'fabs', 'sqrt', 'log10', 'log', 'fsum', 'pow', 'hypot',
          'log2', 'exp', 'copysign', 'isclose'):
    _reg(getattr(math, n), mathf(n))
for t in (_rnp.float64, _rnp.float32, _rnp.int64, _rnp.int32, _rnp.complex128, _rnp.complex64, _rnp.intp, _rnp.uint8,
          _rnp.bool_, _rnp.int16):
    _reg(t, np_scalar(t))

DIRECT = {zip, enumerate, list, tuple, dict, set, frozenset, reversed, iter, next, range, setattr, delattr, id,
          callable, vars, dir, slice, hash, object, property, staticmethod, classmethod, issubclass, super,
          Exception, ValueError, KeyError, TypeError, IndexError, RuntimeError, OSError, IOError, UnicodeDecodeError,
          NotImplementedError, AttributeError}
DIRECT_MODULES = {'itertools', 'functools', 'operator', 'copy', 'collections', '_operator', '_collections', '_functools',
                  'contextlib', 'warnings', '_warnings', 'types', 'typing', 'dataclasses', 'enum', 'abc'}


def _direct(f):
    try:
        if f in DIRECT:
            return True
    except TypeError:
        return True
    if isinstance(f, types.MethodType):
        s = f.__self__
        if isinstance(s, type) and s.__module__ == 'builtins':
            return s not in (str, bytes, int, float)
        return True
    if isinstance(f, types.FunctionType):
        m = f.__module__ or ''
        return m.split('.')[0] in ('pyuff', 'symx', 'checks') or m in DIRECT_MODULES or getattr(f, '_sx_direct', False) \
            or '_sx' in f.__globals__
    if isinstance(f, types.BuiltinMethodType):
        s = f.__self__
        if isinstance(s, types.ModuleType):
            return s.__name__ in DIRECT_MODULES
        if isinstance(s, (list, dict, set, tuple, _rnp.ndarray, types.GeneratorType)):
            return True
        return False
    if isinstance(f, type):
        m = f.__module__
        return m.split('.')[0] in ('pyuff', 'symx') or m in DIRECT_MODULES or issubclass(f, BaseException)
    if isinstance(f, (N._Generic, functools.partial, operator.itemgetter, operator.attrgetter)):
        return True
    if isinstance(f, _rnp.ufunc):
        return True
    return callable(f) and type(f).__module__.split('.')[0] in ('symx', 'pyuff', 'functools')


ENC = set()         # code objects of the package's functions executed


def call(f, *a, **k):
    try:
        g = SPECIAL.get(f)
    except TypeError:
        g = None
    if g is not None:
        return g(*a, **k)
    if isinstance(f, types.MethodDescriptorType) and a:
        o = f.__objclass__
        if o in (str, bytes) and (isinstance(a[0], Seq) or N.has_sym(a)):
            return callm(a[0], f.__name__, *a[1:], **k)
    if isinstance(f, types.FunctionType) and '_sx' in f.__globals__:
        ENC.add(f.__code__)
        return f(*a, **k)
    if isinstance(f, types.MethodType) and isinstance(f.__func__, types.FunctionType) and '_sx' in f.__func__.__globals__:
        ENC.add(f.__func__.__code__)
        return f(*a, **k)
    if not N.has_sym(a, 3) and not (k and N.has_sym(k, 3)):
        return f(*a, **k)
    if _direct(f):
        return f(*a, **k)
    s = getattr(f, '__self__', None)
    if isinstance(s, (str, bytes)) and not isinstance(s, type):
        return callm(s, f.__name__, *a, **k)
    e = E.eng()
    e.flag('call of %s on concrete values' % getattr(f, '__qualname__', f))
    return f(*concretise(list(a)), **concretise(dict(k)))


def callm(o, name, *a, **k):
    if isinstance(o, (str, bytes)):
        if N.has_sym(a, 3) or k and N.has_sym(k, 2):
            if name == 'format':
                return T.str_format(o, a, k)
            if name == 'join':
                return T.join(o, list(a[0]))
            if name == 'format_map':
                return T.str_format(o, (), a[0])
            if name in ('encode', 'decode'):
                return getattr(o, name)(*concretise(list(a)), **concretise(k))
            if name in ('startswith', 'endswith', 'find', 'index', 'count', 'replace', 'split', 'ljust', 'rjust', 'strip',
                        'lstrip', 'rstrip', 'rfind', 'rindex', 'center', 'removeprefix', 'removesuffix', 'partition', 'rpartition',
                        'rsplit', 'zfill'):
                return getattr(Seq('str' if isinstance(o, str) else 'bytes', [o]), name)(*a, **k)
            return getattr(o, name)(*concretise(list(a)), **concretise(k))
        if name == 'join':
            x = list(a[0])
            if any(isinstance(i, Sym) for i in x):
                return T.join(o, x)
            return o.join(x)
        return getattr(o, name)(*a, **k)
    if isinstance(o, (list, dict, set, tuple)):
        if name == 'sort':
            o[:] = sx_sorted(o, **k)
            return None
        if name in ('index', 'count') and N.has_sym(a, 1):
            pass
        return getattr(o, name)(*a, **k)
    if isinstance(o, pathlib.PurePath) and vpath(o):
        return path_method(o, name, a, k)
    if isinstance(o, (logging.Logger, io.TextIOBase)) and N.has_sym(a, 3):
        if isinstance(o, logging.Logger) or o in (sys.stdout, sys.stderr):
            return None
    if isinstance(o, N.NP) and not isinstance(o, type):
        return call(getattr(o, name), *a, **k)
    if isinstance(o, _rnp.ndarray) and not isinstance(o, N.SymArr) and N.has_sym(a, 2):
        return getattr(N.wrap(N._boxed(o), o.dtype), name)(*a, **k)
    return call(getattr(o, name), *a, **k)


def mod(a, b):
    """a % b"""
    if isinstance(a, (str, bytes)):
        if isinstance(b, tuple):
            if any(isinstance(x, (Sym, N.SymArr)) for x in b):
                return T.percent(a, b)
        elif isinstance(b, (Sym, N.SymArr)) or isinstance(b, dict) and N.has_sym(b, 1):
            return T.percent(a, b)
        return a % b
    if isinstance(a, Seq):
        return T.percent(a, b)
    return a % b


def imod(a, b):
    if isinstance(a, (str, bytes, Seq)):
        return mod(a, b)
    a %= b
    return a


def fstr(*parts):
    return T.join('', parts)


def fmtval(v, conv, spec):
    if conv == 115:
        v = sx_str(v)
    elif conv == 114:
        v = sx_repr(v)
    elif conv == 97:
        v = ascii(concretise(v))
    return sx_format(v, spec)


def contains(x, c, neg=False):
    r = _contains(x, c)
    if neg:
        return ~r if isinstance(r, SBool) else not r
    return r


def _contains(x, c):
    if isinstance(c, Seq) or isinstance(x, Seq) and isinstance(c, (str, bytes)):
        return bool(T.contains(x, c))
    if isinstance(c, (list, tuple, range)) or isinstance(c, (set, frozenset)) and isinstance(x, Sym) \
            or isinstance(c, (dict,)) and isinstance(x, Sym) or type(c).__name__ in ('dict_keys',) and isinstance(x, Sym):
        if isinstance(x, Sym) or N.has_sym(list(c), 1):
            alts = []
            for y in c:
                if isinstance(y, Sym) or isinstance(x, Sym) or True:
                    r = x is y or x == y
                    if isinstance(r, _rnp.ndarray):
                        r = bool(r)
                    if r is True or r is _rnp.True_:
                        return True
                    if isinstance(r, SBool):
                        alts.append(r.z)
            return mkbool(z3.Or(*alts)) if alts else False
        return x in c
    if isinstance(c, N.SymArr) or isinstance(c, _rnp.ndarray) and isinstance(x, Sym):
        return (N.asarray(c) == x).any() if isinstance(c, N.SymArr) else _contains(x, c.tolist())
    return x in c

"""Symbolic execution of harnesses: the symbolic `cx`, path exploration, counterexample extraction and replay."""
import json
import math
import os
import random
import struct
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction
import numpy as _np
import z3
from . import engine as E, runtime as R, npshim as N, text as T
from .cxbase import Cx, tol
from .values import (Sym, SBool, SInt, SFloat, SComplex, mkbool, zb, is_sym, parts, real_of, _is_int, _is_float)
from .text import Seq, Ch

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ALPHA = {                # name: (lo, hi, blanks inside allowed)
    'ascii': (33, 126, True),
    'nonws': (33, 126, False),
    'latin': (0xC0, 0x17F, False),
    'cjk': (0x4E00, 0x9FFF, False),
    'greek': (0x3B1, 0x3C9, False),
    'cyrillic': (0x410, 0x44F, False),
    'arabic': (0x620, 0x64A, False),
    'hangul': (0xAC00, 0xD7A3, False),
    'han2': (0x20000, 0x2A6DF, False),
    'emoji': (0x1F300, 0x1FAFF, False),
    'digits': (48, 57, False),
    'upper': (65, 90, False),
}


class Stop(E.Control):
    pass


class SymCx(Cx):
    symbolic = True

    def __init__(self, e, pyuff, params):
        self.e = e
        self.pyuff = pyuff
        self.np = R.np
        self.params = params

    # ---- inputs
    def _new(self, name, d):
        assert name not in self.e.inputs, 'input %s declared twice' % name
        self.e.inputs[name] = d

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        z = z3.Int(name)
        self._new(name, ('int', z, lo, hi))
        self.e.add(z3.And(z >= lo, z <= hi))
        return SInt(z, lo, hi)

    def real(self, name, lo=None, hi=None, small=True, nonneg=False, single=False):
        z = z3.Real(name)
        self._new(name, ('real', z, lo, hi, nonneg, small, single))
        self.e.reals[name] = z
        if lo is not None or hi is not None:
            c = []
            if lo is not None:
                c.append(z >= real_of(lo))
            if hi is not None:
                c.append(z <= real_of(hi))
            if nonneg:
                c.append(z >= 0)
            self.e.add(z3.And(*c))
            nonneg = nonneg or lo is not None and lo >= 0
            # within +-9e98; tiny values are excluded for small
            if small and not (lo is not None and lo >= 1e-98):
                L = z3.RealVal(str(Fraction(1e-98)))
                self.e.add(z3.Or(z == 0, z >= L) if nonneg else z3.Or(z == 0, z >= L, z <= -L))
        else:
            L, H = (Fraction(1e-98), Fraction(9e98)) if small else (Fraction(sys.float_info.min), Fraction(sys.float_info.max))
            L, H = z3.RealVal(str(L)), z3.RealVal(str(H))
            alts = [z == 0, z3.And(z >= L, z <= H)]
            if not nonneg:
                alts.append(z3.And(z <= -L, z >= -H))
            self.e.add(z3.Or(*alts))
        return SFloat(z, small=small, nonneg=nonneg, single=single)

    def single(self, name):
        return self.real(name, lo=-1e30, hi=1e30, single=True)

    def text(self, name, n, alpha='ascii'):
        lo, hi, blanks = ALPHA[alpha]
        zs = [z3.Int('%s.%d' % (name, i)) for i in range(n)]
        self._new(name, ('text', zs, lo, hi))
        items = []
        for i, z in enumerate(zs):
            l = 32 if blanks and 0 < i < n - 1 else lo
            self.e.add(z3.And(z >= l, z <= hi, z != 45) if l <= 45 <= hi else z3.And(z >= l, z <= hi))
            items.append(Ch(z, l, hi, frozenset([45])))
        s = Seq('str', items)
        return s.new(s.items)

    def bytestr(self, name, n, alphabet):
        zs = [z3.Int('%s.%d' % (name, i)) for i in range(n)]
        alphabet = sorted(alphabet)
        self._new(name, ('bytes', zs, alphabet))
        lo, hi = alphabet[0], alphabet[-1]
        ex = frozenset(range(lo, hi + 1)) - frozenset(alphabet)
        for z in zs:
            self.e.add(z3.Or(*[z == a for a in alphabet]) if ex else z3.And(z >= lo, z <= hi))
        s = Seq('bytes', [Ch(z, lo, hi, ex) for z in zs])
        return s.new(s.items)

    def choice(self, name, options):
        options = list(options)
        k = self.e.choose(len(options), name)
        self._new(name, ('const', k))
        return options[k]

    def bool(self, name):
        return self.choice(name, [False, True])

    # ---- logic
    def assume(self, c):
        self.e.assume(c.z if isinstance(c, SBool) else bool(c))

    def all(self, cs):
        zs = []
        for c in cs:
            if isinstance(c, SBool):
                zs.append(c.z)
            elif not c:
                return False
        return mkbool(z3.And(*zs)) if zs else True

    def any(self, cs):
        zs = []
        for c in cs:
            if isinstance(c, SBool):
                zs.append(c.z)
            elif c:
                return True
        return mkbool(z3.Or(*zs)) if zs else False

    def no(self, c):
        return ~c if isinstance(c, SBool) else not c

    def known_finding(self, kid, cond):
        if bool(cond):
            self.e.known.append(kid)

    def check(self, cond, label):
        if isinstance(cond, SBool):
            z = z3.simplify(cond.z)
            if z3.is_true(z):
                cond = True
            elif z3.is_false(z):
                cond = False
            else:
                self.e.checks.append((z, label))
                return
        elif isinstance(cond, _np.ndarray):
            cond = bool(cond)
        self.e.checks.append((z3.BoolVal(bool(cond)), label))

    def stop(self):
        self.e.dead = Stop()
        raise self.e.dead

    def eq1(self, g, w):
        if isinstance(w, (str, bytes, Seq)) or isinstance(g, (str, bytes, Seq)):
            kg = R.sx_type(g)
            kw = R.sx_type(w)
            if kg not in (str, bytes) or kg is not kw:
                return False
            return g == w
        if g is None or w is None:
            return g is w
        r = g == w
        return r if isinstance(r, (bool, SBool)) else bool(r)

    def close1(self, g, w, p):
        try:
            a, b = parts(g), parts(w)
        except Exception:
            return False
        if a is None or b is None:
            return False
        return self.all([self._c1(x, y, tol(p)) for x, y in zip(a, b)])

    def near1(self, g, w, rel):
        a, b = parts(g), parts(w)
        return self.all([self._c1(x, y, Fraction(rel)) for x, y in zip(a, b)])

    def _c1(self, x, y, t):
        if not is_sym(x) and not is_sym(y):
            x, y = float(x), float(y)
            if not (math.isfinite(x) and math.isfinite(y)):
                return x == y
            if t is None:
                return x == y
            return abs(Fraction(x) - Fraction(y)) <= (t + Fraction(1, 2 ** 52)) * abs(Fraction(y))
        for v in (x, y):
            if not is_sym(v) and not math.isfinite(float(v)):
                return False
        zx, zy = real_of(x), real_of(y)
        if zx.eq(zy):
            return True
        if t is None:
            return mkbool(zx == zy)
        c = z3.RealVal(str(t))
        return mkbool(z3.If(zy >= 0, z3.And(zx - zy <= c * zy, zy - zx <= c * zy),
                            z3.And(zx - zy <= -c * zy, zy - zx <= -c * zy)))

    # ---- environment
    def path(self, name):
        return R.PREFIX + name

    def write_file(self, name, data, same_time=False):
        if isinstance(data, str) or isinstance(data, Seq) and data.kind == 'str':
            data = data.encode('utf-8')
        R.VF.put(self.path(name), data, same_time)

    def read_file(self, name):
        if self.path(name) not in R.VF.files:
            raise FileNotFoundError(2, 'No such file or directory: %r' % self.path(name))
        return R.VF.files[self.path(name)]

    def exists(self, name):
        return self.path(name) in R.VF.files

    def remove(self, name):
        R.VF.remove(self.path(name))

    def array(self, x, dtype=None):
        return N.array(x, dtype)

    def cplx(self, re, im):
        return SComplex(re, im)

    def raises(self, f, *a, **k):
        try:
            R.call(f, *a, **k)
        except Exception as x:
            return x
        return None

    def fmt(self, f, *a):
        return R.mod(f, a)

    def pack(self, f, *a):
        return R.sx_pack(f, *a)

    def unpack(self, f, b):
        return list(R.sx_unpack(f, b))

    def cat(self, ps):
        return T.join(ps[0][:0] if isinstance(ps[0], (str, bytes)) else ps[0].lit, ps)

    def fault_writes(self, k):
        return _Fault(k)

    def now(self, fmt):
        """The current time; the symbolic clock stands still."""
        return R.sx_strftime(fmt)

    def int_of(self, s):
        return R.sx_int(s)

    def float_of(self, s):
        return R.sx_float(s)

    def payload_markers(self):
        """Searches for several bytes in binary numbers are decided, not assumed to fail."""
        self.e.memo['payload_markers'] = True

    def is_array(self, x):
        return isinstance(x, (N.SymArr, _np.ndarray))

    def type_name(self, x):
        return R.sx_type(x).__name__

    def length(self, b):
        return len(b)


class _Fault:
    def __init__(self, k):
        self.k = k

    def __enter__(self):
        st = {'n': 0}

        def hook(f, s):
            st['n'] += 1
            if st['n'] == self.k + 1:
                raise OSError(28, 'No space left on device')
        R.set_hook_write(hook)
        return st

    def __exit__(self, *a):
        R.set_hook_write(None)
        return False


# ---- replay -------------------------------------------------------------------------------------

class Replayer:
    def __init__(self, repo):
        self.repo = repo
        self.p = None
        self.n = 0

    def start(self):
        env = dict(os.environ)
        self.cache = tempfile.mkdtemp(prefix='pyuffpyc')
        env.update(VERIF_REPO=self.repo, PYTHONPYCACHEPREFIX=self.cache, PYTHONDONTWRITEBYTECODE='1',
                   OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
        py = '/opt/venv/bin/python'
        if not os.path.exists(py):
            py = sys.executable
        self.p = subprocess.Popen([py, '-B', os.path.join(VERIF, 'symx', 'replay_worker.py')], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd='/tmp')

    def __call__(self, module, fn, params, inputs):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.n += 1
        try:
            self.p.stdin.write(json.dumps({'module': module, 'fn': fn, 'params': params, 'inputs': inputs}) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            return json.loads(line)
        except Exception as x:
            try:
                self.p.kill()
            except Exception:
                pass
            self.p = None
            return {'ok': True, 'failures': [], 'dead': str(x), 'exc': None, 'known': [], 'skip': 'replay worker ended',
                    'n_checks': 0, 'log': []}

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(10)
            except Exception:
                self.p.kill()
            import shutil
            shutil.rmtree(self.cache, ignore_errors=True)


# ---- counterexamples ----------------------------------------------------------------------------

def suggestions(e, seed, how='suggest'):
    """Preferred values for the inputs of a path: distinct, ordinary."""
    sg = {}
    rv = {}
    for name, d in e.inputs.items():
        r = random.Random('%s/%s' % (seed, name))
        if d[0] == 'int':
            _, z, lo, hi = d
            top = min(hi, 10 ** r.randint(1, 9))
            bot = max(lo, -top if lo < 0 and r.random() < 0.3 else lo if lo > 0 else 0, -10 ** 9)
            v = r.randint(min(bot, top), max(bot, top))
            sg[name] = (z, z3.IntVal(max(lo, min(hi, v))))
        elif d[0] == 'real':
            _, z, lo, hi, nonneg = d[:5]
            v = r.uniform(1, 10)  # every digit in use
            if how == 'digits':
                pass
            elif seed % 2 == 0:
                v = round(v, 3)
            else:
                v = r.randint(1000, 9999) / 1024.0
            if not nonneg and r.random() < 0.4:
                v = -v
            if lo is not None and v < lo or hi is not None and v > hi:
                v = (max(lo, -1e6) if lo is not None else 0.0) + 1.0
            if seed % 3 == 2:
                v = v * 2.0 ** r.randint(-40, 40)
            f = Fraction(v)
            sg[name] = (z, z3.RealVal(str(f)))
            rv[name] = f
        elif d[0] == 'text':
            _, zs, lo, hi = d
            for i, z in enumerate(zs):
                a, b = (97, 122) if lo <= 97 and hi >= 122 else (lo, hi)
                sg['%s.%d' % (name, i)] = (z, z3.IntVal(r.randint(a, b)))
        elif d[0] == 'bytes' and seed:
            _, zs, al = d
            for i, z in enumerate(zs):
                sg['%s.%d' % (name, i)] = (z, z3.IntVal(r.choice(al)))
    # the decimal or binary rounding of the suggested values
    subs = [(e.reals[n], z3.RealVal(str(f))) for n, f in rv.items()]
    for r, f, p in e.rnds:
        x = z3.simplify(z3.substitute(r, *subs)) if subs else z3.simplify(r)
        if z3.is_rational_value(x):
            try:
                v = float(x.as_fraction())
                y = Fraction(float(_np.float32(v))) if p == 's' else Fraction('%.*e' % (p, v))
            except (OverflowError, ValueError):
                continue
            sg[f.decl().name()] = (f, z3.RealVal(str(y)))
            subs.append((f, z3.RealVal(str(y))))
    return sg


def decades(e):
    """Hard constraints that make the roundings of a model the real ones: values within one decade."""
    out = []
    for r, f, p in e.rnds:
        if p == 's':
            continue
        k = z3.Int('dec!%s' % f.decl().name())
        h = z3.RealVal(str(Fraction(1, 2 * 10 ** p)))
        out.append(z3.And(f * (10 ** p) == z3.ToReal(k), r - f <= h, f - r <= h,
                          z3.Or(z3.And(r >= 1, r < 9), z3.And(r <= -1, r > -9))))
    return out


def declared(d, v):
    """Whether v is a value the input was declared to take."""
    _, z, lo, hi, nonneg, small, single = d
    if not math.isfinite(v) or lo is not None and v < lo or hi is not None and v > hi or nonneg and v < 0:
        return False
    if v and not ((1e-98 if small else sys.float_info.min) <= abs(v) <= (9e98 if small else sys.float_info.max)):
        return False
    return not single or abs(v) <= 1e38 and float(_np.float32(v)) == v


def inputs_of(e, m, sg):
    """Concrete inputs from a model (completed with the suggested values)."""
    def val(name, z, default):
        v = m.get(name)
        if v is None:
            s = sg.get(name)
            v = s[1] if s is not None else default
        return v
    out = {}
    for name, d in e.inputs.items():
        if d[0] == 'const':
            out[name] = d[1]
        elif d[0] == 'int':
            out[name] = val(name, d[1], z3.IntVal(d[2])).as_long()
        elif d[0] == 'real':
            v = val(name, d[1], z3.RealVal(0))
            fr = v.as_fraction() if hasattr(v, 'as_fraction') else Fraction(str(v.approx(20).as_fraction()))
            out[name] = float(fr).hex()
        elif d[0] in ('text', 'bytes'):
            dflt = d[2] if d[0] == 'text' else d[2][0]
            out[name] = [val('%s.%d' % (name, i), z, z3.IntVal(dflt)).as_long() for i, z in enumerate(d[1])]
    # payload bytes chosen by the model override the number they encode
    back = {f.decl().name(): r for r, f, p in e.rnds if p == 's'}
    for d in e.dbls:
        if d.bz is None or not isinstance(d.v, SFloat):
            continue
        z = d.v.z
        nm = z.decl().name() if z3.is_const(z) else None
        if nm in back and z3.is_const(back[nm]):
            nm = back[nm].decl().name()
        if nm not in e.reals:
            continue
        got = [m.get(b.decl().name()) for b in d.bz]
        if all(g is None for g in got):
            continue
        cur = struct.pack(d.en + ('d' if d.size == 8 else 'f'), float.fromhex(out[nm]))
        bs = bytes(g.as_long() if g is not None else cur[i] for i, g in enumerate(got))
        v = struct.unpack(d.en + ('d' if d.size == 8 else 'f'), bs)[0]
        if declared(e.inputs[nm], v):
            out[nm] = float(v).hex()
    return out


def find_model(e, extra, seed, how):
    """Inputs for the path and extra, or None."""
    sg = suggestions(e, seed, how)
    hard = decades(e) if how == 'decade' else ()
    use = sg if how in ('suggest', 'digits', 'decade') else {}
    if how == 'decade':
        use = {k: v for k, v in sg.items() if not k.startswith('rnd') and k not in e.reals}
    m = e.model(extra, use, hard)
    if m is None or m == 'unknown':
        return None
    return inputs_of(e, m, sg)


# ---- exploration --------------------------------------------------------------------------------

def explore(mod, fname, params, replay, seed=1, max_paths=400, seconds=60.0, known=(), max_viol=2, witness=True):
    """All paths of one harness instance (within the budget)."""
    from . import instrument
    pyuff = instrument.load()
    snap = instrument.snapshot()
    fn = getattr(mod, fname)
    module = mod.__name__
    stats = E.Stats()
    e = E.Engine(stats)
    E.set_engine(e)
    t0 = time.time()
    stack = [[]]
    res = {'fn': fname, 'params': params, 'paths': 0, 'infeasible': 0, 'checks': 0, 'static_checks': 0, 'inconclusive': [],
           'violations': [], 'known': [], 'witnesses': 0, 'unwitnessed': 0, 'incomplete': None, 'spurious': [],
           'narrowed': 0, 'samples': [], 'nonmarker': 0}
    while stack:
        if res['paths'] + res['infeasible'] >= max_paths:
            res['incomplete'] = 'path limit %d' % max_paths
            break
        if time.time() - t0 > seconds:
            res['incomplete'] = 'time limit %.0fs' % seconds
            break
        prefix = stack.pop()
        e.begin(prefix)
        R.reset_fs()
        snap.restore()
        R.set_hook_write(None)
        N.build  # noqa
        cx = SymCx(e, pyuff, params)
        status = 'ok'
        tb = None
        try:
            fn(cx, **params)
        except Stop:
            pass
        except E.Infeasible:
            status = 'infeasible'
        except (E.Budget, E.Unsupported) as x:
            status = '%s: %s' % (type(x).__name__, x)
        except Exception as x:
            tb = traceback.format_exc()
            if os.environ.get('SYMX_DEBUG'):
                print(tb)
                y = x.__context__
                while y is not None:
                    traceback.print_exception(y)
                    y = y.__context__
            cx.check(False, 'unexpected exception: %s: %s' % (type(x).__name__, x))
        except RecursionError as x:
            status = 'RecursionError'
        e.dead = None
        stack.extend(e.pending)
        if status == 'infeasible':
            res['infeasible'] += 1
            continue
        res['paths'] += 1
        stats.paths += 1
        if e.concrete_flags:
            res['narrowed'] += 1
        res['nonmarker'] += len(e.nonmarker)
        if status != 'ok':
            res['inconclusive'].append(status)
        # the assertions
        failing, seen = [], set()
        for z, label in e.checks:
            res['checks'] += 1
            if z3.is_true(z):
                res['static_checks'] += 1
                continue
            if z3.is_false(z):
                failing.append((None, label))
                continue
            r = e.sat(z3.simplify(z3.Not(z)))
            if r == 'sat':
                failing.append((z3.Not(z), label))
            elif r == 'unknown':
                res['inconclusive'].append('solver gave no answer on: %s' % label)
        found = False
        for extra, label in failing:
            if label in seen or len(seen) >= 4:
                continue
            seen.add(label)
            hit = None
            tried = set()
            for how, sd in (('suggest', seed), ('suggest', seed + 1), ('digits', seed), ('decade', seed), ('suggest', seed + 4), ('plain', seed),
                            ('suggest', seed + 2)):
                inp = find_model(e, [extra] if extra is not None else [], sd, how)
                if inp is None:
                    if how == 'plain':
                        break
                    continue
                key = json.dumps(inp, sort_keys=True)
                if key in tried:
                    continue
                tried.add(key)
                r = replay(module, fname, params, inp)
                if os.environ.get('SYMX_DEBUG'):
                    print(how, sd, label, inp, r)
                if r['skip']:
                    tried.discard(key)
                if r['failures']:
                    hit = (inp, r)
                    break
            if hit is None:
                if not tried:
                    res['inconclusive'].append('no model for a failing assertion: %s' % label)
                else:
                    res['spurious'].append(label)
                continue
            found = True
            kn = [k for k in hit[1]['known'] if k in known]
            rec = {'label': label, 'inputs': hit[0], 'observed': hit[1]['failures'], 'log': hit[1]['log'], 'module': module,
                   'fn': fname, 'params': params}
            if kn:
                rec['known'] = kn
                res['known'].append(rec)
            else:
                res['violations'].append(rec)
        if witness and not found:
            inp = find_model(e, [], seed, 'suggest')
            if inp is None:
                res['unwitnessed'] += 1
            else:
                r = replay(module, fname, params, inp)
                if r['failures']:
                    rec = {'label': 'witness: ' + r['failures'][0], 'inputs': inp, 'observed': r['failures'], 'log': r['log'],
                           'module': module, 'fn': fname, 'params': params}
                    kn = [k for k in r['known'] if k in known]
                    if kn:
                        rec['known'] = kn
                        res['known'].append(rec)
                    else:
                        res['violations'].append(rec)
                elif r['skip']:
                    res['unwitnessed'] += 1
                else:
                    res['witnesses'] += 1
                    if len(res['samples']) < 2:
                        res['samples'].append(inp)
        if len(res['violations']) >= max_viol:
            res['incomplete'] = 'stopped at %d violations' % len(res['violations'])
            break
    res['stats'] = stats.as_dict()
    res['seconds'] = round(time.time() - t0, 2)
    res['functions'] = sorted({'%s:%s' % (os.path.relpath(c.co_filename, instrument.REPO), c.co_qualname) for c in R.ENC})
    return res

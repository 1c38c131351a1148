"""Path exploration engine: a path condition of z3 constraints, decided branch by branch.

The code under test runs natively in CPython on proxy values (values.py, text.py, npshim.py).  Whenever it
branches on a proxy, Engine.decide asks z3 which outcomes the path condition admits; both are explored by
re-running the harness with a recorded decision prefix.
"""
import time
import z3


class Control(BaseException):
    """Steers exploration; never caught by the code under test (bare excepts are narrowed to Exception)."""


class Infeasible(Control):
    pass


class Budget(Control):
    pass


class Unsupported(Control):
    pass


ENG = None          # the engine of the path being executed (one per process)


def eng():
    return ENG


def set_engine(e):
    global ENG
    ENG = e


_vars_cache = {}
_keep = []


def vars_of(e):
    """Names of the uninterpreted constants of e (cached on the hash-consed AST)."""
    k = e.get_id()
    r = _vars_cache.get(k)
    if r is not None:
        return r
    seen, out, stack = set(), set(), [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        c = _vars_cache.get(i)
        if c is not None:
            out |= c
            continue
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
        else:
            stack.extend(x.children())
    r = frozenset(out)
    _vars_cache[k] = r
    _keep.append(e)
    return r


class Stats:
    def __init__(self):
        self.queries = 0
        self.cached = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.paths = 0
        self.decisions = 0
        self.forks = 0
        self.concretised = 0
        self.static = 0

    def as_dict(self):
        return dict(self.__dict__)


_qcache = {}


class Engine:
    def __init__(self, stats, timeout_ms=15000, max_decisions=20000):
        self.stats = stats
        self.timeout_ms = timeout_ms
        self.max_decisions = max_decisions
        self.begin([])

    # ---- one path -------------------------------------------------------------------------------
    def begin(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pending = []            # prefixes left to explore, discovered on this path
        self.parent = {}
        self.comp = {}               # root -> list of constraints
        self.novar = []
        self.inputs = {}             # name -> descriptor (kind, ...)
        self.concrete_flags = []     # reasons this path was narrowed to concrete values
        self.reals = {}              # name -> z3 real of inputs
        self.rnds = []               # (r, f, p): decimal roundings used on this path
        self.dbls = []
        self.memo = {}
        self.fresh_n = 0
        self.dead = None
        self.nonmarker = []          # opaque payload windows assumed not to be a block marker
        self.kept = []
        self.checks = []
        self.known = []
        self.labels = []

    def keep(self, z):
        """Keep an expression alive while the path runs (its id is used as a key)."""
        self.kept.append(z)
        return z.get_id()

    def value(self, compute):
        """A value chosen by a solver model; recorded so that re-executing the path prefix repeats it."""
        if self.dead is not None:
            raise self.dead
        i = len(self.trace)
        if i < len(self.prefix):
            t = self.prefix[i]
            assert t[0] == 'v', 'replayed path diverged'
            self.trace.append(t)
            return t[1]
        v = compute()
        self.trace.append(('v', v))
        return v

    def fresh(self, base):
        self.fresh_n += 1
        return '%s!%d' % (base, self.fresh_n)

    def _find(self, v):
        p = self.parent
        if v not in p:
            p[v] = v
            return v
        r = v
        while p[r] != r:
            r = p[r]
        while p[v] != r:
            p[v], v = r, p[v]
        return r

    def add(self, cond):
        """Conjoin cond to the path condition."""
        if z3.is_true(cond):
            return
        vs = vars_of(cond)
        if not vs:
            c = z3.simplify(cond)
            if z3.is_true(c):
                return
            self.dead = Infeasible('false constraint')
            raise self.dead
        it = iter(vs)
        r = self._find(next(it))
        lst = self.comp.setdefault(r, [])
        for v in it:
            q = self._find(v)
            if q != r:
                l2 = self.comp.pop(q, [])
                lst.extend(l2)
                self.parent[q] = r
        lst.append(cond)

    def cone(self, vs):
        out = []
        for r in sorted({self._find(v) for v in vs if v in self.parent}):
            out.extend(self.comp.get(r, ()))
        return out

    def sat(self, cond):
        """z3's answer for path condition (cone of influence) and cond: 'sat' | 'unsat' | 'unknown'."""
        cons = self.cone(vars_of(cond))
        key = (cond.get_id(), tuple(c.get_id() for c in cons))
        r = _qcache.get(key)
        if r is not None:
            self.stats.cached += 1
            return r
        s = z3.Solver()
        s.set('timeout', self.timeout_ms)
        for c in cons:
            s.add(c)
        s.add(cond)
        t = time.time()
        r = str(s.check())
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == 'unknown':
            self.stats.unknown += 1
        _qcache[key] = r
        _keep.append(cond)
        _keep.extend(cons)
        return r

    def decide(self, cond, prefer=True):
        """The truth of cond on this path; forks when the path condition admits both."""
        if self.dead is not None:
            raise self.dead
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            self.stats.static += 1
            return True
        if z3.is_false(cond):
            self.stats.static += 1
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            v, forced = self.prefix[i]
            assert v != 'v', 'replayed path diverged'
            self.trace.append((v, forced))
            if not forced:
                self.add(cond if v else z3.Not(cond))
            return bool(v)
        if i > self.max_decisions:
            self.dead = Budget('more than %d decisions on one path' % self.max_decisions)
            raise self.dead
        self.stats.decisions += 1
        t = self.sat(cond)
        if t == 'unsat':
            self.trace.append((0, True))
            return False
        f = self.sat(z3.Not(cond))
        if f == 'unsat':
            self.trace.append((1, True))
            return True
        self.stats.forks += 1
        v = 1 if prefer else 0
        self.pending.append(self.trace + [(1 - v, False)])
        self.trace.append((v, False))
        self.add(cond if v else z3.Not(cond))
        return bool(v)

    def choose(self, n, label=''):
        """A free choice among n alternatives (an enumerated symbolic variable)."""
        if self.dead is not None:
            raise self.dead
        if n == 1:
            return 0
        i = len(self.trace)
        if i < len(self.prefix):
            v, forced = self.prefix[i]
            self.trace.append((v, forced))
            return v
        self.stats.decisions += 1
        self.stats.forks += 1
        for k in range(n - 1, 0, -1):
            self.pending.append(self.trace + [(k, True)])
        self.trace.append((0, True))
        return 0

    def assume(self, cond):
        if self.dead is not None:
            raise self.dead
        if cond is True:
            return
        if cond is False:
            self.dead = Infeasible('assume')
            raise self.dead
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond) or self.sat(cond) == 'unsat':
            self.dead = Infeasible('assume')
            raise self.dead
        self.add(cond)

    def flag(self, why):
        self.concrete_flags.append(why)
        self.stats.concretised += 1

    # ---- models ---------------------------------------------------------------------------------
    def model(self, extra=(), suggest=None, hard=()):
        """A model of the path condition and extra (and hard), solved per independent component.
        suggest: {var name: (z3 const, z3 value)} preferred values, dropped where they conflict.
        Returns {var name: z3 value}, None (unsat) or 'unknown'."""
        save_parent, save_comp = dict(self.parent), {k: list(v) for k, v in self.comp.items()}
        suggest = suggest or {}
        try:
            try:
                for c in list(extra) + list(hard):
                    self.add(z3.simplify(c))
            except Infeasible:
                self.dead = None
                return None
            out = {}
            groups = {}
            for v in list(self.parent):
                groups.setdefault(self._find(v), []).append(v)
            for r, names in sorted(groups.items()):
                cons = self.comp.get(r, [])
                if not cons:
                    continue
                s = z3.Solver()
                s.set('timeout', self.timeout_ms)
                s.add(*cons)
                track = {}
                for n in sorted(names):
                    if n in suggest:
                        p = z3.Bool('sg!' + n)
                        s.add(z3.Implies(p, suggest[n][0] == suggest[n][1]))
                        track[p.decl().name()] = p
                m = None
                rounds = 0
                while m is None:
                    t = time.time()
                    res = s.check(*track.values())
                    self.stats.solver_s += time.time() - t
                    self.stats.queries += 1
                    if res == z3.sat:
                        m = s.model()
                    elif track:
                        core = [c.decl().name() for c in s.unsat_core()] if res == z3.unsat else []
                        core = [c for c in core if c in track]
                        if not core:
                            if res == z3.unsat:
                                return None
                            track = {}
                        for c in (core if rounds > 8 else core[:1]):
                            del track[c]
                        rounds += 1
                    else:
                        return None if res == z3.unsat else 'unknown'
                for d in m.decls():
                    if d.arity() == 0 and not d.name().startswith('sg!'):
                        out[d.name()] = m[d]
            return out
        finally:
            self.parent, self.comp = save_parent, save_comp

"""The vocabulary of the check harnesses.  A harness is one Python function over a `cx`; it is executed
symbolically (symcx.SymCx) and, with the inputs of a solver model, concretely against the real package
(concrete.ConCx).  This module holds what both share and imports no solver."""
import numpy as np
from fractions import Fraction


class Skip(BaseException):
    """The concrete inputs do not satisfy an assumption of the harness."""


def nested(x):
    """Arrays, tuples and lists as nested lists."""
    if isinstance(x, np.ndarray):
        x = x.view(np.ndarray) if type(x) is not np.ndarray else x
        return nested_list(x.tolist())
    return nested_list(x)


def nested_list(x):
    if isinstance(x, (list, tuple, range)):
        return [nested(i) for i in x]
    return x


class Cx:
    """Common part: structured comparison."""

    def is_seq(self, x):
        return isinstance(x, (list, tuple, range)) or isinstance(x, np.ndarray) and x.ndim > 0

    def compare(self, got, want, leaf, label):
        """Conditions under which got matches want, by leaf; False on a structural difference."""
        g, w = nested(got), nested(want)
        return self._cmp(g, w, leaf)

    def _cmp(self, g, w, leaf):
        if isinstance(w, dict):
            if not isinstance(g, dict):
                return [False]
            out = []
            for k in w:
                if k not in g:
                    return [False]
                out.extend(self._cmp(nested(g[k]), nested(w[k]), leaf))
            return out
        if isinstance(w, list):
            if not isinstance(g, list) or len(g) != len(w):
                return [False]
            out = []
            for a, b in zip(g, w):
                out.extend(self._cmp(a, b, leaf))
            return out
        if isinstance(g, (list, dict)):
            return [False]
        return [leaf(g, w)]

    def check_eq(self, got, want, label):
        """got and want are equal, element by element (lists, tuples and arrays alike)."""
        self.check(self.all(self.compare(got, want, self.eq1, label)), label)

    def check_close(self, got, want, label, p):
        """Numbers agree to p+1 significant decimal digits (the text '%.<p>e'); p >= 16 or None: exactly;
        p == 'single': to IEEE single precision."""
        self.check(self.all(self.compare(got, want, lambda g, w: self.close1(g, w, p), label)), label)

    def check_has(self, d, keys, label):
        self.check(isinstance(d, dict) and all(k in d for k in keys), label)

    def get(self, d, k, label=''):
        """d[k]; a missing key is a failed check and ends the path."""
        if not (isinstance(d, dict) and k in d):
            self.check(False, '%s: key %r missing' % (label, k))
            self.stop()
        return d[k]


def tol(p):
    if p is None or p != 'single' and p >= 16:
        return None
    if p == 'single':
        return Fraction(1, 2 ** 24) * (1 + Fraction(1, 10 ** 6))
    return Fraction(1, 2 * 10 ** p) * (1 + Fraction(1, 10 ** 4))

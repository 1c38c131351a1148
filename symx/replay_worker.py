"""Replays solver models against the real, uninstrumented package: JSON requests on stdin, results on stdout.
Started with the repository's interpreter."""
import json
import os
import sys
import importlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)


def main():
    real = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    import warnings
    import pyuff
    assert os.path.abspath(pyuff.__file__).startswith(os.path.abspath(REPO)), pyuff.__file__
    warnings.simplefilter('ignore')
    from symx import concrete
    from symx.state import Snapshot
    snap = Snapshot()
    for line in sys.stdin:
        req = json.loads(line)
        try:
            mod = importlib.import_module(req['module'])
            snap.restore()
            r = concrete.run(getattr(mod, req['fn']), req['params'], req['inputs'], pyuff)
        except BaseException as x:
            r = {'ok': False, 'crash': '%s: %s' % (type(x).__name__, x), 'failures': ['replay crashed: %r' % x],
                 'exc': None, 'known': [], 'skip': None, 'n_checks': 0, 'log': []}
        real.write(json.dumps(r, default=str) + '\n')
        real.flush()


main()

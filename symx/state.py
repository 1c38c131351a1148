"""Module-level state of the package under test, put back before every run: no run sees what another left behind."""
import copy
import sys
import types

MUTABLE = (dict, list, set, bytearray)


class Snapshot:
    def __init__(self, package='pyuff'):
        self.names, self.cells, self.caches = [], [], []
        seen = set()
        for m in [m for n, m in sorted(sys.modules.items()) if n == package or n.startswith(package + '.')]:
            if isinstance(m, types.ModuleType):
                self.names.append((m, {k: v for k, v in vars(m).items() if k != '__builtins__'}))
                for k, v in list(vars(m).items()):
                    if not (k.startswith('__') and k.endswith('__')):
                        self.visit(v, seen, package)

    def visit(self, v, seen, package):
        if id(v) in seen or isinstance(v, types.ModuleType):
            return
        seen.add(id(v))
        if isinstance(v, MUTABLE):
            try:
                self.cells.append((v, copy.deepcopy(v)))
            except Exception:
                pass
        elif isinstance(v, types.FunctionType):
            if (v.__module__ or '').split('.')[0] == package:
                self.cells.append((v.__dict__, dict(v.__dict__)))
                for x in list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values()):
                    self.visit(x, seen, package)
                for c in v.__closure__ or ():
                    try:
                        self.visit(c.cell_contents, seen, package)
                    except ValueError:
                        pass
        elif isinstance(v, (staticmethod, classmethod)):
            self.visit(v.__func__, seen, package)
        elif isinstance(v, type):
            if (v.__module__ or '').split('.')[0] == package:
                self.names.append((v, {k: x for k, x in vars(v).items() if not k.startswith('__')}))
                for x in list(vars(v).values()):
                    self.visit(x, seen, package)
        elif hasattr(v, 'cache_clear') and callable(v.cache_clear):
            self.caches.append(v)
        elif type(v).__name__ == 'ndarray':
            self.cells.append((v, v.copy()))

    def restore(self):
        for o, was in self.names:
            now = vars(o)
            for k in [k for k in now if k not in was and not k.startswith('__')]:
                delattr(o, k)
            for k, x in was.items():
                if now.get(k, self) is not x:
                    setattr(o, k, x)
        for v, was in self.cells:
            if isinstance(v, dict):
                if v or was:
                    new = copy.deepcopy(was) if was else {}
                    v.clear()
                    v.update(new)
            elif isinstance(v, (list, bytearray)):
                if v or was:
                    v[:] = copy.deepcopy(was)
            elif isinstance(v, set):
                v.clear()
                v.update(was)
            else:
                v[...] = was
        for c in self.caches:
            c.cache_clear()

"""Loads the pyuff package from the working tree with its operations routed through symx.runtime.

The source is parsed on every run; the transformation is semantics-preserving on concrete values: calls,
method calls, %-formatting, f-strings and membership tests become calls of the runtime, bare excepts exclude
the engine's own control exceptions, and `numpy` names the symbolic shim."""
import ast
import importlib.abc
import importlib.util
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
SKIP = {'super', 'locals', 'globals', 'eval', 'exec', 'vars', 'dir'}
encoded = {}            # function qualified name -> set of executed lines (filled by harness tracing)


class Tr(ast.NodeTransformer):
    def _sx(self, name, node):
        return ast.copy_location(ast.Attribute(ast.Name('_sx', ast.Load()), name, ast.Load()), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name):
            if f.id in SKIP:
                return node
            return ast.copy_location(ast.Call(self._sx('call', node), [f] + node.args, node.keywords), node)
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                return node
            return ast.copy_location(ast.Call(self._sx('callm', node), [f.value, ast.copy_location(ast.Constant(f.attr), node)]
                                              + node.args, node.keywords), node)
        return ast.copy_location(ast.Call(self._sx('call', node), [f] + node.args, node.keywords), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(self._sx('mod', node), [node.left, node.right], []), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            load = ast.copy_location(ast.Name(node.target.id, ast.Load()), node)
            return ast.copy_location(ast.Assign([node.target], ast.copy_location(
                ast.Call(self._sx('imod', node), [load, node.value], []), node)), node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec if v.format_spec is not None else ast.copy_location(ast.Constant(''), node)
                parts.append(ast.copy_location(ast.Call(self._sx('fmtval', node), [
                    v.value, ast.copy_location(ast.Constant(v.conversion), node), spec], []), node))
            else:
                parts.append(v)
        return ast.copy_location(ast.Call(self._sx('fstr', node), parts, []), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            a = [node.left, node.comparators[0]]
            if isinstance(node.ops[0], ast.NotIn):
                a.append(ast.copy_location(ast.Constant(True), node))
            return ast.copy_location(ast.Call(self._sx('contains', node), a, []), node)
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or isinstance(node.type, ast.Name) and node.type.id == 'BaseException':
            node.type = ast.copy_location(ast.Name('Exception', ast.Load()), node)
        return node

    def visit_Import(self, node):
        out = []
        for a in node.names:
            if a.name == 'numpy':
                out.append(ast.copy_location(ast.Assign([ast.copy_location(ast.Name(a.asname or 'numpy', ast.Store()), node)],
                                                        self._sx('np', node)), node))
            else:
                out.append(ast.copy_location(ast.Import([a]), node))
        return out

    def visit_ImportFrom(self, node):
        if node.module == 'numpy' and node.level == 0:
            return [ast.copy_location(ast.Assign([ast.copy_location(ast.Name(a.asname or a.name, ast.Store()), node)],
                    ast.copy_location(ast.Attribute(self._sx('np', node), a.name, ast.Load()), node)), node)
                    for a in node.names]
        return node


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, repo):
        self.repo = repo

    def find_spec(self, name, path=None, target=None):
        if name != 'pyuff' and not name.startswith('pyuff.'):
            return None
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return importlib.util.spec_from_file_location(name, os.path.join(p, '__init__.py'), loader=self,
                                                          submodule_search_locations=[p])
        if os.path.exists(p + '.py'):
            return importlib.util.spec_from_file_location(name, p + '.py', loader=self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        from . import runtime
        fn = mod.__spec__.origin
        with open(fn, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, fn)
        tree = Tr().visit(tree)
        ast.fix_missing_locations(tree)
        mod.__dict__['_sx'] = runtime
        exec(compile(tree, fn, 'exec', dont_inherit=True), mod.__dict__)


def load(repo=None):
    """Import the instrumented package (once per process)."""
    repo = repo or REPO
    if 'pyuff' in sys.modules:
        return sys.modules['pyuff']
    sys.meta_path.insert(0, Finder(repo))
    import warnings
    import pyuff
    warnings.simplefilter('ignore')
    return pyuff


_snapshot = []


def snapshot():
    """The state of the freshly imported package."""
    if not _snapshot:
        from .state import Snapshot
        load()
        _snapshot.append(Snapshot())
    return _snapshot[0]

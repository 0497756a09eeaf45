"""Source loader: parses every non-test Python file of the repository under analysis (never imports or runs it)."""
import ast
import os
import warnings

warnings.simplefilter('ignore', SyntaxWarning)

REPO = os.environ.get('VERIF_REPO', '/repo')


class AnalysisError(Exception):
    """The analysis cannot give an answer (anchor vanished, construct outside the model)."""


def is_test_file(rel):
    b = os.path.basename(rel)
    parts = rel.split('/')
    return b.endswith('_test.py') or b.startswith('test_') or 'test' in parts[:-1] or 'tests' in parts[:-1] \
        or b == 'conftest.py'


class Module:
    def __init__(self, name, path, rel, src, is_pkg):
        self.name, self.path, self.rel, self.src, self.is_pkg = name, path, rel, src, is_pkg
        self.tree = ast.parse(src, path)
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n
            n._mod = self

    @property
    def package(self):
        return self.name if self.is_pkg else self.name.rpartition('.')[0]


class Project:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.consulted = set()
        self._funcs = None
        for d, dirs, files in os.walk(self.root):
            dirs[:] = sorted(x for x in dirs if not x.startswith('.') and x not in ('__pycache__', 'node_modules'))
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.root)
                if is_test_file(rel):
                    continue
                self.modules_add(p, rel)
        # models of standard library modules, interpreted like the code that calls them
        here = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs', 'std')
        for f in sorted(os.listdir(here)):
            if f.endswith('.py'):
                n = 'sastd.' + f[:-3]
                with open(os.path.join(here, f)) as fh:
                    self.modules[n] = Module(n, os.path.join(here, f), n, fh.read(), False)

    def modules_add(self, p, rel):
        with open(p, encoding='utf-8', errors='replace') as fh:
            src = fh.read()
        name = rel[:-3].replace('/', '.')
        is_pkg = False
        if name.endswith('.__init__'):
            name, is_pkg = name[:-9], True
        elif name == '__init__':
            return
        try:
            self.modules[name] = Module(name, p, rel, src, is_pkg)
        except SyntaxError as e:
            # python-2 leftovers are not importable either: not part of the program
            self.skipped = getattr(self, 'skipped', []) + [(rel, str(e))]

    def mod(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnalysisError('module %s not found in the repository' % name)
        if not name.startswith('sastd.'):
            self.consulted.add(name)
        return m

    def has(self, name):
        return name in self.modules

    def is_namespace(self, name):
        return any(m.startswith(name + '.') for m in self.modules)

    def resolve_from(self, mod, node):
        """absolute module name designated by `from X import` in module `mod`."""
        if node.level == 0:
            return node.module or ''
        base = mod.package.split('.') if mod.package else []
        up = node.level - 1
        if up:
            base = base[:-up]
        return '.'.join(base + ([node.module] if node.module else []))


def loc(node):
    m = getattr(node, '_mod', None)
    return '%s:%s' % (m.rel if m else '?', getattr(node, 'lineno', '?'))

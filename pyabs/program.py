"""Loading of the analysed program: modules, nodes, functions."""
import ast
import glob
import hashlib
import os

REPO = os.environ.get('VERIF_REPO', '/repo')


class AnalysisBroken(Exception):
    """The analysed program no longer has the shape the analysis relies on."""


class Module:
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.src = src
        self.tree = ast.parse(src, path)


class Program:
    def __init__(self, repo=None, spec=False, more=False):
        self.repo = repo or REPO
        self.modules = {}
        self.funcs = {}          # nid -> (node, module, qualname)
        self.nodeinfo = {}
        d = hashlib.sha256()
        for path in sorted(glob.glob(os.path.join(self.repo, 'pyrsistent', '*.py'))):
            base = os.path.basename(path)[:-3]
            if base == 'typing':
                continue   # type aliases only, checked against nothing at run time
            name = 'pyrsistent' if base == '__init__' else 'pyrsistent.' + base
            with open(path, encoding='utf-8') as f:
                src = f.read()
            d.update(src.encode())
            self.modules[name] = Module(name, path, src)
            if spec and base == '_pmap':
                from .spec import graft
                graft(self.modules[name].tree)
        if not self.modules:
            raise AnalysisBroken('no modules found in %s' % self.repo)
        origin = os.path.join(os.path.dirname(os.__file__), '_collections_abc.py')
        with open(origin, encoding='utf-8') as f:
            self.modules['_collections_abc'] = Module('_collections_abc', origin, f.read())
        client = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'client.py')
        with open(client, encoding='utf-8') as f:
            src = f.read()
        if more:
            with open(client.replace('.py', '_more.py'), encoding='utf-8') as f:
                src += f.read()
        self.modules['client'] = Module('client', client, src)
        self.digest = d.hexdigest()
        for m in self.modules.values():
            self._index(m)

    def _index(self, m):
        counter = {}

        def visit(node, qual, infunc):
            for ch in ast.iter_child_nodes(node):
                q = qual
                f = infunc
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    q = (qual + '.' if qual else '') + ch.name
                    f = q
                elif isinstance(ch, ast.Lambda):
                    q = (qual + '.' if qual else '') + '<lambda>'
                    f = q
                ch._mod = m
                ch._qual = q
                ch._infunc = infunc
                visit(ch, q, f)
        m.tree._mod = m
        m.tree._qual = ''
        m.tree._infunc = ''
        visit(m.tree, '', '')
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.SetComp,
                              ast.DictComp, ast.ClassDef)):
                n._nid = (m.name, n.lineno, n.col_offset, type(n).__name__)
                self.funcs[n._nid] = n
            if isinstance(n, ast.FunctionDef):
                n._isgen = _has_yield(n)
                n._hasclosure = any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef))
                                    for x in ast.walk(n) if x is not n)
                n._locals = None


def _has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def where(node):
    m = getattr(node, '_mod', None)
    return '%s:%s' % (os.path.relpath(m.path, REPO) if m and m.path.startswith(REPO) else (m.path if m else '?'),
                      getattr(node, 'lineno', '?'))

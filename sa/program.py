"""Load the current sources of /repo (tangling the noweb files) into an AST program model."""
import ast
import os
from . import noweb

REPO = os.environ.get('VERIF_REPO', '/repo')


class AnalysisBroken(Exception):
    """The analysis could not be carried out (vanished anchor, unreadable source)."""


class Func:
    def __init__(self, module, cls, node):
        self.module, self.cls, self.node = module, cls, node
        self.name = node.name

    @property
    def qual(self):
        return (self.cls.name + '.' if self.cls else '') + self.name

    def loc(self, node=None):
        return self.module.loc((node or self.node).lineno)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return '<%s>' % self.qual


class Class:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.bases = []
        for b in node.bases:
            if isinstance(b, ast.Name):
                self.bases.append(b.id)
            elif isinstance(b, ast.Attribute):
                self.bases.append(b.attr)
        self.methods = {}
        self.attrs = {}
        self.shadowed = []
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if n.name in self.methods:
                    self.shadowed.append(self.methods[n.name])
                self.methods[n.name] = Func(module, self, n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = n.value


class Module:
    def __init__(self, name, lines, locs):
        self.name, self.lines, self.locs = name, lines, locs
        self.source = '\n'.join(lines) + '\n'
        try:
            self.tree = ast.parse(self.source)
        except SyntaxError as e:
            raise AnalysisBroken('%s does not parse: %s' % (name, e))
        self.functions, self.classes, self.imports, self.globals = {}, {}, {}, {}
        self._collect(self.tree.body)

    def _collect(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[n.name] = Func(self, None, n)
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = Class(self, n)
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.imports[a.asname or a.name] = ('from', n.module, a.name, n.level)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split('.')[0]] = ('import', a.name, None, 0)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.globals[t.id] = n.value
            elif isinstance(n, (ast.If, ast.Try, ast.With)):
                self._collect(n.body)
                self._collect(getattr(n, 'orelse', []))
                for h in getattr(n, 'handlers', []):
                    self._collect(h.body)
                self._collect(getattr(n, 'finalbody', []))

    def loc(self, lineno):
        if 1 <= lineno <= len(self.locs):
            f, l = self.locs[lineno - 1]
            return '%s:%d' % (f, l)
        return '%s:%d' % (self.name, lineno)


SOURCES = {
    'StarFile': ('src/StarFile.nw', '*'),
    'CifFile_module': ('src/CifFile_module.nw', '*'),
    'py_from_ast': ('src/drel/py_from_ast.nw', '*'),
    'drel_runtime': ('src/drel/drel_runtime.nw', '*'),
    'drel_lex': ('src/drel/drel_lex.py', None),
    'drel_ast_yacc': ('src/drel/drel_ast_yacc.py', None),
    'yapps3_compiled_rt': ('src/yapps3_compiled_rt.py', None),
}
GRAMMARS = {
    '1.0': ('src/YappsStarParser.nw', '1.0_syntax'),
    '1.1': ('src/YappsStarParser.nw', '1.1_syntax'),
    '2.0': ('src/YappsStarParser.nw', 'CIF2_syntax'),
    'STAR2': ('src/YappsStarParser.nw', 'STAR2_syntax'),
    'TypeContents': ('src/TypeContentsParser.nw', 'TypeContents_syntax'),
}


def read_source(path, root, repo=None):
    repo = repo or REPO
    full = os.path.join(repo, path)
    try:
        if root is None:
            with open(full, encoding='utf-8') as fh:
                lines = fh.read().split('\n')
            return lines, [(path, i) for i in range(1, len(lines) + 1)]
        return noweb.tangle(full, root, path)
    except (OSError, noweb.NowebError) as e:
        raise AnalysisBroken('cannot read %s: %s' % (path, e))


class Program:
    def __init__(self, names, repo=None):
        self.modules = {}
        for n in names:
            path, root = SOURCES[n]
            lines, locs = read_source(path, root, repo)
            self.modules[n] = Module(n, lines, locs)
        self.classes = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.classes.setdefault(c.name, c)

    def cls(self, name):
        if name not in self.classes:
            raise AnalysisBroken('class %s not found' % name)
        return self.classes[name]

    def mro(self, name):
        out = []

        def rec(n):
            c = self.classes.get(n)
            if c is None:
                return
            if c in out:
                out.remove(c)
            out.append(c)
            for b in c.bases:
                rec(b)
        rec(name)
        return out

    def base_names(self, name):
        res = {name}
        todo = [name]
        while todo:
            c = self.classes.get(todo.pop())
            if c:
                for b in c.bases:
                    if b not in res:
                        res.add(b)
                        todo.append(b)
        return res

    def find_method(self, cls, name, after=None):
        seen = after is None
        for c in self.mro(cls):
            if seen and name in c.methods:
                return c.methods[name]
            if after is not None and c.name == after:
                seen = True
        return None

    def method(self, cls, name):
        f = self.find_method(cls, name)
        if f is None:
            raise AnalysisBroken('method %s.%s not found' % (cls, name))
        return f

    def function(self, module, name):
        f = self.modules[module].functions.get(name)
        if f is None:
            raise AnalysisBroken('function %s not found in %s' % (name, module))
        return f

    def subclasses(self, name):
        return [c for c in self.classes if name in self.base_names(c)]

    def all_funcs(self, modules=None):
        for mn, m in self.modules.items():
            if modules and mn not in modules:
                continue
            for f in m.functions.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f

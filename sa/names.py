"""Name, attribute and argument resolution over the Python sources of the project (nothing is run).

Scopes come from the compiler's own symbol tables; local reads are followed along the paths of the function with the
outcomes of repeated tests kept consistent; attributes and argument lists are checked where the class or function meant is
certain. Modules outside the project are looked up in the interpreter's own library.
"""
import ast
import builtins
import importlib
import symtable
import sys

OPTIONAL = {'numpy', 'ply', 'StarScan'}
TRY_LIMIT = 64
# attributes of the objects of numpy and ply that reach the project
FOREIGN = {'shape', 'ndim', 'dtype', 'tolist', 'dot', 'transpose', 'flat', 'ravel', 'reshape', 'T', 'astype', 'itemsize', 'size',
           'lexpos', 'lexdata', 'lexmatch', 'lexer', 'lineno', 'linespan', 'lexspan', 'slice', 'parser', 'skip', 'begin', 'token',
           'push_state', 'pop_state', 'current_state', 'symstack', 'statestack', 'errok', 'restart', 'clone', 'input', 'value',
           'type', 'item', 'kind', 'set_lineno', 'set_lexpos', 'parse'}


STOP = (ast.Return, ast.Raise, ast.Continue, ast.Break)


def prune(tree):
    """drop the statements behind one that leaves their block"""
    for n in ast.walk(tree):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if isinstance(s, STOP):
                        yields = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for t in b[i + 1:] for x in ast.walk(t))
                        if not yields:
                            del b[i + 1:]
                        break
    return tree


# methods of the built-in types that are called for their effect
EFFECTS = {'sort', 'append', 'extend', 'insert', 'remove', 'clear', 'reverse', 'close', 'write', 'writelines', 'flush', 'update', 'pop', 'popitem',
           'setdefault', 'add', 'discard', 'seek', 'readline'}


class Mod:
    def __init__(self, name, path, text, locs=None):
        self.name, self.path, self.text, self.locs = name, path, text, locs
        self.error = None
        try:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.tree = prune(ast.parse(text))
            self.table = symtable.symtable(text, path, 'exec')
        except SyntaxError as e:
            self.tree, self.error = None, e
            return
        self.globals = {s.get_name() for s in self.table.get_symbols()
                        if s.is_assigned() or s.is_imported() or s.is_namespace()}
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Global):
                self.globals |= set(n.names)
        self.functions, self.classes = {}, {}
        self.rebound = set()
        counts = {}
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                counts[n.id] = counts.get(n.id, 0) + 1
        def scan(body):
            for s in body:
                if isinstance(s, ast.FunctionDef):
                    self.functions[s.name] = s
                elif isinstance(s, ast.ClassDef):
                    self.classes[s.name] = Cls(self, s)
                elif isinstance(s, (ast.If, ast.Try)):
                    for b in (s.body, s.orelse, getattr(s, 'finalbody', [])):
                        scan(b)
                    for h in getattr(s, 'handlers', []):
                        scan(h.body)
        scan(self.tree.body)
        tops = {t.id for s in self.tree.body for t in ast.walk(s) if isinstance(s, (ast.Assign, ast.AugAssign))
                and isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)}
        self.rebound = tops
        self.imports = {}                     # local name -> ('module', m) or ('member', m, name)
        for s in ast.walk(self.tree):
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = ('module', a.name)
                    else:
                        self.imports[a.name.split('.')[0]] = ('module', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.imports[a.asname or a.name] = ('member', ('.' * s.level) + (s.module or ''), a.name)

    def at(self, node):
        line = getattr(node, 'lineno', 0)
        if self.locs and 0 < line <= len(self.locs):
            p, l = self.locs[line - 1]
            return '%s:%s' % (p, l)
        return '%s:%d' % (self.path, line)


def scope(tree, where):
    """the innermost definition named by a dotted path"""
    for part in where.split('.'):
        nxt = next((x for x in ast.walk(tree) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == part
                    and x is not tree), None)
        if nxt is None:
            return tree
        tree = nxt
    return tree


def filled(f):
    """does this function execute text in the global name space?"""
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'exec' and len(x.args) > 1 and
               isinstance(x.args[1], ast.Call) and isinstance(x.args[1].func, ast.Name) and x.args[1].func.id == 'globals'
               for x in ast.walk(f))


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.methods, self.attrs = {}, set()
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[s.name] = s
            elif isinstance(s, ast.ClassDef):
                self.attrs.add(s.name)
            else:
                for t in ast.walk(s):
                    if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                        self.attrs.add(t.id)
                    elif isinstance(t, (ast.Import, ast.ImportFrom)):
                        for a in t.names:
                            self.attrs.add((a.asname or a.name).split('.')[0])
        self.stored = set()
        self.dynamic = '__getattr__' in self.methods or '__getattribute__' in self.methods
        for m in self.methods.values():
            me = first_arg(m)
            for t in ast.walk(m):
                if isinstance(t, ast.Attribute) and isinstance(t.ctx, ast.Store) and isinstance(t.value, ast.Name) and \
                        t.value.id == me:
                    self.stored.add(t.attr)
                elif isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'setattr' and t.args and \
                        isinstance(t.args[0], ast.Name) and t.args[0].id == me:
                    if len(t.args) > 1 and isinstance(t.args[1], ast.Constant):
                        self.stored.add(t.args[1].value)
                    else:
                        self.dynamic = True
                elif isinstance(t, ast.Attribute) and t.attr == '__dict__':
                    self.dynamic = True


def first_arg(f):
    if any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in f.decorator_list):
        return None
    a = f.args.posonlyargs + f.args.args
    return a[0].arg if a else None


class Project:
    """mods: {dotted name inside the package: Mod}; searched relative to each module's package"""

    def __init__(self, mods, package='CifFile', alias=None):
        self.mods, self.package, self.alias = mods, package, alias or {}
        self.found = []
        self.tables = {}
        self.counts = {}
        self.stores, self.raised = set(), set()
        for m in mods.values():
            if m.tree is None:
                continue
            aug = {id(t.target) for t in ast.walk(m.tree) if isinstance(t, ast.AugAssign)}
            for t in ast.walk(m.tree):
                if isinstance(t, ast.Attribute) and isinstance(t.ctx, ast.Store):
                    (self.raised if id(t) in aug else self.stores).add(t.attr)
        self.ext = {}
        self.outer = set()                    # attributes stored from outside the object's own methods
        for m in mods.values():
            if m.tree is not None:
                mine = {id(t) for c in m.classes.values() for f in c.methods.values() for t in ast.walk(f)
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == first_arg(f)}
                self.outer |= {t.attr for t in ast.walk(m.tree) if isinstance(t, ast.Attribute) and isinstance(t.ctx, ast.Store)
                               and id(t) not in mine}

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def report(self, rule, mod, where, what, node, text):
        self.found.append((rule, '%s:%s: %s' % (mod.name, where, what), text, mod.at(node)))

    # ---- modules
    def module_for(self, mod, name):
        """('own', Mod) | ('ext', module object) | ('opaque',) | ('missing',)"""
        level = len(name) - len(name.lstrip('.'))
        base = name.lstrip('.')
        if level:
            parts = mod.name.split('.')
            if mod.name.endswith('__init__'):
                parts = parts[:-1]
                pkg = parts if level == 1 else parts[:-(level - 1)]
            else:
                pkg = parts[:-level]
            full = '.'.join(pkg + ([base] if base else []))
            for k in (full, full + '.__init__' if full else '__init__'):
                if k in self.mods:
                    return ('own', self.mods[k])
            if base.split('.')[-1] in OPTIONAL:
                return ('opaque',)
            return ('missing',)
        if base == self.package or base.startswith(self.package + '.'):
            rest = base[len(self.package):].lstrip('.')
            for k in ((rest, rest + '.__init__') if rest else ('__init__',)):
                if k in self.mods:
                    return ('own', self.mods[k])
            return ('missing',) if rest.split('.')[-1] not in OPTIONAL else ('opaque',)
        here = mod.name.rpartition('.')[0]
        for k in (self.alias.get((here, base)), here + '.' + base if here else base):
            if k and k in self.mods:
                return ('own', self.mods[k])
        if base.split('.')[0] in OPTIONAL:
            return ('opaque',)
        if base not in self.ext:
            if base.split('.')[0] in sys.stdlib_module_names:
                try:
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        self.ext[base] = ('ext', importlib.import_module(base))
                except ImportError:
                    self.ext[base] = ('missing',)
            else:
                self.ext[base] = ('missing',)
        return self.ext[base]

    def member(self, mod, src, name):
        """what `from src import name` gives: ('own', Mod) | ('def', Mod, name) | ('ext', obj) | ('opaque',) | ('missing',)"""
        m = self.module_for(mod, src)
        if m[0] == 'own':
            t = m[1]
            if t.tree is None:
                return ('opaque',)
            sub = (t.name[:-len('__init__')] if t.name.endswith('__init__') else t.name + '.') + name
            if name in t.globals:
                return ('def', t, name)
            for k in (sub, sub + '.__init__'):
                if k in self.mods:
                    return ('own', self.mods[k])
            if name in OPTIONAL:
                return ('opaque',)
            return ('missing',)
        if m[0] == 'ext':
            if hasattr(m[1], name):
                return ('ext', getattr(m[1], name))
            return self.ext_sub(src, name)
        return m

    def ext_sub(self, src, name):
        try:
            return ('ext', importlib.import_module(src + '.' + name))
        except ImportError:
            return ('missing',)

    def resolve(self, mod, name, depth=0):
        """a global name of a module -> as member(); classes and functions as ('class', Cls) / ('func', Mod, node)"""
        if depth > 6:
            return ('opaque',)
        if name in mod.rebound:
            return ('opaque',)
        if name in mod.classes:
            return ('class', mod.classes[name])
        if name in mod.functions:
            return ('func', mod, mod.functions[name])
        if name in mod.imports:
            i = mod.imports[name]
            r = self.module_for(mod, i[1]) if i[0] == 'module' else self.member(mod, i[1], i[2])
            if r[0] == 'def':
                return self.resolve(r[1], r[2], depth + 1)
            return r
        if name in mod.globals:
            return ('opaque',)
        if hasattr(builtins, name):
            return ('ext', getattr(builtins, name))
        return ('unknown',)

    # ---- classes
    def mro(self, cls, seen=None):
        """(list of Cls, list of outside base objects, complete?)"""
        seen = seen or []
        out, ext, ok = [cls], [], True
        for b in cls.node.bases:
            r = self.value(cls.mod, b)
            if r[0] == 'class' and r[1] not in seen:
                o, e, k = self.mro(r[1], seen + [cls])
                out += [x for x in o if x not in out]
                ext += e
                ok = ok and k
            elif r[0] == 'ext' and isinstance(r[1], type):
                ext.append(r[1])
            else:
                ok = False
        return out, ext, ok

    def value(self, mod, e):
        """static value of a dotted expression at module level"""
        if isinstance(e, ast.Name):
            return self.resolve(mod, e.id)
        if isinstance(e, ast.Attribute):
            b = self.value(mod, e.value)
            if b[0] == 'own':
                t = b[1]
                if t.tree is None:
                    return ('opaque',)
                if e.attr in t.globals:
                    return self.resolve(t, e.attr)
                pre = t.name[:-len('__init__')] if t.name.endswith('__init__') else t.name + '.'
                for k in (pre + e.attr, pre + e.attr + '.__init__'):
                    if k in self.mods:
                        return ('own', self.mods[k])
                if e.attr in OPTIONAL or (e.attr.startswith('__') and e.attr.endswith('__')):
                    return ('opaque',)
                return ('missing',)
            if b[0] == 'ext' and isinstance(b[1], type(sys)):
                if hasattr(b[1], e.attr):
                    return ('ext', getattr(b[1], e.attr))
                return ('missing',)
            return ('opaque',)
        return ('opaque',)

    # ---- everything
    def check(self):
        self.words = self.vocabulary()
        for m in self.mods.values():
            self.count('modules')
            if m.tree is None:
                self.found.append(('SYNTAX', '%s: not Python 3' % m.name, 'line %s: %s' % (m.error.lineno, m.error.msg),
                                   '%s:%s' % (m.path, m.error.lineno)))
                continue
            self.names(m)
            self.import_statements(m)
            self.attributes(m)
            Walker(self, m).run()
            self.main(m)
        self.typed()
        self.methods_called()

    def main(self, m):
        """the statements of a module, as the body of a function whose variables are the names of the module"""
        f = ast.FunctionDef(name='<module>', args=ast.arguments([], [], None, [], [], None, []), body=m.tree.body, decorator_list=[])
        Flow(Walker(self, m), f, '<module>').run()
        Walker(self, m).lazies(f, '<module>', set())
        for s in ast.walk(m.tree):
            if isinstance(s, ast.BinOp) and isinstance(s.op, ast.Mod) and isinstance(s.left, ast.Constant) and \
                    isinstance(s.left.value, str):
                self.format(m, s)
        parsers = [x for x in ast.walk(m.tree) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and
                   x.func.attr == 'add_option']
        if parsers:
            self.options(m, parsers)

    def options(self, m, adds):
        """attributes of the result of an option parser"""
        dests = set()
        for a in adds:
            d = [k.value for k in a.keywords if k.arg == 'dest']
            if d and not isinstance(d[0], ast.Constant) or any(k.arg is None for k in a.keywords):
                return
            dests.add(d[0].value if d else next((x.value.lstrip('-').replace('-', '_') for x in a.args
                                                 if isinstance(x, ast.Constant) and str(x.value).startswith('--')), None))
        import optparse
        known = dests | set(dir(optparse.Values())) | self.outer
        for f in [x for x in ast.walk(m.tree) if isinstance(x, ast.FunctionDef)] + [m.tree]:
            for s in ast.walk(f):
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                        s.value.func.attr == 'parse_args' and isinstance(s.targets[0], (ast.Tuple, ast.List)) and \
                        isinstance(s.targets[0].elts[0], ast.Name):
                    n = s.targets[0].elts[0].id
                    for x in ast.walk(m.tree):
                        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == n:
                            self.count('options')
                            if x.attr not in known:
                                self.report('OPTION', m, 'options', ast.unparse(x), x, 'there is no option %s' % x.attr)
                    return

    def format(self, m, s):
        import re
        self.count('formats')
        pat = re.compile(r'%(\(\w*\))?[-+ #0]*(\*|\d+)?(\.(\*|\d+))?[hlL]?(.)', re.S)
        text, n, named = s.left.value, 0, False
        for k in pat.finditer(text):
            if k.group(5) == '%':
                continue
            if k.group(5) not in 'diouxXeEfFgGcrsa':
                self.report('FORMAT', m, 'format', repr(text)[:50], s, 'there is no format %%%s' % k.group(5))
            named = named or k.group(1) is not None
            n += 1 + (k.group(2) == '*') + (k.group(4) == '*')
        if named or any(isinstance(e, ast.Starred) for e in getattr(s.right, 'elts', [])):
            return
        if isinstance(s.right, ast.Tuple):
            got = len(s.right.elts)
        elif isinstance(s.right, (ast.Constant, ast.JoinedStr)) or n == 0 and not isinstance(s.right, (ast.Dict, ast.Name)):
            got = 1
        elif isinstance(s.right, (ast.Name, ast.Attribute, ast.Call, ast.Subscript)) and n > 1:
            return
        else:
            return
        if got != n:
            self.report('FORMAT', m, 'format', repr(text)[:50], s, '%d values for %d places' % (got, n))

    def extension(self, name):
        """functions of a C extension module of the project, from its method table"""
        if name not in self.tables:
            self.tables[name] = None
            from . import program
            import re
            try:
                text = '\n'.join(program.read_source('src/lib/py_star_scan.c', None)[0])
            except Exception:
                return None
            k = re.search(r'PyMethodDef\s+%s\w*\s*\[\]\s*=\s*\{(.*?)\};' % name, text, re.S)
            if k:
                self.tables[name] = out = {}
                for py, c in re.findall(r'\{\s*"(\w+)"\s*,\s*(?:\([^)]*\)\s*)?(\w+)', k.group(1)):
                    body = re.search(r'^(?:static\s+)?PyObject\s*\*\s*%s\s*\([^)]*\)\s*\{(.*?)^\}' % c, text, re.S | re.M)
                    fs = re.findall(r'PyArg_ParseTuple\s*\(\s*args\s*,\s*"([^"]*)"', body.group(1)) if body else []
                    # one argument for each letter of a plain format
                    out[py] = len(fs[0]) if len(fs) == 1 and re.fullmatch('[UOiIlkKLfdnps]*', fs[0]) else None
        return self.tables[name]

    def typed(self):
        """attributes of local variables whose class is known from what binds them"""
        index, used = {}, {}
        per = []
        for m in self.mods.values():
            if m.tree is None:
                continue
            def enter(node, owner):
                for c in ast.iter_child_nodes(node):
                    if isinstance(c, ast.FunctionDef):
                        per.append((m, c, owner))
                        enter(c, c)
                    else:
                        enter(c, owner)
            enter(m.tree, None)
            def calls(node, owner):
                for c in ast.iter_child_nodes(node):
                    inner = c if isinstance(c, ast.FunctionDef) else owner
                    if isinstance(c, ast.Call):
                        loc = local_names(owner) if owner is not None else set()
                        root = c.func
                        while isinstance(root, ast.Attribute):
                            root = root.value
                        if isinstance(root, ast.Name) and root.id not in loc:
                            r = self.value(m, c.func)
                            if r[0] == 'func':
                                index.setdefault(id(r[2]), []).append((m, owner, c))
                                used[id(r[2])] = used.get(id(r[2]), 0) + 1
                    calls(c, inner)
            calls(m.tree, None)
        # functions that are mentioned other than as what is called
        mention = {}
        for m in self.mods.values():
            if m.tree is None:
                continue
            callee = {id(c.func) for c in ast.walk(m.tree) if isinstance(c, ast.Call)}
            for x in ast.walk(m.tree):
                if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load) and id(x) not in callee:
                    n = x.id if isinstance(x, ast.Name) else x.attr
                    mention[n] = True
        self.sites, self.mention = index, mention
        self.known = {}
        for m, f, owner in per:
            loc = local_names(f)
            args = [a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs]
            comp = {x.id for c in ast.walk(f) if isinstance(c, ast.comprehension) for x in ast.walk(c.target)
                    if isinstance(x, ast.Name)}
            inner = {id(y) for x in ast.walk(f) if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not f
                     for y in ast.walk(x)}
            for n in sorted(loc):
                uses = [x for x in ast.walk(f) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and
                        isinstance(x.value, ast.Name) and x.value.id == n and id(x) not in inner]
                if not uses or n in comp:
                    continue
                k = self.kinds(m, f, n, 0)
                if not k:
                    continue
                if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('isinstance', 'hasattr', 'getattr', 'type')
                       and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == n for x in ast.walk(f)):
                    continue
                for x in uses:
                    self.count('attributes of known objects')
                    ok = x.attr in self.outer
                    for c in k:
                        own, ext, _ = self.mro(c)
                        ok = ok or any(o.dynamic or x.attr in o.methods or x.attr in o.attrs or x.attr in o.stored for o in own) \
                            or any(hasattr(e, x.attr) for e in ext + [object])
                    if not ok:
                        self.report('ATTRIBUTE', m, f.name, '%s.%s' % (n, x.attr), x, '%s is a %s, which has no %s' % (
                            n, ' or '.join(sorted({c.name for c in k})), x.attr))

    def kinds(self, m, f, n, depth):
        """classes of the values a local variable of f can have; None when that is not known"""
        key = (id(f), n)
        if key in self.known:
            return self.known[key]
        self.known[key] = None
        if depth > 4 or f is None:
            return None
        out = set()
        a = f.args
        if any(isinstance(x, (ast.Global, ast.Nonlocal)) and n in x.names for x in ast.walk(f)):
            return None
        if (a.vararg and a.vararg.arg == n) or (a.kwarg and a.kwarg.arg == n):
            return None
        pos = [x.arg for x in a.posonlyargs + a.args]
        if n in pos + [x.arg for x in a.kwonlyargs]:
            if m.functions.get(f.name) is not f or f.decorator_list or self.mention.get(f.name) or not self.sites.get(id(f)):
                return None
            i = pos.index(n) if n in pos else None
            for m2, o2, c in self.sites[id(f)]:
                if any(isinstance(z, ast.Starred) for z in c.args) or any(z.arg is None for z in c.keywords):
                    return None
                v = c.args[i] if i is not None and i < len(c.args) else next((z.value for z in c.keywords if z.arg == n), None)
                if v is None:
                    return None
                k = self.kind_of(m2, o2, v, depth)
                if not k:
                    return None
                out |= k
        stores = 0
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, (ast.Store, ast.Del)):
                stores += 1
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not f and x.name == n:
                return None
            if isinstance(x, (ast.Import, ast.ImportFrom)) and any((y.asname or y.name).split('.')[0] == n for y in x.names):
                return None
        for x in ast.walk(f):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == n:
                k = self.kind_of(m, f, x.value, depth)
                if not k:
                    return None
                out |= k
                stores -= 1
            elif isinstance(x, ast.ExceptHandler) and x.name == n:
                ts = x.type.elts if isinstance(x.type, ast.Tuple) else [x.type]
                for t in ts:
                    r = self.value(m, t)
                    if r[0] != 'class':
                        return None
                    out.add(r[1])
        if stores:
            return None
        self.known[key] = out
        return out

    def kind_of(self, m, f, e, depth):
        if isinstance(e, ast.Name) and f is not None and e.id in local_names(f):
            return self.kinds(m, f, e.id, depth + 1)
        if isinstance(e, ast.Call):
            root = e.func
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and (f is None or root.id not in local_names(f)):
                r = self.value(m, e.func)
                if r[0] == 'class' and self.mro(r[1])[2] and not any('__new__' in c.methods or c.node.decorator_list or
                                                                     c.node.keywords for c in self.mro(r[1])[0]):
                    return {r[1]}
        return None

    def methods_called(self):
        """argument lists of methods whose name belongs to the project alone: some definition must take them; elements of methods"""
        outside = set(FOREIGN)
        import io
        for k in dir(builtins):
            outside |= set(dir(getattr(builtins, k)))
        for v in (io.StringIO(), io.TextIOWrapper, type(sys)):
            outside |= set(dir(v))
        for m in self.mods.values():
            if m.tree is None:
                continue
            for i in m.imports.values():
                r = self.module_for(m, i[1])
                if r[0] == 'ext':
                    outside |= set(dir(r[1]))
                    for k in dir(r[1]):
                        v = getattr(r[1], k, None)
                        if isinstance(v, type):
                            outside |= set(dir(v))
        defs, plain, funcs = {}, set(), set()
        for m in self.mods.values():
            if m.tree is None:
                continue
            funcs |= set(m.functions) | set(m.classes)
            for c in m.classes.values():
                plain |= c.attrs
                for k, d in c.methods.items():
                    defs.setdefault(k, []).append((c, d))
        values = {}
        for m in self.mods.values():
            if m.tree is None:
                continue
            for s in ast.walk(m.tree):
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Attribute):
                            values.setdefault(t.attr, []).append(s.value)
        whole = {t.attr for m in self.mods.values() if m.tree is not None for s in ast.walk(m.tree)
                 for t in ast.walk(s) if isinstance(t, ast.Attribute) and isinstance(t.ctx, ast.Store)}
        for m in self.mods.values():
            if m.tree is None:
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute):
                    a = n.value.attr
                    mine = isinstance(n.value.value, ast.Name) and n.value.value.id == 'self'
                    if (a in outside and not (mine and a in values)) or a in plain or a in funcs:
                        continue
                    if not (a in defs or a in values):
                        continue
                    if any(d.decorator_list for _, d in defs.get(a, [])):
                        continue
                    vs = values.get(a, [])
                    if a in whole and not vs:
                        continue
                    if all(isinstance(v, ast.Attribute) and v.attr in defs and v.attr not in whole and v.attr not in plain and
                           not any(d.decorator_list for _, d in defs[v.attr]) or isinstance(v, ast.Lambda) for v in vs):
                        self.report('FUNCTION', m, 'elements', ast.unparse(n)[:60], n, '%s is a function and has no elements' % a)
                if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)):
                    continue
                a = n.func.attr
                if a in outside or a in whole or a in plain or a in funcs or a not in defs:
                    continue
                if any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
                    continue
                root = n.func.value
                if isinstance(root, ast.Name) and (root.id in m.imports or root.id in m.classes):
                    continue
                if any(isinstance(d.decorator_list[0] if d.decorator_list else None, ast.AST) and
                       getattr(d.decorator_list[0], 'id', '') not in ('staticmethod', 'classmethod') for _, d in defs[a]):
                    continue
                sup = isinstance(root, ast.Call) and isinstance(root.func, ast.Name) and root.func.id == 'super'
                self.count('methods called by name')
                reasons = []
                for c, d in defs[a]:
                    static = any(getattr(x, 'id', '') == 'staticmethod' for x in d.decorator_list)
                    r = refused(n, d, 0 if static else 1)
                    if r is None:
                        break
                    reasons.append(r)
                else:
                    where = next((f.name for f in reversed([f for f in ast.walk(m.tree) if isinstance(f, ast.FunctionDef)])
                                  if any(x is n for x in ast.walk(f))), '<module>')
                    if not any(r[0] == 'ARGUMENTS' and r[3] == m.at(n) for r in self.found):
                        self.report('ARGUMENTS', m, where, ast.unparse(n)[:70], n, reasons[0])

    def vocabulary(self):
        """every attribute name that something can have"""
        out = set(self.stores)
        for name, m in self.mods.items():
            out |= set(name.split('.'))
            if m.tree is None:
                continue
            out |= m.globals
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and \
                        len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    out.add(n.args[1].value)
                elif isinstance(n, ast.Call):
                    fn = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
                    if fn == 'namedtuple' and len(n.args) > 1:
                        for x in ast.walk(n.args[1]):
                            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                                out |= set(x.value.replace(',', ' ').split())
                    for k in n.keywords:             # results of option parsers
                        if k.arg == 'dest' and isinstance(k.value, ast.Constant):
                            out.add(k.value.value)
                    if fn in ('add_option', 'add_argument'):
                        for x in n.args:
                            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                                out.add(x.value.lstrip('-').replace('-', '_'))
            for c in m.classes.values():
                out |= c.attrs | set(c.methods) | c.stored
            for i in m.imports.values():
                r = self.module_for(m, i[1])
                if r[0] == 'ext':
                    out |= set(dir(r[1]))
                    for k in dir(r[1]):
                        v = getattr(r[1], k, None)
                        if isinstance(v, type(sys)):
                            out |= set(dir(v))
                        if isinstance(v, type):
                            out |= set(dir(v))
                            try:                                  # attributes its methods store
                                import inspect
                                src = inspect.getsource(v)
                            except (OSError, TypeError):
                                continue
                            import re
                            out |= set(re.findall(r'self\.(\w+)', src))
        for k in dir(builtins):
            v = getattr(builtins, k)
            out |= set(dir(v))
            if isinstance(v, type):
                out |= {a for a in dir(v)}
        import io
        import re
        for v in (type(iter([])), type((x for x in ())), type(lambda: 0), type(io.StringIO()), io.TextIOWrapper, io.BytesIO,
                  type(re.compile('')), type(re.match('', '')), type(sys), type({}.keys())):
            out |= set(dir(v))
        return out | FOREIGN

    def attributes(self, m):
        """attributes nothing in the project, the language or an imported module has"""
        imported = set(m.imports)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and (isinstance(n.ctx, ast.Load) or n.attr in self.raised):
                root = n
                while isinstance(root, (ast.Attribute, ast.Call, ast.Subscript)):
                    root = root.func if isinstance(root, ast.Call) else root.value
                if isinstance(root, ast.Name) and root.id in imported:
                    i = m.imports[root.id]
                    r = self.module_for(m, i[1]) if i[0] == 'module' else self.member(m, i[1], i[2])
                    if r[0] == 'opaque':
                        continue
                self.count('attributes')
                if n.attr not in self.words:
                    where = '<module>'
                    for f in ast.walk(m.tree):
                        if isinstance(f, ast.FunctionDef) and any(x is n for x in ast.walk(f)):
                            where = f.name
                    self.report('NOBODY', m, where, ast.unparse(n)[:60], n, 'nothing has an attribute or method %s' % n.attr)

    def names(self, m):
        def visit(table, where):
            for s in table.get_symbols():
                n = s.get_name()
                glob = s.is_global() if table.get_type() != 'module' else True
                if s.is_referenced() and glob and not (table.get_type() == 'module' and n in m.globals):
                    self.count('global names read')
                    if n not in m.globals and not hasattr(builtins, n) and n not in ('__file__', '__name__', '__path__',
                                                                                     '__doc__', '__package__'):
                        node = next((x for x in ast.walk(scope(m.tree, where)) if isinstance(x, ast.Name) and x.id == n
                                     and isinstance(x.ctx, ast.Load)), None)
                        if node is None or filled(scope(m.tree, where)):
                            continue
                        self.report('UNDEFINED', m, where, n, node, 'the name %s is bound nowhere' % n)
            for c in table.get_children():
                visit(c, (where + '.' if where != '<module>' else '') + c.get_name())
        visit(m.table, '<module>')

    def import_statements(self, m):
        guarded = set()
        for t in ast.walk(m.tree):
            if isinstance(t, ast.Try) and t.handlers:
                for s in t.body:
                    for x in ast.walk(s):
                        guarded.add(id(x))
        for s in ast.walk(m.tree):
            if id(s) in guarded:
                continue
            if isinstance(s, ast.Import):
                for a in s.names:
                    self.count('imports')
                    if self.module_for(m, a.name)[0] == 'missing':
                        self.report('IMPORT', m, 'import', a.name, s, 'there is no module %s' % a.name)
            elif isinstance(s, ast.ImportFrom):
                if s.module == '__future__':
                    continue
                for a in s.names:
                    self.count('imports')
                    src = '.' * s.level + (s.module or '')
                    if a.name != '*' and self.member(m, src, a.name)[0] == 'missing':
                        self.report('IMPORT', m, 'import', '%s.%s' % (src, a.name), s, '%s has no %s' % (src, a.name))


SEQ_METHODS = {'append', 'extend', 'sort', 'remove', 'insert', 'pop', 'index', 'count', 'reverse'}
LAZY = {'map', 'filter', 'zip'}
STOPS = {('sys', 'exit'), ('os', '_exit')}


class Walker:
    """per function: attributes, argument lists, lazy values; then local reads"""

    def __init__(self, project, mod):
        self.p, self.m = project, mod

    def run(self):
        self.body(self.m.tree.body, '<module>', None, None, set())

    def body(self, stmts, where, cls, me, hidden):
        for s in stmts:
            self.stmt(s, where, cls, me, hidden)

    def stmt(self, s, where, cls, me, hidden):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.function(s, where, cls, me, hidden)
        elif isinstance(s, ast.ClassDef):
            c = self.m.classes.get(s.name) if where == '<module>' else None
            if c is not None and c.node is not s:
                c = Cls(self.m, s)
            for x in s.body:
                if isinstance(x, ast.FunctionDef):
                    self.function(x, s.name, c, first_arg(x), set(), method=True)
                else:
                    self.exprs(x, s.name, None, None, hidden)
        else:
            inner = [x for x in ast.iter_child_nodes(s)]
            self.exprs(s, where, cls, me, hidden)

    def exprs(self, s, where, cls, me, hidden):
        """nested function definitions are entered as such"""
        todo = [s]
        while todo:
            n = todo.pop()
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    self.stmt(c, where, cls, me, hidden)
                elif isinstance(c, ast.Lambda):
                    args = {a.arg for a in ast.walk(c.args) if isinstance(a, ast.arg)}
                    self.exprs(c, where, cls, None if me in args else me, hidden | args)
                else:
                    todo.append(c)
            self.node(n, where, cls, me, hidden)

    def function(self, f, where, cls, me, hidden, method=False):
        name = f.name if where == '<module>' else where + '.' + f.name
        self.p.count('functions')
        loc = local_names(f)
        if not method and me in loc:
            me = None
        if method and me and any(isinstance(x, ast.Name) and x.id == me and isinstance(x.ctx, ast.Store) for x in ast.walk(f)):
            me = None
        hid = hidden | loc
        for s in f.body:
            self.exprs(ast.Module([s], []), name, cls, me, hid)
        self.lazies(f, name, hid)
        Flow(self, f, name).run()

    def lazies(self, f, where, hid):
        """a lazy value that is read inside a loop it was made outside of, twice on one path, or as if it were a list"""
        skip = {y.id for x in ast.walk(f) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and
                x.func.id in ('next', 'iter') for y in x.args if isinstance(y, ast.Name)}      # taken element by element
        for x in ast.walk(f):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                skip |= set(x.names)

        def stored(s):
            return {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}

        def go(body, loop, made):
            """made: name -> [loop, uses]; returns whether the block can end normally"""
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    made.pop(s.name, None)
                    continue
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    use(s.value, loop, made)
                    made.pop(s.targets[0].id, None)
                    if self.lazy(s.value, hid) and s.targets[0].id not in skip:
                        made[s.targets[0].id] = [loop, 0]
                    continue
                if isinstance(s, ast.If):
                    use(s.test, loop, made)
                    a = {k: list(v) for k, v in made.items()}
                    b = {k: list(v) for k, v in made.items()}
                    ea, eb = go(s.body, loop, a), go(s.orelse, loop, b)
                    made.clear()
                    for m, e in ((a, ea), (b, eb)):
                        for k, v in m.items():
                            if e and (k not in made or made[k][1] < v[1]):
                                made[k] = v
                    if not ea and not eb:
                        return False
                    continue
                if isinstance(s, (ast.For, ast.While)):
                    if isinstance(s, ast.For):
                        use(s.iter, loop, made)
                        for k in stored(s.target):
                            made.pop(k, None)
                    else:
                        use(s.test, loop + (s,), made)
                    go(s.body, loop + (s,), made)
                    go(s.orelse, loop, made)
                    continue
                for fld, val in ast.iter_fields(s):
                    if isinstance(val, list) and val and isinstance(val[0], ast.stmt):
                        go(val, loop, made)
                    elif isinstance(val, list) and val and isinstance(val[0], ast.ExceptHandler):
                        for h in val:
                            go(h.body, loop, {k: list(v) for k, v in made.items()})
                    elif isinstance(val, (ast.AST, list)):
                        use(val, loop, made)
                if not isinstance(s, (ast.Try, ast.With)):
                    for k in stored(s):
                        made.pop(k, None)
                if isinstance(s, STOP):
                    return False
            return True

        def use(val, loop, made):
            for v in val if isinstance(val, list) else [val]:
                if not isinstance(v, ast.AST):
                    continue
                for x in ast.walk(v):
                    self.misuse(x, lambda e: isinstance(e, ast.Name) and e.id in made, where)
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in made:
                        made[x.id][1] += 1
                        if made[x.id][0] != loop[:len(made[x.id][0])] or len(loop) > len(made[x.id][0]):
                            self.p.report('LAZY', self.m, where, x.id, x, '%s is computed lazily and used up by the first round '
                                          'of the loop' % x.id)
                        elif made[x.id][1] == 2:
                            self.p.report('LAZY', self.m, where, x.id, x, '%s is computed lazily, and a second use finds it '
                                          'empty' % x.id)
        go(f.body, (), {})

    def lazy(self, e, hidden=()):
        if isinstance(e, ast.GeneratorExp):
            return True
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in LAZY and e.func.id not in hidden \
            and e.func.id not in self.m.globals

    def misuse(self, x, is_lazy, where):
        def bad(how, e):
            self.p.report('LAZY', self.m, where, ast.unparse(e)[:60], x,
                          '%s of %s, which Python 3 computes lazily' % (how, ast.unparse(e)[:60]))
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('len',) and x.args and is_lazy(x.args[0]):
            bad('length', x.args[0])
        if isinstance(x, ast.Subscript) and is_lazy(x.value):
            bad('element', x.value)
        if isinstance(x, ast.Attribute) and is_lazy(x.value) and x.attr in SEQ_METHODS:
            bad('method %s' % x.attr, x.value)
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add):
            for o in (x.left, x.right):
                if is_lazy(o):
                    bad('sum', o)
        if isinstance(x, ast.Expr) and is_lazy(x.value):
            bad('no use', x.value)

    def node(self, n, where, cls, me, hidden):
        p, m = self.p, self.m
        self.misuse(n, lambda e: self.lazy(e, hidden), where)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and \
                isinstance(n.func.value.func, ast.Attribute) and n.func.attr in SEQ_METHODS and not n.func.value.args and \
                n.func.value.func.attr in ('keys', 'values', 'items') and not self.lists(n.func.value, cls, me):
            p.report('LAZY', m, where, ast.unparse(n.func)[:60], n, '%s of a dictionary view' % n.func.attr)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Name) and n.value.id not in hidden:
            r = p.resolve(m, n.value.id)
            if r[0] in ('func', 'class') or (r[0] == 'ext' and callable(r[1])):
                p.report('NOCALL', m, where, n.value.id, n, 'the statement "%s" names a function without calling it' % n.value.id)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Attribute) and n.value.attr not in p.stores and (
                n.value.attr in EFFECTS or self.own_method(n.value, cls, me)):
            p.report('NOCALL', m, where, ast.unparse(n.value)[:60], n, 'the statement "%s" names a method without calling it' % ast.unparse(n.value)[:60])
        if isinstance(n, ast.Raise) and isinstance(n.exc, (ast.Tuple, ast.List, ast.Constant, ast.Dict, ast.JoinedStr)):
            p.report('RAISE', m, where, ast.unparse(n.exc)[:60], n, 'what is raised is no exception')
        if isinstance(n, ast.Compare) and any(isinstance(o, (ast.Is, ast.IsNot)) for o in n.ops):
            for c in [n.left] + n.comparators:
                if isinstance(c, ast.Constant) and isinstance(c.value, (str, int, float, bytes)) and \
                        not isinstance(c.value, bool):
                    p.report('IDENTITY', m, where, ast.unparse(n)[:60], n, 'identity with a literal')
        if isinstance(n, ast.Attribute) and (isinstance(n.ctx, ast.Load) or n.attr in p.raised):
            self.attribute(n, where, cls, me, hidden)
        if isinstance(n, ast.Call):
            self.call(n, where, cls, me, hidden)

    def own_method(self, e, cls, me):
        if cls is None or not (isinstance(e.value, ast.Name) and e.value.id == me):
            return False
        for c in self.p.mro(cls)[0]:
            f = c.methods.get(e.attr)
            if f is not None:
                f = getattr(f, 'node', f)
                return isinstance(f, ast.FunctionDef) and not f.decorator_list
        return False

    def lists(self, call, cls, me):
        """does this keys()/values()/items() call go to a class of the project that returns lists?"""
        v = call.func.value
        if isinstance(v, ast.Name) and v.id == me and cls is not None:
            return True
        names = [c.methods[call.func.attr] for mm in self.p.mods.values() if mm.tree is not None for c in mm.classes.values()
                 if call.func.attr in c.methods]
        return False

    def attribute(self, n, where, cls, me, hidden):
        p, m = self.p, self.m
        if isinstance(n.value, ast.Name) and n.value.id == me and cls is not None:
            p.count('attributes of self')
            own, ext, ok = p.mro(cls)
            if not ok or any(c.dynamic for c in own):
                return
            a = n.attr
            if a in p.stores or any(a in c.methods or a in c.attrs or a in c.stored for c in own) or \
                    any(hasattr(e, a) for e in ext + [object]):
                return
            # an abstract class may rely on its subclasses
            for mm in p.mods.values():
                if mm.tree is None:
                    continue
                for c in mm.classes.values():
                    o = p.mro(c)[0]
                    if cls in o and any(a in x.methods or a in x.attrs or a in x.stored for x in o):
                        return
            p.report('ATTRIBUTE', m, where, 'self.' + a, n, 'no class of %s and nothing else has an attribute %s' % (cls.name, a))
            return
        root = n
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(root, ast.Name) and root.id not in hidden and root.id in m.imports:
            if root is n.value and root.id in OPTIONAL and m.imports[root.id][0] == 'member' and p.extension(root.id) is not None:
                p.count('functions of the extension')
                if n.attr not in p.extension(root.id) and not n.attr.startswith('__'):
                    p.report('MEMBER', m, where, ast.unparse(n), n, 'the extension has no %s' % n.attr)
            b = p.value(m, n.value)
            if b[0] in ('own', 'ext') and (b[0] == 'own' or isinstance(b[1], type(sys))):
                p.count('attributes of modules')
                if p.value(m, n)[0] == 'missing':
                    p.report('MEMBER', m, where, ast.unparse(n), n, '%s has no %s' % (ast.unparse(n.value), n.attr))

    def call(self, n, where, cls, me, hidden):
        p, m = self.p, self.m
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return
        f, skip = None, 0
        fn = n.func
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id not in hidden and fn.value.id in OPTIONAL and \
                fn.value.id in m.imports and m.imports[fn.value.id][0] == 'member':
            want = (p.extension(fn.value.id) or {}).get(fn.attr)
            if want is not None and (len(n.args) != want or n.keywords):
                p.report('ARGUMENTS', m, where, ast.unparse(n)[:60], n, 'the extension takes %d arguments there' % want)
            return
        if isinstance(fn, ast.Name):
            if fn.id in hidden:
                return
            r = p.resolve(m, fn.id)
        elif isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Name) and fn.value.id == me and cls is not None:
                own, ext, ok = p.mro(cls)
                if fn.attr in p.stores:
                    return
                for c in own:
                    if fn.attr in c.methods:
                        d = c.methods[fn.attr]
                        deco = [x.id for x in d.decorator_list if isinstance(x, ast.Name)]
                        if d.decorator_list and deco not in (['staticmethod'], ['classmethod']):
                            return
                        self.arity(n, d, 0 if deco == ['staticmethod'] else 1, where, c.mod)
                        return
                return
            root = fn
            while isinstance(root, ast.Attribute):
                root = root.value
            if not isinstance(root, ast.Name) or root.id in hidden:
                return
            r = p.value(m, fn)
            if r[0] == 'opaque' and isinstance(fn.value, (ast.Name, ast.Attribute)):
                b = p.value(m, fn.value)
                if b[0] == 'class' and fn.attr in b[1].methods and not b[1].methods[fn.attr].decorator_list:
                    self.arity(n, b[1].methods[fn.attr], 0, where, b[1].mod)
                return
        else:
            return
        if r[0] == 'func':
            if not r[2].decorator_list:
                self.arity(n, r[2], 0, where, r[1])
        elif r[0] == 'class':
            own, ext, ok = p.mro(r[1])
            if not ok:
                return
            for c in own:
                if '__init__' in c.methods:
                    self.arity(n, c.methods['__init__'], 1, where, c.mod)
                    return
                if any(x is not object for x in ext) and c is own[-1]:
                    return

    def arity(self, n, d, skip, where, mod):
        self.p.count('argument lists')
        r = refused(n, d, skip)
        if r is not None:
            self.p.report('ARGUMENTS', self.m, where, ast.unparse(n)[:70], n, r)


def refused(n, d, skip):
    """why the definition d does not take the arguments of the call n"""
    a = d.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    if len(n.args) > len(pos) and not a.vararg:
        return '%s takes %d arguments' % (d.name, len(pos))
    given = set(pos[:len(n.args)])
    names = set(pos) | {x.arg for x in a.kwonlyargs}
    for k in n.keywords:
        if k.arg in given:
            return '%s is given twice' % k.arg
        if k.arg not in names and not a.kwarg:
            return '%s takes no %s' % (d.name, k.arg)
        given.add(k.arg)
    need = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
    need = need + [x.arg for x, dv in zip(a.kwonlyargs, a.kw_defaults) if dv is None]
    for x in need:
        if x not in given:
            return '%s needs %s' % (d.name, x)
    return None


def local_names(f):
    out = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
    glob = set()

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.Global):
                glob.update(c.names)
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                out.add(c.id)
            elif isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                out.add(c.name)
                continue
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    out.add((a.asname or a.name).split('.')[0])
            elif isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            elif isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            go(c)
    go(f)
    return out - glob


class State:
    __slots__ = ('bound', 'facts')

    def __init__(self, bound, facts):
        self.bound, self.facts = bound, facts

    def key(self):
        return (self.bound, tuple(sorted(self.facts.items())))


class Flow:
    """reads of local names that nothing has bound on some path (loops are taken to run at least once)"""

    def __init__(self, walker, f, where):
        self.w, self.f, self.where = walker, f, where
        self.locals = local_names(f)
        args = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
        nl = {n for s in ast.walk(f) if isinstance(s, ast.Nonlocal) for n in s.names}
        self.locals -= nl
        self.start = State(frozenset(args & self.locals), {})
        self.seen = set()
        self.cut = False

    def run(self):
        self.loops = []
        self.block(self.f.body, [self.start])

    def merge(self, states):
        out = {}
        for s in states:
            out.setdefault(s.key(), s)
        states = list(out.values())
        if len(states) > TRY_LIMIT:
            by = {}
            for s in states:
                if s.bound in by:
                    o = by[s.bound]
                    by[s.bound] = State(s.bound, {k: v for k, v in s.facts.items() if o.facts.get(k) == v})
                else:
                    by[s.bound] = s
            states = list(by.values())
            if len(states) > TRY_LIMIT:
                b = frozenset.union(*[s.bound for s in states])
                states = [State(b, {})]
        return states

    def block(self, stmts, states, points=None):
        for s in stmts:
            if not states:
                return states
            if points is not None:
                points.extend(states)
            states = self.merge(self.stmt(s, states))
        if points is not None:
            points.extend(states)
        return states

    # ---- expressions
    def reads(self, e, states, inner=frozenset()):
        if e is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.locals and e.id not in inner:
                self.w.p.count('local reads') if (e.lineno, e.col_offset) not in self.seen else None
                if any(e.id not in s.bound for s in states) and (e.lineno, e.col_offset) not in self.seen:
                    self.w.p.report('UNBOUND', self.w.m, self.where, e.id, e,
                                    'there is a path on which %s is read without a value' % e.id)
                self.seen.add((e.lineno, e.col_offset))
            return
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                self.reads(d, states, inner)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inn = set(inner)
            first = True
            for g in e.generators:
                self.reads(g.iter, states, frozenset(inn))
                inn |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for c in g.ifs:
                    self.reads(c, states, frozenset(inn))
            for x in ((e.key, e.value) if isinstance(e, ast.DictComp) else (e.elt,)):
                self.reads(x, states, frozenset(inn))
            return
        if isinstance(e, ast.BoolOp):
            cur = states
            for v in e.values:
                if not cur:
                    break
                self.reads(v, cur, inner)
                cur = self.assume(v, cur, isinstance(e.op, ast.And))
            return
        if isinstance(e, ast.IfExp):
            self.reads(e.test, states, inner)
            self.reads(e.body, self.assume(e.test, states, True), inner)
            self.reads(e.orelse, self.assume(e.test, states, False), inner)
            return
        if isinstance(e, ast.NamedExpr):
            self.reads(e.value, states, inner)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.Slice)):
                self.reads(c, states, inner)

    def fact(self, t):
        """(key, value when true)"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            k, v = self.fact(t.operand)
            return k, not v
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            op = type(t.ops[0])
            flip = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.Gt: ast.LtE}
            if op in flip:
                u = ast.Compare(t.left, [flip[op]()], t.comparators)
                return ast.dump(u), False
        return ast.dump(t), True

    def assume(self, t, states, outcome):
        if isinstance(t, ast.Constant):
            return states if bool(t.value) == outcome else []
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.assume(t.operand, states, not outcome)
        if isinstance(t, ast.BoolOp):
            conj = isinstance(t.op, ast.And) == outcome
            if conj:
                for v in t.values:
                    states = self.assume(v, states, outcome)
                return states
            out, cur = [], states
            for v in t.values:
                out += self.assume(v, cur, outcome)
                cur = self.assume(v, cur, not outcome)
            return self.merge(out)
        k, v = self.fact(t)
        want = v == outcome
        out = []
        for s in states:
            if k in s.facts:
                if s.facts[k] == want:
                    out.append(s)
                continue
            f = dict(s.facts)
            f[k] = want
            # x == 'a' excludes x == 'b'
            if want and isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.NotEq)) and \
                    isinstance(t.comparators[0], ast.Constant):
                left = ast.dump(t.left)
                clash = False
                for k2, v2 in s.facts.items():
                    if v2 and k2.startswith('Compare(left=%s, ops=[Eq()]' % left) and k2 != k:
                        clash = True
                if clash:
                    continue
            out.append(State(s.bound, f))
        return out

    def bind(self, names, states):
        out = []
        for s in states:
            f = {k: v for k, v in s.facts.items() if not any(("id='%s'" % n) in k for n in names)}
            out.append(State(s.bound | (frozenset(names) & self.locals), f))
        return out

    def targets(self, t, states):
        if isinstance(t, ast.Name):
            return self.bind([t.id], states)
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                states = self.targets(e, states)
            return states
        if isinstance(t, ast.Starred):
            return self.targets(t.value, states)
        for c in ast.iter_child_nodes(t):
            if isinstance(c, (ast.expr, ast.Slice)):
                self.reads(c, states)
        # a store to an attribute or element can change what tests on it say
        base = t
        while isinstance(base, (ast.Attribute, ast.Subscript)):
            base = base.value
        if isinstance(base, ast.Name):
            states = [State(s.bound, {k: v for k, v in s.facts.items()
                                      if not (("id='%s'" % base.id) in k and ('Attribute' in k or 'Subscript' in k))})
                      for s in states]
        return states

    def walrus(self, e, states):
        names = [x.target.id for x in ast.walk(e) if isinstance(x, ast.NamedExpr)] if e is not None else []
        return self.bind(names, states) if names else states

    # ---- statements
    def stmt(self, s, states):
        k = type(s).__name__
        m = getattr(self, 's_' + k, None)
        if m:
            return m(s, states)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            for d in getattr(s, 'decorator_list', []):
                self.reads(d, states)
            if isinstance(s, ast.FunctionDef):
                for d in s.args.defaults:
                    self.reads(d, states)
            return self.bind([s.name], states)
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.reads(c, states)
        return states

    def s_Expr(self, s, states):
        self.reads(s.value, states)
        states = self.walrus(s.value, states)
        if self.ends(s.value):
            return []
        # a call may change what tests on its object say
        return states

    def ends(self, e):
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and (f.value.id, f.attr) in STOPS:
                return True
            return isinstance(f, ast.Name) and f.id in ('exit', 'quit') and f.id not in self.locals
        return False

    def s_Assign(self, s, states):
        self.reads(s.value, states)
        states = self.walrus(s.value, states)
        for t in s.targets:
            states = self.targets(t, states)
        known = None
        if isinstance(s.value, ast.Constant):
            known = s.value.value
        elif isinstance(s.value, (ast.List, ast.Tuple, ast.Set)) and not any(isinstance(x, ast.Starred) for x in s.value.elts):
            known = bool(s.value.elts)
        elif isinstance(s.value, ast.Dict) and not s.value.keys:
            known = False
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and (known is not None or
                                                                           isinstance(s.value, ast.Constant)):
            n, c = s.targets[0].id, known
            name = ast.Name(n, ast.Load())
            out = []
            for st in states:
                f = dict(st.facts)
                f[ast.dump(name)] = bool(c)
                f[ast.dump(ast.Compare(name, [ast.Is()], [ast.Constant(None)]))] = c is None
                out.append(State(st.bound, f))
            states = out
        return states

    def s_AnnAssign(self, s, states):
        if s.value is not None:
            self.reads(s.value, states)
            return self.targets(s.target, states)
        return states

    def s_AugAssign(self, s, states):
        self.reads(s.value, states)
        t = s.target
        if isinstance(t, ast.Name):
            n = ast.copy_location(ast.Name(t.id, ast.Load()), t)
            self.reads(n, states)
        return self.targets(t, states)

    def s_Delete(self, s, states):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.reads(ast.copy_location(ast.Name(t.id, ast.Load()), t), states)
                states = [State(x.bound - {t.id}, x.facts) for x in states]
            else:
                states = self.targets(t, states)
        return states

    def s_Import(self, s, states):
        return self.bind([(a.asname or a.name).split('.')[0] for a in s.names], states)

    s_ImportFrom = s_Import

    def s_Return(self, s, states):
        self.reads(s.value, states)
        return []

    def s_Raise(self, s, states):
        self.reads(s.exc, states)
        self.reads(s.cause, states)
        return []

    def s_Assert(self, s, states):
        self.reads(s.test, states)
        r = self.assume(s.test, states, True)
        self.reads(s.msg, self.assume(s.test, states, False))
        return r

    def s_Break(self, s, states):
        self.loops[-1][0].extend(states)
        return []

    def s_Continue(self, s, states):
        self.loops[-1][1].extend(states)
        return []

    def s_If(self, s, states):
        self.reads(s.test, states)
        states = self.walrus(s.test, states)
        a = self.block(s.body, self.assume(s.test, states, True))
        b = self.block(s.orelse, self.assume(s.test, states, False))
        return a + b

    def clear(self, body, states):
        """facts that the body of a loop may change"""
        names = {x.id for b in body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        return [State(s.bound, {k: v for k, v in s.facts.items() if not any(("id='%s'" % n) in k for n in names)
                                and 'Call' not in k}) for s in states]

    def s_For(self, s, states):
        self.reads(s.iter, states)
        states = self.targets(s.target, states)
        return self.loop(s, states, None)

    s_AsyncFor = s_For

    def s_While(self, s, states):
        self.reads(s.test, states)
        states = self.walrus(s.test, states)
        return self.loop(s, states, s.test)

    def loop(self, s, states, test):
        brk, cont = [], []
        self.loops.append((brk, cont))
        inside = states if test is None else self.assume(test, states, True)
        if not inside:
            inside = states
        end = self.block(s.body, inside) + cont
        self.loops.pop()
        end = self.clear(s.body, self.merge(end))
        if test is not None:
            if isinstance(test, ast.Constant) and test.value:
                end = []
            else:
                end = [State(x.bound, {k: v for k, v in x.facts.items() if k != self.fact(test)[0]}) for x in end]
                end = self.assume(test, end, False)
        if not end and not brk and not (isinstance(test, ast.Constant) and test.value):
            end = self.clear(s.body, states)      # every pass leaves the function; the loop may also not run
        end = self.block(s.orelse, end)
        return end + self.clear(s.body, brk) if False else end + brk

    def s_With(self, s, states):
        for i in s.items:
            self.reads(i.context_expr, states)
            if i.optional_vars is not None:
                states = self.targets(i.optional_vars, states)
        return self.block(s.body, states)

    def s_Try(self, s, states):
        points = []
        end = self.block(s.body, states, points)
        points = self.merge([x for x in points[:]])
        outs = self.block(s.orelse, end)
        for h in s.handlers:
            st = points
            if h.type is not None:
                self.reads(h.type, st)
            if h.name:
                st = self.bind([h.name], st)
            st = self.block(h.body, st)
            if h.name:
                st = [State(x.bound - {h.name}, x.facts) for x in st]
            outs = outs + st
        if s.finalbody:
            if not outs:
                self.block(s.finalbody, self.merge(points))
                return []
            outs = self.block(s.finalbody, self.merge(outs))
        return outs

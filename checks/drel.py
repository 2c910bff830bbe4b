"""The dREL lexer and grammar as read from the source: PLY's rules of combination applied to the syntax tree of
drel_lex.py and drel_ast_yacc.py."""
import ast

from sa import lalr, mini, program
from sa.mini import Abs, Native, Inst, Raise, Cut, Unsupported, Opaque

LEX, YACC = 'src/drel/drel_lex.py', 'src/drel/drel_ast_yacc.py'


def tree_of(path):
    lines, locs = program.read_source(path, None)
    try:
        return ast.parse('\n'.join(lines))
    except SyntaxError as e:
        raise program.AnalysisBroken('%s does not parse: %s' % (path, e))


class LexInterp(mini.Interp):
    """module level of the lexer: constants, functions"""

    def __init__(self, dec, tree):
        mini.Interp.__init__(self, dec)
        self.globals.vars['__name__'] = 'CifFile.drel.drel_lex'
        import re
        for n in ('MULTILINE', 'VERBOSE', 'IGNORECASE', 'DOTALL', 'M', 'X', 'I', 'S', 'UNICODE', 'U', 'ASCII', 'A'):
            pass
        self.globals.vars['re'] = ReFlags()
        self.globals.vars['lex'] = LexModule()
        self.globals.vars['ply'] = Opaque('ply')
        self.order = []
        for n in tree.body:
            self.module_statement(n)

    def module_statement(self, n):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and \
                n.test.left.id == '__name__':
            return
        if isinstance(n, ast.FunctionDef):
            plain = ast.FunctionDef(**{f: getattr(n, f) for f in n._fields})
            plain.decorator_list = []
            ast.copy_location(plain, n)
            self.stmt(plain, self.globals)
            f = self.globals.vars[n.name]
            f.regex = ast.get_docstring(n, clean=False)
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, 'attr', getattr(d.func, 'id', '')) == 'TOKEN':
                    f.regex = self.expr(d.args[0], self.globals)
                else:
                    raise Unsupported('decorator on %s' % n.name)
            return
        self.stmt(n, self.globals)


class ReFlags(Abs):
    kind = 're'

    def getattr(self, it, name):
        import re
        if hasattr(re, name) and isinstance(getattr(re, name), (int, re.RegexFlag)):
            return int(getattr(re, name))
        if name == 'escape':
            return Native('escape', re.escape)
        raise Unsupported('re.%s' % name)


class LexModule(Abs):
    kind = 'ply.lex'

    def __init__(self):
        self.calls = []

    def getattr(self, it, name):
        if name == 'lex':
            def lex(*a, **k):
                self.calls.append((a, k))
                return Opaque('lexer')
            return Native('lex', lex)
        return Opaque('ply.lex.' + name)


class Rule:
    def __init__(self, name, regex, func, line):
        self.name, self.regex, self.func, self.line = name, regex, func, line


class Lexer:
    """PLY's view of the module"""

    def __init__(self, tree, dec=None):
        import re
        self.it = it = LexInterp(dec or mini.Decisions(), tree)
        g = it.globals.vars
        mod = g['lex']
        if not isinstance(mod, LexModule) or len(mod.calls) != 1:
            raise program.AnalysisBroken('one call of lex.lex expected in ' + LEX)
        a, k = mod.calls[0]
        if a or set(k) - {'reflags', 'debug', 'optimize', 'errorlog', 'debuglog'} or k.get('optimize'):
            raise program.AnalysisBroken('arguments of lex.lex not understood')
        self.flags = k.get('reflags', int(re.VERBOSE))
        self.tokens = list(g.get('tokens', ()))
        self.literals = list(g.get('literals', ''))
        self.states = {'INITIAL': 'inclusive'}
        for s, t in g.get('states', ()):
            self.states[s] = t
        self.ignore = {s: '' for s in self.states}
        self.error, self.eof = {}, {}
        funcs = {s: [] for s in self.states}
        strs = {s: [] for s in self.states}
        for name, v in g.items():
            if not name.startswith('t_'):
                continue
            parts = name.split('_')
            i = 1
            while i < len(parts) and (parts[i] in self.states or parts[i] == 'ANY'):
                i += 1
            states = parts[1:i] or ['INITIAL']
            if 'ANY' in states:
                states = list(self.states)
            tok = '_'.join(parts[i:])
            for s in states:
                if isinstance(v, mini.Func):
                    if tok == 'error':
                        self.error[s] = v
                    elif tok == 'eof':
                        self.eof[s] = v
                    elif tok == 'ignore':
                        raise program.AnalysisBroken('t_ignore has to be a string')
                    else:
                        if not isinstance(v.regex, str):
                            raise program.AnalysisBroken('no regular expression for ' + name)
                        funcs[s].append(Rule(tok, v.regex, v, v.node.lineno))
                elif isinstance(v, str):
                    if tok == 'ignore':
                        self.ignore[s] = v
                    else:
                        strs[s].append(Rule(tok, v, None, 0))
        self.rules = {}
        for s in self.states:
            self.rules[s] = sorted(funcs[s], key=lambda r: r.line) + \
                sorted(strs[s], key=lambda r: len(r.regex), reverse=True)
        for s, t in self.states.items():
            if s != 'INITIAL' and t == 'inclusive':
                self.rules[s] = self.rules[s] + self.rules['INITIAL']
                if s not in self.error and 'INITIAL' in self.error:
                    self.error[s] = self.error['INITIAL']
                self.ignore[s] = self.ignore[s] or self.ignore['INITIAL']


def grammar(tree, terminals, dec=None):
    """(Grammar, interpreter holding the p_ functions)"""
    it = YaccInterp(dec or mini.Decisions(), tree)
    g = it.globals.vars
    prec = {}
    for lvl, row in enumerate(g.get('precedence', ()), 1):
        for t in row[1:]:
            prec[t] = (row[0], lvl)
    fs = sorted((f for n, f in g.items() if n.startswith('p_') and n != 'p_error' and isinstance(f, mini.Func)),
                key=lambda f: f.node.lineno)
    rules = []
    for f in fs:
        doc = ast.get_docstring(f.node, clean=False)
        if not doc:
            continue
        for left, syms, p, line in lalr.parse_rules(doc, f.node.lineno, f.name):
            rules.append((left, syms, p, line, f))
    if not rules:
        raise program.AnalysisBroken('no grammar rules in ' + YACC)
    mod = g['yacc']
    start = g.get('start')
    for a, k in mod.calls:
        start = k.get('start', start)
    return lalr.Grammar(rules, terminals, prec, start), it


class YaccModule(Abs):
    kind = 'ply.yacc'

    def __init__(self):
        self.calls = []

    def getattr(self, it, name):
        if name == 'yacc':
            def yacc(*a, **k):
                self.calls.append((a, k))
                return Opaque('parser')
            return Native('yacc', yacc)
        return Opaque('ply.yacc.' + name)


class YaccInterp(mini.Interp):
    def __init__(self, dec, tree):
        mini.Interp.__init__(self, dec)
        g = self.globals.vars
        g['__name__'] = 'CifFile.drel.drel_ast_yacc'
        g['yacc'] = YaccModule()
        g['lexer'] = Opaque('lexer')
        g['tokens'] = ()
        for n in tree.body:
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                continue
            if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and \
                    n.test.left.id == '__name__':
                continue
            self.stmt(n, self.globals)


class P(Abs):
    """the production object handed to a p_ function"""
    kind = 'production'

    def __init__(self, values):
        self.values = [None] + list(values)

    def getitem(self, it, k):
        try:
            return self.values[k]
        except (IndexError, TypeError) as e:
            raise Raise(Inst(type(e), {'args': e.args}))

    def setitem(self, it, k, v):
        try:
            self.values[k] = v
        except (IndexError, TypeError) as e:
            raise Raise(Inst(type(e), {'args': e.args}))

    def length(self, it):
        return len(self.values)

    def iterate(self, it):
        return list(self.values)

    def getattr(self, it, name):
        if name in ('lexer', 'parser', 'slice', 'stack'):
            return Opaque('p.' + name)
        if name in ('lineno', 'lexpos', 'linespan', 'lexspan', 'set_lineno'):
            return Native(name, lambda *a: 0)
        raise Raise(Inst(AttributeError, {'args': (name,)}))


def act(it):
    def run(prod, values):
        p = P(values)
        it.steps = 60000
        it.call(prod.func, [p])
        return p.values[0]
    return run

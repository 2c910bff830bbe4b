"""Everything `_formatstring` and `_format_key` can return, as a regular language of texts per delimiter, against the tokens and the
actions of the grammars: the written text is taken whole by one value token whatever follows, and its action gives the value back."""
import ast

from sa import lang, mini, program, relang
from sa.mini import Abs, Cut, Env, Inst, Native, Raise
from sa.program import AnalysisBroken
from . import c05, c08, c09, gramset, writer
from .writer import Cat, FREE, Made

GRAMMARS = ('1.0', '1.1', '2.0', 'STAR2')
FOLLOW = {'1.0': ' \n', '1.1': ' \n', '2.0': ' \n]}', 'STAR2': ' \n,]}'}
DELIMS = (None, "'", '"', '\n;', "'''", '"""', 'other')
SC = ('start_sc_line', 'sc_line_of_text', 'end_sc_line')
NAMES = {'1.0': 'ascii', '1.1': 'ascii', '2.0': 'unicode', 'STAR2': 'unicode'}


class Buffer(Abs):
    """StringIO holding the pieces of a text field"""
    kind = 'buffer'

    def __init__(self):
        self.parts = []

    def getattr(self, it, name):
        if name == 'write':
            return Native(name, self.parts.append)
        if name == 'getvalue':
            return Native(name, self.value)
        return Native(name, lambda *a: None)

    def value(self):
        if all(isinstance(p, Piece) for p in self.parts):
            n = [p.n for p in self.parts]
            if n[:1] == [0] and n[-1:] == [2] and all(x == 1 for x in n[1:-1]):
                return self.parts[0].whole
        return Made()


class Piece(Abs):
    kind = 'piece'

    def __init__(self, n, whole):
        self.n, self.whole = n, whole

    def key(self):
        return ('piece', self.n)

    def getattr(self, it, name):
        return Native(name, lambda *a, **k: Made())


class Tools:
    def __init__(self, ctx):
        self.ctx = ctx
        self.prog = program.Program(['StarFile'])
        self.mod = self.prog.modules['StarFile']
        self.path = self.mod.path if hasattr(self.mod, 'path') else 'src/StarFile.nw'
        self.fmt = self.prog.method('StarBlock', '_formatstring')
        self.key = self.prog.method('StarBlock', '_format_key')
        self.grams = {g: gramset.Gram(g) for g in GRAMMARS}
        self.helpers = {g: helper(self.grams[g]) for g in GRAMMARS}
        self.checks = self.char_checks()
        singles, pats = set(), []
        trees = [self.fmt.node, self.key.node]
        trees += [self.mod.functions[n].node for n in ('remove_line_folding', 'remove_line_prefix') if n in self.mod.functions]
        for h in self.helpers.values():
            trees += [n for n in h.body if isinstance(n, ast.FunctionDef) and n.name.startswith('strip')]
        for t in trees:
            for n in ast.walk(t):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and not docstring(t, n):
                    singles |= set(n.value)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.args and \
                        n.func.attr in ('search', 'match', 'compile', 'fullmatch'):
                    p = constant(n.args[0])
                    if p is not None:
                        pats.append((p, sum(int(writer.RE_FLAGS.get(x.attr, 0)) for k in n.keywords if k.arg == 'flags'
                                            for x in ast.walk(k.value) if isinstance(x, ast.Attribute))))
        singles |= set(' \n\r\t,]}[{:;\'"#_$')
        progs = [relang.Prog(p, f) for p, f in pats]
        for g in self.grams.values():
            for n, p, ign in g.order:
                progs.append(relang.Prog(p))
        progs.append(relang.Prog('\r(?!\n)'))
        for p in self.checks.values():
            progs.append(relang.Prog(p))
        self.al = lang.Alphabet(progs, ''.join(sorted(singles)))
        self.world = writer.World(self.al)
        self.legal = {}
        for k, p in self.checks.items():
            L = lang.regex(self.al, p, 0, 'fullmatch') | lang.word(self.al, '')
            self.legal[k] = L - lang.contains(self.al, '\r')

    def char_checks(self):
        out = {}
        for c in self.mod.classes.values():
            for f in c.methods.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.If) and 'characterset' in ast.dump(n.test):
                        got = compiled(n)
                        if 'ascii' in got and 'unicode' in got:
                            out = got
        if 'ascii' not in out:
            raise AnalysisBroken('the patterns of char_check are not found')
        return out

    def make_writer(self, grammar):
        """interpreter factory for the methods of a block with the given output grammar"""
        sg = self.prog.method('StarBlock', 'set_grammar')

        def make(d, L):
            it = writer.Interp(d, self.world, L, steps=200000)
            it.globals.vars.update(apply_line_folding=Native('fold', lambda *a, **k: Made()),
                                   apply_line_prefix=Native('prefix', lambda *a, **k: Made()))
            for n in ('remove_line_folding', 'remove_line_prefix'):
                it.stmt(self.mod.functions[n].node, it.globals)
            for c in ('StarError', 'StarLengthError'):
                it.globals.vars[c] = mini.ClassVal(c, {}, bases=(Exception,))
            return it
        it = make(mini.Decisions(), lang.everything(self.al))
        me = Inst('StarBlock', {'maxoutlength': FREE, 'wraplength': FREE})
        it.stmt(sg.node, it.globals)
        try:
            it.call(it.globals.vars[sg.node.name], [me, grammar])
        except Raise as e:
            raise AnalysisBroken('set_grammar(%r) raises %s' % (grammar, e.exc))
        return make, me


def helper(g):
    return ast.parse('\n'.join(g.pre))


def docstring(f, n):
    b = f.body[0] if isinstance(f, ast.FunctionDef) and f.body else None
    return isinstance(b, ast.Expr) and b.value is n


def constant(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = constant(e.left), constant(e.right)
        return a + b if a is not None and b is not None else None
    return None


def compiled(n):
    """{'ascii': pattern, 'unicode': pattern} of an if on the character set"""
    out = {}
    t = n.test
    if isinstance(t, ast.Compare) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value == 'ascii':
        for k, body in (('ascii', n.body), ('unicode', n.orelse)):
            ps = [constant(c.args[0]) for s in body for c in ast.walk(s)
                  if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'compile' and c.args]
            ps = [p for p in ps if p is not None]
            if ps:
                out[k] = max(ps, key=len)
    return out


def written(tools, grammar, func, cases):
    """[(value returned, Lang)], raised"""
    make, me = tools.make_writer(grammar)
    if cases is None:
        more = [x for x in me.attrs.get('string_delimiters', []) if x not in DELIMS]
        cases = [{'delimiter': d} for d in list(DELIMS) + more]
    out = {}
    raised = {}
    r = None
    for extra in cases:
        r = writer.Runner(tools.world, make)
        args = dict(extra)
        names = [a.arg for a in func.node.args.args]
        args[names[0]] = me
        args[names[1]] = Cat()
        ret, rai = r.run(func.node, args, tools.legal[NAMES[grammar]])
        for k, (L, v) in ret.items():
            out[k] = (out[k][0] | L, v) if k in out else (L, v)
        for k, (L, v) in rai.items():
            raised[k] = (raised[k][0] | L, v) if k in raised else (L, v)
        tools.ctx.count('statements_interpreted', r.steps)
    return out, raised


def covering(tools, g, token, follow):
    """texts that this token takes whole at a place of a value, ahead of everything else looked for there"""
    al = tools.al
    key = ('cover', g.name, token, follow)
    if key in tools.world.memo:
        return tools.world.memo[key]
    names = [n for n, p, i in g.order]
    at = names.index(token)
    if token == SC[0]:
        line, end = g.tokens[SC[1]], g.tokens[SC[2]]
        pat = '(?:%s)(?:%s)*(?:%s)' % (g.tokens[token], line, end)
        L = writer.taken(al, pat, follow)
    else:
        L = writer.taken(al, g.tokens[token], follow)
    wanted = g.wanted('data_value')
    for i, (n, p, ign) in enumerate(g.order):
        if n == token or not (ign or n in wanted):
            continue
        if token == SC[0]:
            continue
        L = L - writer.worse(al, p, follow, None, i < at)
    tools.world.memo[key] = L
    tools.ctx.count('token_languages')
    return L


def read(tools, g, token, rule, value, L):
    """[(Lang, result)] of the actions of the rule on a text that the token takes"""
    out = []

    def run(d):
        it = writer.Interp(d, tools.world, L, steps=200000)
        it.globals.vars['StringIO'] = Native('StringIO', lambda *a: Buffer())
        for n in ('remove_line_folding', 'remove_line_prefix'):
            it.stmt(tools.mod.functions[n].node, it.globals)
        for n in tools.helpers[g.name].body:
            if isinstance(n, ast.FunctionDef):
                it.stmt(n, it.globals)
        it.globals.vars['lastval'] = ''
        used = []

        def call(name):
            env = Env(it.globals)
            try:
                node(g.rules[name], env)
            except mini._Return as r:
                return r.value
            return None

        def node(n, env):
            k = n[0]
            if k == 'E':
                it.block(ast.parse(n[1]).body, env)
            elif k == 'T':
                if token == SC[0] and n[1] in SC:
                    env.vars[n[1]] = Piece(SC.index(n[1]), value)
                    used.append(n[1])
                elif n[1] == token and not used:
                    env.vars[n[1]] = value
                    used.append(n[1])
                else:
                    raise Cut('another token')
            elif k == 'N':
                if token not in g.ref.fst[n[1]] and not used:
                    raise Cut('another rule')
                env.vars[n[1]] = call(n[1])
            elif k == 'S':
                for c in n[1:]:
                    node(c, env)
            elif k == 'C':
                node(n[1 + it.choose(len(n) - 1)], env)
            elif k == 'O' or k == 'R':
                if it.choose_bool():
                    node(n[1], env)
            elif k == 'P':
                node(n[1], env)
        try:
            r = call(rule)
        except Raise as e:
            return it.now, e
        return it.now, r
    for now, r in mini.explore(run, limit=5000):
        out.append((now, r))
    if not out:
        raise AnalysisBroken('%s: no path of rule %s takes %s' % (g.name, rule, token))
    return out


def judge(tools, grammar, func, what, got, follow, rule):
    ctx, al, g = tools.ctx, tools.al, tools.grams[grammar]
    for key, (L, v) in sorted(got.items(), key=str):
        if L.empty():
            continue
        if isinstance(v, Made):
            ctx.count('returns_through_protocols')
            continue
        if not isinstance(v, Cat):
            ctx.violation('writer-shape', '%s|%s' % (func.node.name, key[0]),
                          '%s gives %s back for a value like %r' % (func.node.name, show(v), L.sample()), where(tools, func))
            continue
        ctx.count('obligations')
        left = L
        told = []
        if not v.pre.startswith('\n'):
            start = lang.regex(al, g.tokens[SC[0]], 0, 'match').quotient('\n' + v.pre, v.post + '\n')
            bad = L & start
            if not bad.empty():
                ctx.violation('line-start', '%s|%s|%s' % (func.node.name, grammar, v.show()),
                              'grammar %s: %r, written as %r, starts a text field when it is put at the start of a line' %
                              (grammar, bad.sample(), v.pre + bad.sample() + v.post), where(tools, func))
        for token in sorted(g.ref.fst[rule]):
            if token not in g.tokens or left.empty():
                continue
            take = left & covering(tools, g, token, follow).quotient(v.pre, v.post)
            if take.empty():
                continue
            for now, r in read(tools, g, token, rule, v, take):
                if isinstance(r, Cat) and r.key() == Cat().key():
                    left = left - now
                elif not now.empty():
                    told.append((token, now, r))
        # a path is wrong for its texts even when another path of the same token would do
        for token, now, r in told:
            left = left | (now & L)
        if not left.empty():
            s = left.sample()
            how = ''
            for token, now, r in told:
                if not (now & left).empty():
                    s = (now & left).sample()
                    how = ': read as %s' % (show(r))
            ctx.violation('read-back', '%s|%s|%s' % (func.node.name, grammar, v.show()),
                          'grammar %s: the value %r is written as %r, which is not one value token with that value%s' %
                          (grammar, s, v.pre + s + v.post, how), where(tools, func))


def show(v):
    return 'another text' if isinstance(v, Made) else v.show() if isinstance(v, Cat) else \
        'an exception (%s)' % v.exc if isinstance(v, Raise) else repr(v)


def where(tools, func):
    return func.loc() if callable(getattr(func, 'loc', None)) else getattr(func, 'loc', tools.path)


def fields(tools, grammar):
    """a line of a text field is not taken for anything else"""
    ctx, al, g = tools.ctx, tools.al, tools.grams[grammar]
    names = [n for n, p, i in g.order]
    if not all(n in names for n in SC):
        raise AnalysisBroken('%s: no tokens of text fields' % grammar)
    follow = [chr(s) for s in al.syms if chr(s) not in '\n\r']
    for token in (SC[1], SC[2]):
        base = lang.regex(al, g.tokens[token], 0, 'fullmatch') - lang.regex(al, '\r(?!\n)', 0, 'search')
        at = names.index(token)
        for i, (n, p, ign) in enumerate(g.order):
            if n == token or not (ign or n in SC[1:]):
                continue
            bad = base & writer.worse(al, p, ''.join(follow), None, i < at)
            ctx.count('obligations')
            if not bad.empty():
                s = bad.sample()
                ctx.violation('field-line', '%s|%s|%s' % (grammar, token, 'ignored' if ign else n),
                              'grammar %s: the line %r of a text field is taken by %s %r' %
                              (grammar, s, 'the ignored pattern' if ign else 'the token', n), g.path)


def datanames(tools, grammar):
    """the characters of the data names that a block accepts are those of the data_name token"""
    ctx, g = tools.ctx, tools.grams[grammar]
    f = tools.prog.method('StarBlock', 'check_data_name')
    good = accepted(tools, f, NAMES[grammar])
    m = relang.Match(relang.Prog(g.tokens['data_name']))
    st = m.step(m.initial(), ord('_'))
    bounds = relang.boundaries(m.prog)
    token = []
    bounds = sorted(x for x in set(bounds) | {0, relang.MAXCP + 1} if x <= relang.MAXCP + 1)
    for a, b in zip(bounds, bounds[1:]):
        if m.result(m.step(m.step(st, a), relang.MARK)) == 'exact':
            token.append((a, b - 1))
    token = relang.norm(token)
    ctx.count('obligations', len(token) + len(good))
    for x, y, why in ((good, token, 'is accepted in a data name, but not read as a part of one'),
                      (token, good, 'can stand in a data name, but a block refuses it')):
        d = relang.norm(minus(x, y))
        if d:
            ctx.violation('data-name', '%s|%s' % (NAMES[grammar], 'refused' if x is token else 'accepted'),
                          'grammar %s: the character U+%04X %s' % (grammar, d[0][0], why), where(tools, f))


def minus(x, y):
    out = []
    for a, b in x:
        for c, d in y:
            if d < a or c > b:
                continue
            if c > a:
                out.append((a, c - 1))
            a = d + 1
            if a > b:
                break
        if a <= b:
            out.append((a, b))
    return out


def accepted(tools, f, charset):
    """the characters that no test of check_data_name refuses, as ranges"""
    key = ('names', charset)
    if key in tools.world.memo:
        return tools.world.memo[key]
    bad = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.If) and 'characterset' in ast.dump(n.test):
            t = n.test
            if not (isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.Eq) and t.comparators[0].value == 'ascii'):
                raise AnalysisBroken('test of the character set in check_data_name')
            for s in (n.body if charset == 'ascii' else n.orelse):
                for c in ast.walk(s):
                    if isinstance(c, (ast.ListComp, ast.GeneratorExp)) and c.generators[0].ifs:
                        for cond in c.generators[0].ifs:
                            bad.append((c.generators[0].target.id, cond))
    if not bad:
        raise AnalysisBroken('no test of characters in check_data_name')
    terms = [condition(cond, name) for name, cond in bad]
    f = eval('lambda c: not (%s)' % ' or '.join(terms), {})          # comparisons of numbers only, see condition()
    good = relang.from_pred(lambda c: f(ord(c)))
    tools.world.memo[key] = good
    return good


def condition(e, name):
    """a condition on ord(name), as an expression in the code point c"""
    if isinstance(e, ast.BoolOp):
        return '(%s)' % (' and ' if isinstance(e.op, ast.And) else ' or ').join(condition(v, name) for v in e.values)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return '(not %s)' % condition(e.operand, name)
    if isinstance(e, ast.Compare) and all(type(o).__name__ in COMPARISONS for o in e.ops):
        out = number(e.left, name)
        for o, x in zip(e.ops, e.comparators):
            out += ' %s %s' % (COMPARISONS[type(o).__name__], number(x, name))
        return '(%s)' % out
    raise AnalysisBroken('condition in check_data_name: %s' % ast.unparse(e))


COMPARISONS = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}
ARITHMETIC = {'Add': '+', 'Sub': '-', 'BitAnd': '&', 'BitOr': '|', 'BitXor': '^', 'RShift': '>>', 'FloorDiv': '//', 'Mod': '%'}


def number(e, name):
    if isinstance(e, ast.Constant) and isinstance(e.value, int):
        return str(e.value)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'ord' and isinstance(e.args[0], ast.Name) \
            and e.args[0].id == name:
        return 'c'
    if isinstance(e, ast.BinOp) and type(e.op).__name__ in ARITHMETIC:
        return '(%s %s %s)' % (number(e.left, name), ARITHMETIC[type(e.op).__name__], number(e.right, name))
    raise AnalysisBroken('number in check_data_name: %s' % ast.unparse(e))


class Blank(Abs):
    """a text of blanks and line ends of unknown length (at least `least`)"""
    kind = 'blank'

    def __init__(self, least=0):
        self.least = least

    def key(self):
        return ('blank', self.least)

    def truth(self, it):
        return self.least > 0 or it.choose_bool()

    def binop(self, it, op, other, reflected):
        if op == 'Add' and isinstance(other, str) and not other.strip(' \n\t'):
            return Blank(self.least + len(other))
        if op == 'Add' and isinstance(other, Blank):
            return Blank(self.least + other.least)
        return FREE

    def getitem(self, it, k):
        if not self.least and it.choose_bool():
            raise Raise(Inst(IndexError, {'args': ()}))
        return ' '

    def length(self, it):
        return Number()

    def getattr(self, it, name):
        return Native(name, lambda *a, **k: Number())


class Number(writer.Free):
    """an unknown number"""
    kind = 'number'

    def binop(self, it, op, other, reflected):
        if op == 'Mult' and isinstance(other, str):
            if other.strip(' \n\t'):
                return FREE
            return Blank()
        return self


class Endless(Abs):
    """a stack of numbers that is not empty"""
    kind = 'stack'

    def getitem(self, it, k):
        return Number()

    def getattr(self, it, name):
        return Native(name, lambda *a: Number())

    def length(self, it):
        return Number()

    def truth(self, it):
        return True


def sink(tools):
    """CIFStringIO.write passes the text on unchanged, once, with nothing but white space added; a separator is left out
    behind white space only"""
    ctx = tools.ctx
    cls = next((c for c in tools.mod.classes.values() if c.name == 'CIFStringIO'), None)
    if cls is None or 'write' not in cls.methods:
        raise AnalysisBroken('CIFStringIO.write is not found')
    f = cls.methods['write']
    seen = set()
    for text in ("'a b'", 'abc', '\n;a\n;', ' ', '\n', 'loop_\n'):
        for flags in range(32):
            if flags & 8 and len(text) > 1:
                continue
            for last in ('x', ' ', '\n', ''):
                kw = {'canbreak': bool(flags & 1), 'mustbreak': bool(flags & 2), 'do_tab': bool(flags & 4),
                      'delimiter': bool(flags & 8), 'newindent': bool(flags & 16), 'startcol': Number()}

                def one(d):
                    it = writer.Interp(d, tools.world, None, steps=20000)
                    out = []
                    me = Inst(cls.name, {'currentpos': Number(), 'target_width': Number(), 'tabwidth': Number(),
                                         'indentlist': Endless(), 'last_char': last})

                    class Base(Abs):
                        kind = 'StringIO'

                        def getattr(self, it, name):
                            if name == 'write':
                                return Native(name, lambda o, t: out.append(t))
                            raise AnalysisBroken('StringIO.%s in CIFStringIO.write' % name)
                    it.globals.vars['StringIO'] = Base()
                    it.globals.vars['super'] = Native('super', lambda *a: Inst('super', {
                        'write': Native('write', lambda t: out.append(t))}))
                    it.stmt(f.node, it.globals)
                    try:
                        it.call(it.globals.vars[f.node.name], [me, text], kw)
                    except Raise as e:
                        return 'raises %s' % getattr(e.exc, 'cls', e.exc)
                    own = [t for t in out if t == text and not isinstance(t, Blank)]
                    rest = [t for t in out if not (isinstance(t, Blank) or isinstance(t, str) and not t.strip(' \n\t'))]
                    if text.strip(' \n') and rest != [text]:
                        return 'passes on %s' % [t if isinstance(t, str) else 'blanks' for t in out]
                    if not text.strip(' \n') and rest:
                        return 'passes on %s' % rest
                    prev = [last] + out
                    if not own and not (kw['delimiter'] and (isinstance(prev[-1], Blank) or prev[-1] in (' ', '\n', '\t'))):
                        return 'leaves the text out'
                    if own and out[-1] != text:
                        return 'adds something behind the text'
                    end = me.attrs['last_char']
                    if own and end != text[-1]:
                        return 'remembers %r as the last character' % (end,)
                    if end in (' ', '\n') and not own and not kw['delimiter']:
                        return 'remembers %r as the last character' % (end,)
                    return None
                for r in mini.explore(one, limit=20000):
                    ctx.count('paths_of_write')
                    if r and r not in seen:
                        seen.add(r)
                        ctx.violation('sink', r.split(' ')[0] + '|' + repr(text),
                                      'CIFStringIO.write(%r, %s), last character %r: %s' %
                                      (text, ', '.join(k for k, v in kw.items() if v is True), last, r),
                                      where(tools, f))


def run(ctx):
    tools = Tools(ctx)
    ctx.count('character_classes', len(tools.al.syms))
    for grammar in GRAMMARS:
        got, raised = written(tools, grammar, tools.fmt, None)
        for (exc, line), (L, x) in raised.items():
            if not L.empty():
                ctx.violation('writer-raises', '%s|%s' % (tools.fmt.node.name, exc),
                              'grammar %s: writing %r raises %s' % (grammar, L.sample(), exc), where(tools, tools.fmt))
        judge(tools, grammar, tools.fmt, 'value', got, FOLLOW[grammar], 'data_value')
        if 'delimited_data_value' in tools.grams[grammar].rules:
            got, raised = written(tools, grammar, tools.key, [{}])
            judge(tools, grammar, tools.key, 'key', got, ':', 'delimited_data_value')
        fields(tools, grammar)
        datanames(tools, grammar)
    sink(tools)
    ctx.floor('obligations', ctx.coverage.get('obligations', 0), 30)
    said = ['texts are built of the characters that char_check admits; a carriage return in a value is a line end',
            'a text that starts with a folding or prefix header differs from the text decoded from it']
    for layer in (c05, c08, c09):           # the tokens are found as the grammars say, by either scanner
        layer.run(ctx)
        said += ctx.assumptions
    ctx.assumptions = said

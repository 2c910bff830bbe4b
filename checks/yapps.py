"""The parser generator (src/yapps3): what the classes of parsetree.py emit for grammar trees, against a reference."""
import ast
import itertools

from sa import mini, program
from sa.mini import Native, Inst, Raise, Cut, Unsupported, Opaque
from sa.program import AnalysisBroken

DIR = 'src/yapps3/'
TREE, READER, DRIVER = DIR + 'parsetree.py', DIR + 'grammar.py', DIR + 'yapps2.py'
END = 'END'

RUNTIME = ast.parse('''
class YappsSyntaxError(Exception):
    def __init__(self, charpos=-1, msg="Bad Token", context=None):
        Exception.__init__(self)
        self.charpos = charpos
        self.msg = msg
        self.context = context
class NoMoreTokens(Exception):
    pass
class Scanner:
    def __init__(self, patterns, ignore, input, scantype="standard"):
        self.made_with = (patterns, ignore, input, scantype)
        self.first_line_number = 1
        self.input = input
        self.pos = 0
    def get_prev_char_pos(self, i=None):
        return 0
    def get_char_pos(self):
        return 0
    def get_line_number(self):
        return 1
    def get_input_scanned(self):
        return ''
    def token(self, i, restrict=None):
        return (0, 1, model_token(i, restrict), 'x')
class Parser:
    def __init__(self, scanner):
        self._scanner = scanner
        self._pos = 0
    def _peek(self, *types):
        return model_token(self._pos, types)
    def _scan(self, type):
        tok = model_token(self._pos, [type])
        if tok != type:
            raise YappsSyntaxError(0, 'Trying to find ' + type)
        self._pos = 1 + self._pos
        return model_text(self._pos - 1, tok)
class Context:
    def __init__(self, parent, scanner, tokenpos, rule, args=()):
        self.parent = parent
        self.scanner = scanner
        self.tokenpos = tokenpos
        self.rule = rule
        self.args = args
        model_context(parent, rule, args)
''')


class Interp(mini.Interp):
    """warnings go to self.said"""

    def __init__(self, dec, steps=200000):
        mini.Interp.__init__(self, dec, steps)
        self.said = []
        self.strict = False
        self.globals.vars['print'] = Native('print', lambda *a, **k: self.said.append(a))

    def unknown_name(self, e):
        if self.strict:
            raise Raise(mini.Inst(NameError, {'args': (e.id,)}))
        return mini.Interp.unknown_name(self, e)

    def b_repr(self, x, *a):
        if isinstance(x, (list, tuple)) and mini.has_abs(x):
            return '[...]'
        return mini.Interp.b_repr(self, x, *a)


def source(path):
    lines, locs = program.read_source(path, None)
    try:
        return ast.parse('\n'.join(lines))
    except SyntaxError as e:
        raise AnalysisBroken('%s does not parse: %s' % (path, e))


def module_stub(**attrs):
    return Inst('module', dict(attrs))


def regex_stub():
    """re, for texts that are known"""
    import re

    def fn(name):
        def f(pat, text, *a):
            if not (isinstance(pat, str) and isinstance(text, str)):
                raise Unsupported('re.%s' % name)
            return getattr(re, name)(pat, text, *a) is not None or None
        return Native('re.' + name, f)
    return module_stub(match=fn('match'), search=fn('search'), fullmatch=fn('fullmatch'),
                       compile=Native('re.compile', lambda p, *f: ('pattern', p) + tuple(f)))


def generator_world(tree, dec, steps=120000):
    it = Interp(dec, steps)
    it.globals.vars['sys'] = Opaque('sys')
    it.globals.vars['re'] = regex_stub()
    it.load(tree)
    return it


class Sink:
    def __init__(self):
        self.parts = []

    def inst(self):
        def write(s):
            if not isinstance(s, str):
                raise Unsupported('written: %r' % (s,))
            self.parts.append(s)
        return module_stub(write=Native('write', write), close=Native('close', lambda: None),
                           writelines=Native('writelines', lambda x: [write(s) for s in x]))

    def text(self):
        return ''.join(self.parts)


# ---- grammars, written as tuples

def T(t):
    return ('T', t)


def E(code):
    return ('E', code)


def N(name, args=''):
    return ('N', name, args)


def S(*c):
    return ('S',) + c


def C(*c):
    return ('C',) + c


def O(x):
    return ('O', x)


def P(x):
    return ('P', x)


def R(x):
    return ('R', x)


CLASSES = {'T': 'Terminal', 'E': 'Eval', 'N': 'NonTerminal', 'S': 'Sequence', 'C': 'Choice', 'O': 'Option', 'P': 'Plus',
           'R': 'Star'}


def show(n):
    k = n[0]
    if k == 'T':
        return n[1]
    if k == 'E':
        return '{{%s}}' % n[1]
    if k == 'N':
        return n[1] + ('<<%s>>' % n[2] if n[2] else '')
    if k == 'S':
        return '(%s)' % ' '.join(map(show, n[1:]))
    if k == 'C':
        return '(%s)' % ' | '.join(map(show, n[1:]))
    return show(n[1]) + {'O': '?', 'P': '+', 'R': '*'}[k]


class Grammar:
    def __init__(self, rules, params=None, options=None, ignore=('[ ]+',), goal=None):
        self.rules = dict(rules)
        self.params = params or {}
        self.options = options or {}
        self.ignore = ignore
        self.goal = goal or list(self.rules)[0]
        self.tokens = []
        for b in self.rules.values():
            self.collect(b)

    def collect(self, n):
        if n[0] == 'T':
            if n[1] not in self.tokens:
                self.tokens.append(n[1])
        elif n[0] in 'SCOPR':
            for c in n[1:]:
                self.collect(c)

    def __str__(self):
        return '; '.join('%s: %s' % (r, show(b)) for r, b in self.rules.items()) + \
            (' (context insensitive)' if self.options else '')


class Reference:
    """LL(1) parsing as in the textbooks"""

    def __init__(self, g):
        self.g = g
        self.nul = {r: False for r in g.rules}
        self.fst = {r: frozenset() for r in g.rules}
        while True:
            old = dict(self.nul), dict(self.fst)
            for r, b in g.rules.items():
                self.nul[r] = self.nullable(b)
                self.fst[r] = self.first(b)
            if (self.nul, self.fst) == old:
                break
        self.fol = {r: frozenset() for r in g.rules}
        self.nodes = {}
        while True:
            old = dict(self.fol)
            self.nodes = {}
            for r, b in g.rules.items():
                self.walk(b, self.fol[r], (r,))
            if self.fol == old:
                break

    def nullable(self, n):
        k = n[0]
        if k == 'T':
            return False
        if k in 'EOR':
            return True
        if k == 'N':
            return self.nul[n[1]]
        if k == 'S':
            return all(self.nullable(c) for c in n[1:])
        if k == 'C':
            return any(self.nullable(c) for c in n[1:])
        return self.nullable(n[1])

    def first(self, n):
        k = n[0]
        if k == 'T':
            return frozenset([n[1]])
        if k == 'E':
            return frozenset()
        if k == 'N':
            return self.fst[n[1]]
        if k == 'S':
            out = frozenset()
            for c in n[1:]:
                out |= self.first(c)
                if not self.nullable(c):
                    break
            return out
        if k == 'C':
            return frozenset().union(*[self.first(c) for c in n[1:]])
        return self.first(n[1])

    def walk(self, n, follow, path):
        self.nodes[path] = follow
        k = n[0]
        if k == 'N':
            self.fol[n[1]] |= follow
        elif k == 'S':
            for i, c in enumerate(n[1:]):
                rest = n[2 + i:]
                f = self.first(('S',) + rest)
                if all(self.nullable(x) for x in rest):
                    f |= follow
                self.walk(c, f, path + (i,))
        elif k == 'C':
            for i, c in enumerate(n[1:]):
                self.walk(c, follow, path + (i,))
        elif k == 'O':
            self.walk(n[1], follow, path + (0,))
        elif k in 'PR':
            self.walk(n[1], follow | self.first(n[1]), path + (0,))

    def select(self, n, path):
        return self.first(n) | (self.nodes[path] if self.nullable(n) else frozenset())

    def ll1(self):
        """None or the reason why not: 'choice', 'empty body', 'repetition'"""
        def bad(n, path):
            k = n[0]
            if k == 'C':
                seen = frozenset()
                for i, c in enumerate(n[1:]):
                    s = self.select(c, path + (i,))
                    if seen & s:
                        return 'choice'
                    seen |= s
            elif k in 'OPR':
                if self.nullable(n[1]):
                    return 'empty body'
                if self.first(n[1]) & self.nodes[path]:
                    return 'repetition'
            if k in 'SCOPR':
                for i, c in enumerate(n[1:]):
                    b = bad(c, path + (i,))
                    if b:
                        return b
        found = {bad(b, (r,)) for r, b in self.g.rules.items()} - {None}
        for x in ('choice', 'empty body', 'repetition'):
            if x in found:
                return x
        return None

    def coarse(self):
        """can a clause of a choice be mistaken when follow sets are kept per class of nodes (one set for a rule and all
        its uses, for a repetition and its body, for a sequence and its last part)? then a warning is in order"""
        parent = {}

        def find(x):
            while parent.setdefault(x, x) != x:
                x = parent[x]
            return x
        nodes = {}

        def collect(n, path):
            nodes[path] = n
            if n[0] == 'N':
                parent[find(path)] = find((n[1],))
            elif n[0] in 'COPR':
                for i in range(len(n) - 1):
                    parent[find(path + (i,))] = find(path)
            elif n[0] == 'S' and len(n) > 1:
                parent[find(path + (len(n) - 2,))] = find(path)
            if n[0] in 'SCOPR':
                for i, c in enumerate(n[1:]):
                    collect(c, path + (i,))
        for r, b in self.g.rules.items():
            collect(b, (r,))
        fol = {}

        def start(path):
            n = nodes[path]
            f = self.first(n)
            return f | fol.get(find(path), frozenset()) if self.nullable(n) else f
        while True:
            old = dict(fol)
            for path, n in nodes.items():
                if n[0] == 'S':
                    for i in range(len(n) - 2):
                        k = find(path + (i,))
                        fol[k] = fol.get(k, frozenset()) | start(path + (i + 1,))
                elif n[0] in 'PR':
                    k = find(path + (0,))
                    fol[k] = fol.get(k, frozenset()) | start(path + (0,))
            if fol == old:
                break
        self.wanted = set()     # tokens that may come where one is first looked at
        for path, n in nodes.items():
            if n[0] == 'T':
                self.wanted.add(frozenset([n[1]]))
            elif n[0] in 'CO':
                self.wanted.add(start(path))
            elif n[0] in 'PR':
                self.wanted.add(self.first(n[1]) | fol.get(find(path), frozenset()))
        for path, n in nodes.items():
            if n[0] == 'C':
                seen = frozenset()
                for i in range(len(n) - 1):
                    s = start(path + (i,))
                    if seen & s:
                        return True
                    seen |= s
        return False

    def left_recursive(self):
        def starts(n):
            k = n[0]
            if k == 'N':
                return {n[1]}
            if k in 'TE':
                return set()
            out = set()
            for c in n[1:]:
                out |= starts(c)
                if k == 'S' and not self.nullable(c):
                    break
            return out
        edges = {r: starts(b) for r, b in self.g.rules.items()}
        for r in edges:
            todo, seen = list(edges[r]), set()
            while todo:
                x = todo.pop()
                if x == r:
                    return True
                if x not in seen:
                    seen.add(x)
                    todo.extend(edges[x])
        return False

    def parse(self, token):
        """token(i) -> kind; -> list of events, or None when the text is not of the grammar"""
        events = []
        pos = [0]

        class Wrong(Exception):
            pass

        def run(n, path, caller):
            k = n[0]
            if k == 'T':
                if token(pos[0]) != n[1]:
                    raise Wrong()
                events.append(('scan', pos[0], n[1]))
                pos[0] += 1
            elif k == 'E':
                events.append(('do', n[1]))
            elif k == 'N':
                rule(n[1], n[2], caller)
            elif k == 'S':
                for i, c in enumerate(n[1:]):
                    run(c, path + (i,), caller)
            elif k == 'C':
                for i, c in enumerate(n[1:]):
                    if token(pos[0]) in self.select(c, path + (i,)):
                        run(c, path + (i,), caller)
                        break
                else:
                    raise Wrong()
            elif k == 'O':
                if token(pos[0]) in self.first(n[1]):
                    run(n[1], path + (0,), caller)
            else:
                if k == 'P':
                    run(n[1], path + (0,), caller)
                while token(pos[0]) in self.first(n[1]):
                    run(n[1], path + (0,), caller)

        def rule(r, args, caller):
            events.append(('rule', r, caller))
            run(self.g.rules[r], (r,), caller + (r,))
        try:
            rule(self.g.goal, '', ())
        except Wrong:
            return None
        return events


# ---- the generator under analysis

def build(it, rule, n, memo=None):
    cls = it.globals.vars[CLASSES[n[0]]]
    if n[0] in 'TE':
        return it.call(cls, [rule, n[1]])
    if n[0] == 'N':
        return it.call(cls, [rule, n[1], n[2]])
    return it.call(cls, [rule] + [build(it, rule, c) for c in n[1:]])


def generate(tree, g, dec, pre=None, post=None, name='Test'):
    """-> (text written, warnings)"""
    it = generator_world(tree, dec)
    tokens = [(t, 'pat_' + t) for t in g.tokens]
    tokens[1:1] = [('#ignore', p) for p in g.ignore]
    rules = [(r, g.params.get(r, ''), build(it, r, b)) for r, b in g.rules.items()]
    gen = it.call(it.globals.vars['Generator'], [name, dict(g.options), tokens, rules])
    sink = Sink()
    it.setattr(gen, 'output', sink.inst())
    if pre is not None:
        it.setattr(gen, 'preparser', pre)
    if post is not None:
        it.setattr(gen, 'postparser', post)
    it.call(it.getattr(gen, 'generate_output'))
    return sink.text(), it.said


class Text:
    """the tokens of a text, chosen when first looked at"""

    def __init__(self, dec, kinds, limit, insensitive):
        self.dec, self.kinds, self.limit, self.insensitive = dec, kinds, limit, insensitive
        self.chosen, self.allowed = [], []
        self.wanted, self.over = None, []

    def kind(self, i):
        while len(self.chosen) <= i:
            if self.chosen and self.chosen[-1] == END:
                return None
            if len(self.chosen) >= self.limit:
                self.chosen.append(END)
            else:
                self.chosen.append(self.kinds[self.dec.choose(len(self.kinds))])
        return self.chosen[i]


def show_text(t):
    return ' '.join(t.chosen)


def run_parser(module, g, text, goal, name='Test'):
    """-> (outcome, events, exception name)"""
    it = Interp(text.dec, 40000)
    ev = []
    it.refused = None
    asked = {}

    def stop(name, *args):
        cls = it.globals.vars.get(name) or getattr(__import__('builtins'), name)
        raise Raise(it.call(cls, list(args)))

    def token(i, restrict):
        restrict = list(restrict or ())
        k = text.kind(i)
        if k is None:
            stop('NoMoreTokens')
        if i in asked:
            if restrict and asked[i] is not None and any(r not in asked[i] for r in restrict):
                it.refused = (i, [r for r in restrict if r not in asked[i]])
                stop('NotImplementedError', 'restriction set changed')
            return k
        if not text.insensitive:
            want = frozenset(restrict or [t for t in g.tokens if t != END])
            if text.wanted is not None and not any(want <= w for w in text.wanted):
                text.over.append((i, sorted(want) if restrict else 'any token'))
        if restrict and not text.insensitive and k not in restrict:
            stop('YappsSyntaxError', 0, 'Trying to find one of')
        asked[i] = restrict or None
        return k

    def text_of(i, k):
        ev.append(('scan', i, k))
        return 'text%d' % i

    def context(parent, rule, args):
        chain = ()
        while parent is not None:
            chain = (parent.attrs['rule'],) + chain
            parent = parent.attrs['parent']
        ev.append(('rule', rule, chain))
        it.contexts.append((rule, list(args)))
    v = it.globals.vars
    v['model_token'] = Native('token', token)
    v['model_text'] = Native('text', text_of)
    v['model_context'] = Native('context', context)
    it.load(RUNTIME)
    v['yappsrt'] = module_stub(**{n: v[n] for n in ('Scanner', 'Parser', 'Context', 'YappsSyntaxError', 'NoMoreTokens')})
    v['do'] = Native('do', lambda *a: ev.append(('do',) + a))
    v['sys'] = Opaque('sys')
    v['re'] = Opaque('re')
    it.load(module)
    it.strict = True
    it.contexts = []
    if name not in v or name + 'Scanner' not in v:
        return 'missing', ev, 'no class %s or %sScanner' % (name, name), it
    try:
        sc = it.call(v[name + 'Scanner'], ['the text'])
        p = it.call(v[name], [sc])
        it.call(it.getattr(p, goal))
        return 'accepted', ev, None, it
    except Raise as r:
        c = r.exc.cls if isinstance(r.exc, Inst) else None
        name = getattr(c, '__name__', None) or getattr(c, 'name', str(c))
        if name == 'YappsSyntaxError':
            if not isinstance(r.exc.attrs.get('charpos'), int):
                return 'bad position', ev, repr(r.exc.attrs.get('charpos')), it
            return 'refused', ev, name, it
        if name == 'NoMoreTokens':
            return 'refused', ev, name, it
        return 'failed', ev, name, it


def events(ev):
    """actions of the emitted code as the reference names them"""
    return [e for e in ev if e[0] != 'do'] and ev


def compare(tree, g, limit, dec0=None):
    """-> list of (rule, text), number of texts"""
    ref = Reference(g)
    out, n = [], 0
    try:
        code, said = generate(tree, g, mini.Decisions())
    except Raise as r:
        return [('GENERATE', 'the generator fails for %s' % g)], 0, 'failed'
    except mini.Endless:
        return [('ENDLESS', 'the generator does not end for %s' % g)], 0, 'failed'
    why = ref.ll1()
    complained = any(isinstance(x, str) and (x.startswith('Warning') or x.startswith('Error')) for a in said for x in a)
    if why == 'choice' and not complained:
        out.append(('AMBIGUOUS', 'no warning for %s, where one token starts two clauses' % g))
    if why:
        return out, 0, why
    if not ref.coarse() and complained:
        out.append(('COMPLAINS', 'a warning for %s, where every clause starts with tokens of its own' % g))
    try:
        module = ast.parse(code)
    except SyntaxError as e:
        return [('GENERATE', 'what is written for %s is not Python: %s' % (g, e))], 0, 'syntax'
    kinds = [t for t in g.tokens if t != END] + [END]

    def path(dec):
        text = Text(dec, kinds, limit, bool(g.options))
        text.wanted = ref.wanted
        try:
            res, ev, exc, it = run_parser(module, g, text, g.goal)
        except mini.Endless:
            return [('ENDLESS', '%s: the generated parser does not end for %s' % (g, show_text(text)))]
        want = ref.parse(text.kind)
        bad = [('REQUESTS', '%s: for "%s", token %d is asked for among %s, which cannot all come there' % (g, show_text(text), i, w))
               for i, w in text.over[:1]]
        if res in ('failed', 'missing', 'bad position'):
            bad.append(('FAILS', '%s: the generated parser fails for "%s": %s%s' %
                        (g, show_text(text), exc, ' (token %r was not allowed before)' % (it.refused,) if it.refused else '')
                        if res != 'bad position' else
                        '%s: the error for "%s" has %s for a position' % (g, show_text(text), exc)))
        elif res == 'accepted' and want is None:
            bad.append(('ACCEPTS', '%s: "%s" is accepted' % (g, show_text(text))))
        elif res == 'refused' and want is not None and complained:
            pass
        elif res == 'refused' and want is not None:
            bad.append(('REFUSES', '%s: "%s" is refused' % (g, show_text(text))))
        elif res == 'accepted':
            have = [('do', e[1]) if e[0] == 'do' else e for e in ev]
            ask = [('do', e[1]) if e[0] == 'do' else e for e in want]
            ask = [('do', eval_arg(e[1])) if e[0] == 'do' else e for e in ask]
            if have != ask:
                bad.append(('ACTIONS', '%s: for "%s" the steps are %s, not %s' % (g, show_text(text), brief(have), brief(ask))))
        return bad
    for bad in mini.explore(path):
        n += 1
        for b in bad:
            if b[0] not in [x[0] for x in out]:
                out.append(b)
    return out, n, 'ok'


def eval_arg(code):
    """do(3) -> 3"""
    return ast.literal_eval(code.strip()[3:-1])


def brief(ev):
    return ' '.join(str(e[1]) if e[0] == 'do' else e[2] if e[0] == 'scan' else '<%s>' % e[1] for e in ev)


# ---- the grammars looked at

def trees(depth, full):
    leaves = [('T',), ('E',), ('N', 'plain'), ('N', 'maybe'), ('N', 'many')]
    small = [leaves]
    for d in range(1, depth):
        below = [x for l in small for x in l]
        last = small[-1]
        new = [(k, x) for k in 'OPR' for x in last]
        for k in 'SC':
            for x, y in itertools.product(below, repeat=2):
                if x not in last and y not in last:
                    continue
                if not full and d > 1 and x not in leaves and y not in leaves:
                    continue
                new.append((k, x, y))
        small.append(new)
    return [x for l in small for x in l]


HELPERS = {'plain': T('pl'), 'maybe': O(T('mb')), 'many': S(E('do(90)'), R(T('mn')))}


def label(t, fresh):
    """tree skeleton -> tree with tokens and actions"""
    count = [0, 0]

    def go(n):
        if n == ('T',):
            count[0] += 1
            return T('t%d' % count[0] if fresh else 'a')
        if n == ('E',):
            count[1] += 1
            return E(' do(%d) ' % count[1])
        if n[0] == 'N':
            return N(n[1])
        return (n[0],) + tuple(go(c) for c in n[1:])
    return go(t)


def used(n, out):
    if n[0] == 'N':
        if n[1] not in out:
            out.append(n[1])
    elif n[0] in 'SCOPR':
        for c in n[1:]:
            used(c, out)
    return out


def skeletons(full):
    for t in trees(3, full):
        for fresh in (True, False):
            b = label(t, fresh)
            rules = {'main': S(b, T(END))}
            for r in used(b, []):
                rules[r] = HELPERS[r]
            yield Grammar(rules)


def partitions(tokens, most):
    """ordered lists of disjoint sets"""
    if not tokens:
        yield []
        return
    for k in range(1, len(tokens) + 1):
        for rest in partitions(tokens[k:], most - 1) if most > 1 or k == len(tokens) else ():
            yield [tokens[:k]] + rest


def special():
    """choices of many tokens, rules used twice, recursion, parameters"""
    names = ['k1', 'k2', 'k3', 'k4', 'k5']
    for n in range(1, 6):
        for p in partitions(names[:n], 5):
            alts = [C(*map(T, x)) if len(x) > 1 else T(x[0]) for x in p]
            alts = [S(a, E('do(%d)' % i)) for i, a in enumerate(alts)]
            body = C(*alts) if len(alts) > 1 else alts[0]
            yield Grammar({'main': S(body, T(END))})
            yield Grammar({'main': S(body, T('z'), T(END))})
            for w in (O, P, R):
                yield Grammar({'main': S(w(body), T(END))})
                yield Grammar({'main': S(w(body), O(T('y')), T('z'), T(END))})
            for i in range(len(alts) + 1):
                more = alts[:i] + [E('do(77)')] + alts[i:]
                yield Grammar({'main': S(C(*more), T('z'), T(END))})
                yield Grammar({'main': S(C(*more), O(T('y')), T(END))})
    yield Grammar({'main': S(N('e'), T(END)), 'e': S(N('t'), R(S(T('"+"'), N('t'), E('do(1)')))),
                   't': S(N('f'), R(S(T('"*"'), N('f'), E('do(2)')))),
                   'f': C(S(T('n'), E('do(3)')), S(T('"("'), N('e'), T('")"'), E('do(4)')))})
    yield Grammar({'main': S(N('l'), T(END)), 'l': C(S(T('a'), E('do(1)'), N('l')), E('do(2)'))})
    yield Grammar({'main': S(N('l'), T(END)), 'l': S(T('a'), O(S(T('","'), N('l'), E('do(2)'))))})
    yield Grammar({'main': S(N('b'), T('x'), N('b'), T('y'), T(END)), 'b': C(T('a'), E('do(1)'))})
    yield Grammar({'main': S(N('b'), T('x'), N('b'), T('y'), T(END)), 'b': O(S(T('a'), N('b')))})
    yield Grammar({'main': S(R(N('blk')), T(END)), 'blk': S(T('h'), R(N('it'))),
                   'it': C(S(T('n'), N('v'), E('do(1)')), S(T('l'), P(T('n')), P(N('v')), E('do(2)')),
                           S(T('s'), R(N('it')), T('e'), E('do(3)'))), 'v': C(T('v'), S(T('q'), R(T('m')), T('r')))})
    yield Grammar({'main': S(N('u'), N('w'), T(END)), 'u': C(S(T('a'), N('w')), E('do(5)')), 'w': R(C(T('b'), S(T('c'), O(T('d')))))})
    yield Grammar({'main': S(C(S(T('a'), N('w')), S(T('b'), N('w'), T('c'))), T(END)), 'w': S(O(T('x')), P(T('y')), O(T('z')))})
    yield Grammar({'main': S(N('p'), N('p'), N('p'), T(END)), 'p': S(T('a'), O(T('b')))})
    yield Grammar({'main': S(T('"["'), O(S(N('v'), R(S(T('","'), N('v'))))), T('"]"'), T(END)), 'v': C(T('x'), N('main2')),
                   'main2': S(T('"{"'), R(N('v')), T('"}"'))})
    # what a rule can be is known only from rules further down
    for n in range(1, 8):
        for last in (O(T('a')), R(T('a')), E('do(9)'), S(O(T('a')), R(T('b'))), C(T('a'), E('do(8)')), P(T('a'))):
            chain = {'l%d' % i: N('l%d' % (i + 1)) for i in range(n)}
            chain['l%d' % n] = last
            yield Grammar(dict({'main': S(N('l0'), T('z'), T(END))}, **chain))
            yield Grammar(dict({'main': S(C(S(N('l0'), T('z')), T('y')), T(END))}, **chain))
            yield Grammar(dict({'main': S(T('x'), N('l0'), T(END))}, **chain))
    # token names of all kinds
    for t in ('_x', 'x9', '"if"', "'a b'", 'X_1', '"\\n"', '9', "'9'"):
        yield Grammar({'main': S(C(S(T(t), E('do(1)')), S(T('other'), E('do(2)'))), R(T(t)), T(END))})
    # nothing at all
    yield Grammar({'main': S(S(), T(END))})
    yield Grammar({'main': S(O(S(T('a'), S())), T(END))})
    yield Grammar({'main': S(C(S(), T('a')), T(END))})
    yield Grammar({'main': S(R(C(S(T('a'), S()), T('b'))), T(END))})


def everything(full):
    seen = set()
    for g in itertools.chain(special(), skeletons(full)):
        if str(g) in seen:
            continue
        seen.add(str(g))
        r = Reference(g)
        if r.left_recursive():
            continue
        yield g
        yield Grammar(g.rules, options={'context-insensitive-scanner': 1})


# ---- what is written around the rules

def written(tree):
    """-> list of (rule, text), number of cases"""
    out, n = [], 0
    for name, a, b in (('Test', 'a', 'b'), ('P', '_U', 'b9'), ('Parser', 'A_1', '_9'), ('X', '__a', 'B')):
        n += written_as(tree, out, name, a, b)
    return out, n


def written_as(tree, out, name, a, b):
    n = 0
    g = Grammar({'main': S(T(b), N('r', '7, "x"'), E('do("value", r, %s)' % b), T('"lit"'), T(a), E('do("text", %s)' % a),
                           N('s'), E('do("returned", s)'), T(END)),
                 'r': S(E('do("arguments", p, q)'), T(a), E('return [p, q, %s]' % a)), 's': S(T(b), T(b), E('return ' + b))},
                params={'r': 'p, q'}, ignore=('[ \t]+', '#.*'))
    for opts in ({}, {'context-insensitive-scanner': 1}):
        for pre, post in ((None, None), ('import something\nx = 1\n\n', None), (None, '\n\ny = 2\n'), ('z = 0\n\n', '\n\ndef t():\n    pass\n')):
            n += 1
            g.options = opts
            code, said = generate(tree, g, mini.Decisions(), pre, post, name)
            if pre and not code.startswith(pre):
                out.append(('WRITTEN', 'the text before the grammar is not at the beginning of the module'))
            if post and not code.endswith(post):
                out.append(('WRITTEN', 'the text after the grammar is not at the end of the module'))
            try:
                module = ast.parse(code)
            except SyntaxError as e:
                out.append(('WRITTEN', 'the module written is not Python: %s' % e))
                continue
            made = {s.name for s in module.body if isinstance(s, (ast.FunctionDef, ast.ClassDef))}
            if not {name, name + 'Scanner', 'parse'} <= made:
                out.append(('WRITTEN', 'the module has %s' % ', '.join(sorted(made))))
                continue
            order = [b, a, '"lit"', a, b, b, END]
            text = Text(mini.Decisions(), [END], 0, False)
            text.chosen = list(order)
            # b r(a) "lit" a s(b b) END
            res, ev, exc, it = run_parser(module, g, text, 'main', name)
            want = [('rule', 'main', ()), ('scan', 0, b), ('rule', 'r', ('main',)), ('do', 'arguments', 7, 'x'), ('scan', 1, a),
                    ('do', 'value', [7, 'x', 'text1'], 'text0'), ('scan', 2, '"lit"'), ('scan', 3, a), ('do', 'text', 'text3'),
                    ('rule', 's', ('main',)), ('scan', 4, b), ('scan', 5, b), ('do', 'returned', 'text5'), ('scan', 6, END)]
            if res != 'accepted' or ev != want:
                out.append(('VALUES', 'arguments, results and texts of tokens: %s %s %s' % (
                    res, exc or '', next(('%s instead of %s' % x for x in zip(ev, want) if x[0] != x[1]), ''))))
                continue
            if it.contexts != [('main', []), ('r', [7, 'x']), ('s', [])]:
                out.append(('CONTEXT', 'the contexts of the rules name the arguments %r' % (it.contexts,)))
            v = it.globals.vars
            sc = it.call(v[name + 'Scanner'], ['the text'], {'scantype': 'flex'})
            patterns, ignore, inp, kind = sc.attrs.get('made_with', (None,) * 4)
            if patterns is None:
                patterns = sc.attrs.get('patterns') or v[name + 'Scanner'].attrs.get('patterns')
            tokens = [(t, 'pat_' + t) for t in g.tokens]
            tokens[1:1] = [(p, p) for p in g.ignore]
            if [tuple(p) for p in patterns or ()] != tokens:
                out.append(('TOKENS', 'the scanner is given %r' % (patterns,)))
            if sorted(ignore or ()) != sorted(g.ignore):
                out.append(('TOKENS', 'the scanner ignores %r' % (ignore,)))
            if (inp, kind) != ('the text', 'flex'):
                out.append(('TOKENS', 'the scanner is made for %r, %r' % (inp, kind)))
            calls = []
            v['yappsrt'].attrs['wrap_error_reporter'] = Native('wrap', lambda p, r: calls.append((p, r)) or 'result')
            try:
                r = it.call(v['parse'], ['main', 'some text'])
            except Raise as x:
                out.append(('PARSE', 'parse(rule, text) of a parser called %s fails: %s' % (name, getattr(x.exc, 'cls', x.exc))))
                continue
            if r != 'result' or len(calls) != 1 or calls[0][1] != 'main' or \
                    calls[0][0].attrs['_scanner'].attrs['made_with'][2] != 'some text':
                out.append(('PARSE', 'parse(rule, text) does not run the rule on the text'))
    return n


# ---- reading grammars

class NodeStub:
    pass


def reader_world(tree, dec):
    it = Interp(dec, 60000)
    v = it.globals.vars
    it.load(RUNTIME)
    names = ('Scanner', 'Parser', 'Context', 'YappsSyntaxError', 'NoMoreTokens')
    rt = module_stub(**{n: v[n] for n in names})
    rt.attrs['wrap_error_reporter'] = Native('wrap', lambda p, r: it.call(it.getattr(p, r)))
    pt = module_stub(**{n: Native(n, lambda rule, *c, n=n: (n, rule) + c) for n in CLASSES.values()})
    pt.attrs['Generator'] = Native('Generator', lambda *a: ('Generator',) + a)
    mods = {'parsetree': pt, 'yapps3_compiled_rt': rt, 'yappsrt': rt, 'sys': Opaque('sys'), 're': regex_stub()}
    for s in tree.body:
        if isinstance(s, ast.Import):
            for a in s.names:
                v[a.asname or a.name] = mods.get(a.name) or Opaque(a.name)
        elif isinstance(s, ast.ImportFrom):
            for a in s.names:
                m = mods.get((s.module or '').split('.')[-1])
                v[a.asname or a.name] = m.attrs[a.name] if m and a.name in m.attrs else Opaque(a.name)
    v['eval'] = Native('eval', lambda s, *a: ast.literal_eval(s))
    it.load(tree)
    return it


KINDS = [('"rule"', 'rule'), ('ID', 'tk'), ('ID', 'nt'), ('STR', "'s'"), ('STMT', '{{ do(%d) }}'), ('ATTR', '<<p, %d>>'),
         ('LP', '('), ('RP', ')'), ('LB', '['), ('RB', ']'), ('OR', '|'), ('STAR', '*'), ('PLUS', '+'), ('QUEST', '?'),
         ('":"', ':'), ('"token"', 'token'), ('"ignore"', 'ignore'), ('"option"', 'option'), ('"parser"', 'parser'),
         ('STR', '"u\\n"'), ('EOF', '')]


class Wrong(Exception):
    pass


class RefReader:
    """the grammar of grammars, from yapps' documentation"""

    def __init__(self, tok):
        self.tok, self.pos = tok, 0

    def kind(self):
        return self.tok(self.pos)[0]

    def take(self, k):
        t = self.tok(self.pos)
        if t[0] != k:
            raise Wrong()
        self.pos += 1
        return t[1]

    def string(self):
        return ast.literal_eval(self.take('STR'))

    def whole(self):
        self.take('"parser"')
        name = self.take('ID')
        self.take('":"')
        opts, self.tokens, rules = {}, [], []
        while self.kind() == '"option"':
            self.pos += 1
            self.take('":"')
            opts[self.string()] = 1
        while self.kind() in ('"token"', '"ignore"'):
            k = self.kind()
            self.pos += 1
            n = self.take('ID') if k == '"token"' else '#ignore'
            self.take('":"')
            self.tokens.append((n, self.string()))
        while self.kind() == '"rule"':
            self.pos += 1
            self.rule = self.take('ID')
            par = self.param()
            self.take('":"')
            rules.append((self.rule, par, self.choice()))
        self.take('EOF')
        return ('Generator', name, opts, self.tokens, rules)

    def param(self):
        if self.kind() == 'ATTR':
            return self.take('ATTR')[2:-2]
        return ''

    def choice(self):
        v = [self.sequence()]
        while self.kind() == 'OR':
            self.pos += 1
            v.append(self.sequence())
        return v[0] if len(v) == 1 else ('Choice', self.rule) + tuple(v)

    def sequence(self):
        v = []
        while self.kind() in ('STR', 'ID', 'LP', 'LB', 'STMT'):
            v.append(self.repeated())
        return v[0] if len(v) == 1 else ('Sequence', self.rule) + tuple(v)

    def repeated(self):
        x = self.atom()
        n = {'PLUS': 'Plus', 'STAR': 'Star', 'QUEST': 'Option'}.get(self.kind())
        if n:
            self.pos += 1
            return (n, self.rule, x)
        return x

    def atom(self):
        k = self.kind()
        if k == 'STR':
            s = self.take('STR')
            t = (s, ast.literal_eval(s))
            if t not in self.tokens:
                self.tokens.insert(0, t)
            return ('Terminal', self.rule, s)
        if k == 'ID':
            n = self.take('ID')
            a = self.param()
            if n in [x[0] for x in self.tokens]:
                return ('Terminal', self.rule, n)
            return ('NonTerminal', self.rule, n, a)
        if k == 'STMT':
            return ('Eval', self.rule, self.take('STMT')[2:-2])
        self.pos += 1
        x = self.choice()
        self.take('RP' if k == 'LP' else 'RB')
        return x if k == 'LP' else ('Option', self.rule, x)


def reading(tree, prefix, limit, dec, script=None):
    """one grammar text: the tokens of prefix, then chosen ones -> list of (rule, text)"""
    it = reader_world(tree, dec)
    v = it.globals.vars
    toks = list(prefix)

    def tok(i):
        while len(toks) <= i:
            if toks and toks[-1][0] == 'EOF':
                return (None, None)
            if len(toks) >= len(prefix) + limit:
                toks.append(('EOF', ''))
            else:
                k, t = KINDS[dec.choose(len(KINDS))]
                toks.append((k, t % len(toks) if '%' in t else t))
        return toks[i]

    def stop(name, *args):
        raise Raise(it.call(v[name], list(args)))

    def token(i, restrict):
        k = tok(i)[0]
        if k is None:
            stop('NoMoreTokens')
        if k in ('":"', 'COLON') and restrict and 'COLON' in list(restrict) and '":"' not in list(restrict):
            return 'COLON'
        if list(restrict or ()) and k not in list(restrict):
            stop('YappsSyntaxError', 0, '')
        return k
    v['model_token'] = Native('token', token)
    v['model_text'] = Native('text', lambda i, k: tok(i)[1])
    v['model_context'] = Native('context', lambda *a: None)
    sc = it.call(v['ParserDescriptionScanner'], ['the text'])
    p = it.call(v['ParserDescription'], [sc])
    bad = []
    res, exc = None, None
    try:
        res = it.call(it.getattr(p, 'Parser'))
    except Raise as r:
        c = r.exc.cls if isinstance(r.exc, Inst) else None
        exc = getattr(c, 'name', None) or getattr(c, '__name__', str(c))
        if exc == 'YappsSyntaxError' and not isinstance(r.exc.attrs.get('charpos'), int):
            exc = 'YappsSyntaxError with position %r' % (r.exc.attrs.get('charpos'),)
    except mini.Endless:
        exc = 'no end'
    try:
        want = RefReader(tok).whole()
    except Wrong:
        want = None
    text = ' '.join(t[1] for t in toks)
    if want is None and exc not in ('YappsSyntaxError', 'NoMoreTokens'):
        bad.append(('READ', '"%s": %s' % (text, exc or 'is accepted')))
    elif want is not None and exc:
        bad.append(('READ', '"%s": refused (%s)' % (text, exc)))
    elif want is not None and norm(res) != norm(want):
        bad.append(('READ', '"%s": read as %s, not %s' % (text, res, want)))
    return bad


def norm(x):
    if isinstance(x, (list, tuple)):
        return tuple(norm(y) for y in x)
    if isinstance(x, dict):
        return tuple(sorted((k, norm(y)) for k, y in x.items()))
    return x


def words(s):
    """'parser ID : ...' -> tokens"""
    out = []
    for w in s.split():
        k = next((k for k, t in KINDS if t == w), None)
        if k is None:
            k = 'STR' if w[0] in '\'"' else 'STMT' if w.startswith('{{') else 'ATTR' if w.startswith('<<') else 'ID'
        out.append((k, w))
    return out


PREFIXES = [('', 3), ('parser X :', 4), ("parser X : token tk : 't' rule main :", 4),
            ("parser X : option : 'o' option : 'o2' ignore : '_' token tk : 't' rule main <<a>> : {{x}} rule nt :", 3),
            ("parser X : token tk : 't' rule main : (", 3), ("parser X : token tk : 't' rule main : tk ( nt <<1>> |", 3),
            ("parser X : token tk : 't' rule main : [ tk ] ( nt | 's' ) * {{a}}", 3),
            ("parser X : token tk : 't' rule main : ( ( tk + | 's' ? ) * nt <<q>> [ [ tk ] 's' ] ) {{b}} | | {{c}} rule nt : 's' 'w' tk ?", 2)]


PATTERNS = [('"rule"', 'rule'), ('"ignore"', 'ignore'), ('"token"', 'token'), ('"option"', 'option'), ('":"', ':'),
            ('"parser"', 'parser'), ('[ \t\r\n]+', '[ \t\r\n]+'), ('#.*?\r?\n', '#.*?\r?\n'), ('EOF', '$'), ('ATTR', '<<.+?>>'),
            ('STMT', '{{.+?}}'), ('STR', '[uUrR]?\'([^\\n\'\\\\]|\\\\.)*\'|[uUrR]?"([^\\n"\\\\]|\\\\.)*"'),
            ('ID', '[a-zA-Z_][a-zA-Z_0-9]*'), ('LP', '\\('), ('RP', '\\)'), ('LB', '\\['), ('RB', '\\]'), ('OR', '[|]'),
            ('STAR', '[*]'), ('PLUS', '[+]'), ('QUEST', '[?]'), ('COLON', ':')]


def same_matches(p, q):
    """None, or a text on which two regular expressions match up to different places"""
    from sa import relang
    a, b = relang.Prog(p), relang.Prog(q)
    ma, mb = relang.Match(a), relang.Match(b)
    reps = relang.merge_classes(relang.classes(relang.boundaries(a, b)), [a, b])

    def symbols(st):
        if st[0][0] == 'ended' or st[1][0] == 'ended':
            return []
        return reps + ([relang.MARK] if st[0][0] == 'before' else [])

    def final(st):
        x, y = ma.tagged(st[0]), mb.tagged(st[1])
        return 'differ' if (x and x[0]) != (y and y[0]) else None
    msg, word, n = relang.explore((ma, mb), symbols, final)
    return relang.show(word) if msg else None


def meet(p, q):
    """can two expressions match up to the same place?"""
    from sa import relang
    a, b = relang.Prog(p), relang.Prog(q)
    ma, mb = relang.Match(a), relang.Match(b)
    reps = relang.merge_classes(relang.classes(relang.boundaries(a, b)), [a, b])

    def symbols(st):
        return reps + ([relang.MARK] if st[0][0] == 'before' else [])

    def final(st):
        x, y = ma.tagged(st[0]), mb.tagged(st[1])
        return 'meet' if x and y and x[0] == y[0] == 'exact' else None
    return relang.explore((ma, mb), symbols, final)[0] is not None


def patterns(tree):
    """-> list of (rule, text), number of patterns"""
    it = reader_world(tree, mini.Decisions())
    v = it.globals.vars
    sc = it.call(v['ParserDescriptionScanner'], ['the text'])
    given, ignore, inp, kind = sc.attrs.get('made_with', (None,) * 4)
    if given is None:
        try:
            given = it.getattr(sc, 'patterns')
        except Raise:
            raise AnalysisBroken('no patterns in ' + READER)
    have = []
    for n, p in given:
        have.append((n, p[1] if isinstance(p, tuple) else p))
        if isinstance(p, tuple) and p[2:]:
            raise AnalysisBroken('flags in the patterns of ' + READER)
    out = []
    if inp != 'the text':
        out.append(('PATTERN', 'the scanner is not made for the text'))
    ref = dict(PATTERNS)
    rename = {}
    for n, p in have:
        if n in ref:
            d = same_matches(p, ref[n])
            if d is not None:
                out.append(('PATTERN', '%s is matched differently in %r' % (n, d)))
            rename[n] = n
        else:
            like = [m for m, q in PATTERNS if m not in dict(have) and same_matches(p, q) is None]
            if not like:
                out.append(('PATTERN', '%s is no token of grammars' % n))
            else:
                rename[n] = like[0]
    for n, q in PATTERNS:
        if n not in rename.values():
            out.append(('PATTERN', '%s is not recognised' % n))
    if sorted(rename.get(i, i) for i in ignore or ()) != sorted(PATTERNS[i][0] for i in (6, 7)):
        out.append(('PATTERN', 'ignored are %r' % (ignore,)))
    pos = {rename[n]: i for i, (n, p) in enumerate(have) if n in rename}
    for i, (n, p) in enumerate(PATTERNS):
        for m, q in PATTERNS[:i]:
            if n in pos and m in pos and pos[n] < pos[m] and meet(p, q):
                out.append(('PATTERN', '%s is preferred to %s' % (n, m)))
    return out, len(have)


# ---- the program yapps2.py

def driver(tree, argv, text, fails, dec):
    """-> what it did"""
    import getopt
    it = Interp(dec, 20000)
    v = it.globals.vars
    log = {'scanned': [], 'opened': [], 'generated': [], 'dumped': [], 'grammar': []}
    gen = module_stub(options={}, preparser='', postparser=None, output=None)
    sinks = {}

    def opened(name, mode='r', *a, **k):
        if 'w' in mode or 'a' in mode:
            log['opened'].append((name, mode))
            s = Sink()
            o = s.inst()
            sinks[id(o)] = (name, o)
            return o
        log['opened'].append((name, 'r'))
        return module_stub(read=Native('read', lambda: text), close=Native('close', lambda: None))
    gen.attrs['generate_output'] = Native('generate_output', lambda: log['generated'].append(
        (sinks.get(id(gen.attrs['output']), (None,))[0], gen.attrs['preparser'], gen.attrs['postparser'], dict(gen.attrs['options']))))
    gen.attrs['dump_information'] = Native('dump', lambda: log['dumped'].append(1))

    def stub(which):
        def scanner(s):
            o = module_stub(first_line_number=1, input=s)
            log['scanned'].append((s, o))
            log['grammar'].append(which)
            return o
        return module_stub(ParserDescriptionScanner=Native('scanner', scanner),
                           ParserDescription=Native('parser', lambda s: module_stub(_scanner=s)))
    rt = module_stub(wrap_error_reporter=Native('wrap', lambda p, r: None if fails or r != 'Parser' else gen))
    mods = {'grammar': stub('grammar'), 'yapps_grammar': stub('yapps_grammar'), 'yappsrt': rt, 'yapps3_compiled_rt': rt,
            'parsetree': Opaque('parsetree'), 're': regex_stub(),
            'sys': module_stub(argv=list(argv), stderr=Opaque('stderr'), modules={'__main__': Opaque('main')},
                               exit=Native('exit', lambda *a: None)),
            'doctest': module_stub(testmod=Native('testmod', lambda *a: None)),
            'getopt': module_stub(getopt=Native('getopt', lambda *a: getopt.getopt(*a)))}
    it.module = lambda n: mods.get(n) or Opaque(n)
    v['open'] = Native('open', opened)
    v['__name__'] = '__main__'
    try:
        for s in tree.body:
            if isinstance(s, ast.ImportFrom) and s.module == '__future__':
                continue
            it.stmt(s, it.globals)
    except Raise as r:
        c = r.exc.cls if isinstance(r.exc, Inst) else None
        log['exc'] = getattr(c, 'name', None) or getattr(c, '__name__', str(c))
    log['scanned'] = [(s, o.attrs.get('first_line_number')) for s, o in log['scanned']]
    return log


BODIES = ['parser A:\n rule x: y\n', 'import a\n%%\nparser A:\n', 'import a\n%%\nparser A:\n%%\ndef f():\n  pass\n', '\n%%\nparser A:\n',
          'a\nb\n\n%%\nparser A:\n%%\n', 'a\n%%\nparser A:\n%%\nb\n%%\nc\n', 'a %% b\n%%c\nparser A:\n', '\n%%\nx\n%%\n', '']


def driving(tree):
    out, n = [], 0
    for text in BODIES:
        parts = text.split('\n%%\n', 2)
        pre = parts[0] + '\n\n' if len(parts) > 1 else None
        post = '\n\n' + parts[2] if len(parts) > 2 else None
        body = parts[1] if len(parts) > 1 else text
        for argv, outname, opts, gram in (
                (['x.g'], 'x.py', {}, 'grammar'), (['d.g/y.g.g'], 'd.g/y.g.py', {}, 'grammar'),
                (['x.g', 'z.py'], 'z.py', {}, 'grammar'), (['in', 'z.py'], 'z.py', {}, 'grammar'),
                (['-fcontext-insensitive-scanner', 'x.g'], 'x.py', {'context-insensitive-scanner': 1}, 'grammar'),
                (['--use-devel-grammar', 'x.g'], 'x.py', {}, 'yapps_grammar')):
            for fails in (False, True):
                n += 1
                log = driver(tree, ['yapps3/yapps2.py'] + argv, text, fails, mini.Decisions())
                what = '%s on %r' % (' '.join(argv), text)
                src = [a for a in argv if not a.startswith('-')][0]
                if log.get('exc'):
                    out.append(('PROGRAM', '%s fails with %s' % (what, log['exc'])))
                    continue
                if [o for o in log['opened'] if o[1] == 'r'] != [(src, 'r')]:
                    out.append(('PROGRAM', '%s opens %r' % (what, log['opened'])))
                if [s for s, f in log['scanned']] != [body]:
                    out.append(('PROGRAM', '%s: the grammar read is %r, not %r' % (what, [s for s, f in log['scanned']], body)))
                elif log['scanned'][0][1] != 1 + (pre or '').count('\n'):
                    out.append(('PROGRAM', '%s: line numbers start at %r' % (what, log['scanned'][0][1])))
                if set(log['grammar']) != {gram}:
                    out.append(('PROGRAM', '%s: the grammar is read with %s' % (what, log['grammar'])))
                if fails:
                    if log['generated'] or [o for o in log['opened'] if o[1] != 'r']:
                        out.append(('PROGRAM', '%s: something is written although the grammar is wrong' % what))
                    continue
                if log['generated'] != [(outname, pre or '', post, opts)]:
                    out.append(('PROGRAM', '%s writes %r, not %r' % (what, log['generated'], [(outname, pre or '', post, opts)])))
    return out, n

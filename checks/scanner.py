"""Abstract scenarios for the Python tokeniser (Scanner, Parser in yapps3_compiled_rt.py)."""
import ast
import builtins

from sa import mini, program, zone
from sa.mini import Abs, Native, Inst, Raise, Cut, Unsupported, Opaque

RT = 'src/yapps3_compiled_rt.py'


class MatchObj(Abs):
    kind = 'match'

    def __init__(self, whole, s, e, shift=0):
        self.whole, self.s, self.e, self.shift = whole, s, e, shift

    def truth(self, it):
        return True

    def getattr(self, it, name):
        def pos(p):
            return it.binop('Sub', p, self.shift)
        if name == 'group':
            def group(*a):
                if a and a != (0,):
                    raise Raise(Inst(IndexError, {'args': ()}))
                return zone.Slice(self.whole, self.s, self.e)
            return Native('group', group)
        if name in ('end', 'start'):
            return Native(name, lambda *a: pos(self.e if name == 'end' else self.s))
        if name == 'span':
            return Native('span', lambda *a: (pos(self.s), pos(self.e)))
        if name == 'string':
            return self.whole
        raise Unsupported('match.%s' % name)

    def getitem(self, it, k):
        if k == 0 and isinstance(k, int):
            return zone.Slice(self.whole, self.s, self.e)
        raise Raise(Inst(IndexError, {'args': ()}))


class Pattern(Abs):
    """a regular expression of which nothing is known: at every position it may or may not match, up to anywhere"""
    kind = 'pattern'

    def __init__(self, world, name):
        self.world, self.name = world, name

    def getattr(self, it, name):
        if name == 'match':
            def match(text, pos=0, *end):
                w = self.world.whole
                if isinstance(text, zone.Slice) and text.whole is w and pos == 0 and not end and \
                        text.b is w.end:
                    m = self.world.match(it, self.name, text.a)
                    return None if m is None else MatchObj(w, text.a, m, text.a)
                if text is not w:
                    raise Unsupported('match on another text')
                if end and not it.equal(end[0], w.end):
                    m = self.world.match(it, self.name + '#limited', pos)
                else:
                    m = self.world.match(it, self.name, pos)
                return None if m is None else MatchObj(w, pos, m)
            return Native('match', match)
        if name in ('search', 'fullmatch'):
            def other(text, pos=0, *end):
                if text is not self.world.whole:
                    raise Unsupported('match on another text')
                m = self.world.match(it, self.name, pos)
                if name == 'fullmatch':
                    if m is not None and it.equal(m, self.world.whole.end):
                        return MatchObj(text, pos, m)
                    return None
                if m is not None:
                    return MatchObj(text, pos, m)
                if it.choose_bool():
                    s = self.world.new(it, pos, 1)
                    return MatchObj(text, s, self.world.new(it, s, 0))
                return None
            return Native(name, other)
        if name == 'pattern':
            return self.name
        raise Unsupported('pattern.%s' % name)


class World:
    def __init__(self, nonempty=(), limit=5):
        self.zone = zone.Zone()
        self.whole = zone.Whole(self.zone)
        self.memo = {}
        self.nonempty = set(nonempty)
        self.limit = limit
        self.positions = []

    def new(self, it, pos, least):
        s = self.zone.new()
        e = zone.Lin.sym(self.zone, s)
        d = it.binop('Sub', e, pos).diff()
        if d is None:
            raise Unsupported('position %r' % (pos,))
        x, y, c = d
        ok = self.zone.add(y, x, c - least) and self.zone.add(s, self.whole.size, 0)
        if not ok:
            raise Cut('no room')
        return e

    def key(self, pos):
        return (tuple(sorted(pos.terms.items())), pos.const) if isinstance(pos, zone.Lin) else ((), pos)

    def match(self, it, name, pos):
        """None or the end of the match; the same answer whenever asked again"""
        for n, p, r in self.memo.values():
            if n == name and (self.key(p) == self.key(pos) or it.compare('Eq', p, pos)):
                return r
        k = (name, self.key(pos))
        if self.key(pos) not in self.positions:
            self.positions.append(self.key(pos))
            if len(self.positions) > self.limit:
                raise Cut('positions')
        r = None
        if it.choose_bool():
            r = self.new(it, pos, 1 if name in self.nonempty else 0)
        self.memo[k] = (name, pos, r)
        return r

    def eq(self, d):
        if isinstance(d, int):
            return d == 0
        x, y, c = d.diff() or (None, None, None)
        return x is not None and self.zone.implied(x, y, -c) and self.zone.implied(y, x, c)


def runtime_tree():
    lines, locs = program.read_source(RT, None)
    try:
        return ast.parse('\n'.join(lines))
    except SyntaxError as e:
        raise program.AnalysisBroken('%s does not parse: %s' % (RT, e))


class RtInterp(mini.Interp):
    def __init__(self, dec, tree, world, star=None):
        mini.Interp.__init__(self, dec)
        self.world = world
        self.star = star
        g = self.globals.vars
        g['re'] = ReModule(world)
        g['sys'] = Opaque('sys')
        g['__name__'] = 'CifFile.yapps3_compiled_rt'
        if star is not None:
            g['StarScan'] = star
        g['have_star_scan'] = star is not None
        self.load(tree)
        g['have_star_scan'] = star is not None


    def unknown_name(self, e):
        if e.id == 'StarScan':      # it could not be imported
            raise Raise(Inst(NameError, {'args': (e.id,)}))
        return mini.Interp.unknown_name(self, e)


class ReModule(Abs):
    kind = 're'

    def __init__(self, world):
        self.world = world

    def getattr(self, it, name):
        if name == 'compile':
            return Native('compile', lambda p, *f: self.compiled(p, f))
        if name in ('match', 'search', 'fullmatch'):
            return Native(name, lambda p, text, *f: it.call(
                it.getattr(p if isinstance(p, Pattern) else Pattern(self.world, p), name), [text]))
        raise Unsupported('re.%s' % name)

    def compiled(self, p, f):
        if isinstance(p, Pattern):
            return p
        # other flags make another pattern of it
        return Pattern(self.world, p + ('#%r' % (f,) if f and f != (0,) else ''))


def exc_name(x):
    c = x.cls
    return c.name if isinstance(c, mini.ClassVal) else getattr(c, '__name__', str(c))


class Spec:
    """the documented rule"""

    def __init__(self, it, world, patterns, ignore, whole):
        self.it, self.world, self.patterns, self.ignore, self.whole = it, world, patterns, ignore, whole
        self.tokens, self.restrictions = [], []
        self.pos = 0

    def token(self, i, restrict):
        it = self.it
        if i == len(self.tokens):
            r = self.scan(restrict)
            if r:
                return r
        if i < len(self.tokens):
            if restrict and self.restrictions[i] and any(x not in self.restrictions[i] for x in restrict):
                return ('raise', 'NotImplementedError')
            return ('token', self.tokens[i])
        return ('raise', 'NoMoreTokens')

    def scan(self, restrict):
        it = self.it
        while True:
            best = None
            for n in self.patterns:
                if restrict and n not in restrict and n not in self.ignore:
                    continue
                e = self.world.match(it, 'rx' + n, self.pos)
                if e is not None and (best is None or it.compare('Gt', e, best[0])):
                    best = (e, n)
            if best is None:
                return ('raise', 'YappsSyntaxError')
            start, self.pos = self.pos, best[0]
            if best[1] in self.ignore:
                continue
            if self.tokens and self.tokens[-1][2] == best[1] and it.equal(self.tokens[-1][1], best[0]) and \
                    it.equal(self.tokens[-1][0], start):
                return None
            self.tokens.append((start, best[0], best[1]))
            self.restrictions.append(restrict)
            return None


SCRIPTS = [
    # patterns, ignored, [(token number, restriction)]
    ('BA', '', [(0, None), (0, ('B',)), (1, None), (0, None)]),
    ('AB', '', [(0, ('A',)), (0, ('A',)), (0, ('B',)), (1, ('A', 'B'))]),
    ('BAC', '', [(0, None)]),
    ('BCA', '', [(0, None)]),
    ('BAC', '', [(0, ('C', 'B'))]),
    ('ABC', '', [(0, ['B'])]),
    ('AB', 'B', [(0, ()), (1, None)]),
    ('AB', 'A', [(0, ('B',)), (1, ('B',))]),
    ('ABC', 'C', [(0, ('A',))]),
    ('A', '', [(0, None), (1, None), (2, None), (2, None)]),
    ('A', '', [(1, None), (0, None)]),
    ('AB', '', [(0, ('A',)), (1, ('B',))]),
    ('AB', '', [(0, ('B',)), (1, ('A',)), (2, ('A', 'B'))]),
    ('AB', '', [(0, None), (1, ('A',)), (0, ('B',)), (0, ('A',))]),
    ('AB', '', [(0, ('A',)), (1, None), (0, ('B',))]),
    ('AB', '', [(0, ('A',)), (1, ('B', 'A')), (0, ('A', 'B'))]),
    ('AB', '', [(0, ('A',)), (0, None), (0, ())]),
    ('AB', 'B', [(0, None), (0, ('A',)), (0, None)]),
]


def names_in(tree):
    """texts the runtime mentions that could be the name of a token"""
    out = {'A'}
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
            out.add(n.value)
    return sorted(out)


def scenario(tree, script, supplied, dec, variant='standard', rename=None):
    """-> list of (rule, text) problems on this path"""
    names, ignore, steps = SCRIPTS[script]
    if rename:
        def ren(x):
            return rename if x == 'A' else x
        names, ignore = [ren(c) for c in names], [ren(c) for c in ignore]
        steps = [(i, None if r is None else type(r)(ren(x) for x in r)) for i, r in steps]
    world = World(nonempty=['rx' + c for c in ignore])
    it = RtInterp(dec, tree, world)
    whole = world.whole
    found, cls = it.globals.get('Scanner')
    if not found:
        raise program.AnalysisBroken('class Scanner not found in ' + RT)
    args = dict(patterns=[(c, 'rx' + c) for c in names], ignore=list(ignore), input=whole)
    if supplied:
        # as the generated parsers do: compiled patterns on the class, None passed
        sub = mini.ClassVal('Sub', {}, [cls], it.globals, {'patterns': [(c, Pattern(world, 'rx' + c)) for c in names]})
        cls = sub
        args['patterns'] = None
    if variant == 'flex':
        args['scantype'] = 'flex'
    sc = it.call(cls, [args.pop('patterns'), args.pop('ignore'), args.pop('input')], args)
    spec = Spec(it, world, names, ignore, whole)
    label = 'patterns %s, ignored %s, requests %s' % (names, ignore or '-', steps)
    for i, restrict in steps:
        want = spec.token(i, tuple(restrict) if restrict is not None else None)
        try:
            t = it.call(it.getattr(sc, 'token'), [i] + ([] if restrict is None else [restrict]))
            got = ('token', t)
        except Raise as r:
            got = ('raise', exc_name(r.exc))
        bad = compare(it, world, want, got)
        if bad:
            return [(bad[0], 'token(%d, %r): %s [%s]' % (i, restrict, bad[1], label))]
        if got[0] == 'raise' and got[1] == 'YappsSyntaxError':
            break
        p = it.getattr(sc, 'pos')
        if not same(it, world, p, spec.pos):
            return [('position', 'after token(%d, %r) the scanner is not just behind the last token read [%s]'
                     % (i, restrict, label))]
    return []


def second(tree, dec, ignore=''):
    """a scanner made after another one whose kinds have the same names and other patterns"""
    world = World(nonempty=['rxA', 'rxB', 'ryA', 'ryB'], limit=6)
    it = RtInterp(dec, tree, world)
    cls = it.globals.vars['Scanner']
    whole = world.whole

    def ask(sc, i, restrict):
        try:
            return ('token', it.call(it.getattr(sc, 'token'), [i] + ([] if restrict is None else [restrict])))
        except Raise as r:
            return ('raise', exc_name(r.exc))
    one = it.call(cls, [[('A', 'ryA'), ('B', 'ryB')], [], whole])
    first = ask(one, 0, ['A'])
    two = it.call(cls, [[('A', 'rxA'), ('B', 'rxB')], list(ignore), whole])
    spec = Spec(it, world, 'AB', ignore, whole)
    for i, restrict in ((0, ('A', 'B')), (1, ('A',))):
        want, got = spec.token(i, restrict), ask(two, i, restrict)
        bad = compare(it, world, want, got)
        if bad:
            return [(bad[0], 'after another scanner, token(%d, %r): %s' % (i, restrict, bad[1]))]
        if got[0] == 'raise':
            break
    if first[0] == 'token' and ask(one, 0, ['A']) != first:
        return [('refusal', 'the tokens of a scanner change when another one is made')]
    return []


def same(it, world, a, b):
    try:
        d = it.binop('Sub', a, b)
    except (Unsupported, Raise):
        return False
    return world.eq(d)


def compare(it, world, want, got):
    if want[0] == 'raise':
        if got == want:
            return None
        return ('refusal', 'should raise %s, but %s' % (want[1], 'raises ' + got[1] if got[0] == 'raise' else
                                                        'a token is returned'))
    if got[0] == 'raise':
        return ('token', 'raises %s where there is a token to read' % got[1])
    t = got[1]
    if not isinstance(t, (tuple, list)) or len(t) != 4:
        return ('token', 'the token is not (start, end, name, text)')
    s, e, n = want[1]
    if t[2] != n:
        return ('choice', 'returns the token kind %r where the rule selects %r' % (t[2], n))
    if not same(it, world, t[0], s) or not same(it, world, t[1], e):
        return ('extent', 'the token returned does not extend over the text that was matched')
    x = t[3]
    if not isinstance(x, zone.Slice) or not same(it, world, x.a, s) or not same(it, world, x.b, e):
        return ('text', 'the text returned is not the text matched')
    return None


# ---- positions in the text

def positions(tree, dec):
    """get_line_number, get_column_number, get_prev_char_pos, get_input_scanned after two tokens"""
    world = World(limit=8)
    it = RtInterp(dec, tree, world)
    cls = it.globals.vars['Scanner']
    whole = world.whole
    sc = it.call(cls, [[('A', 'rxA')], [], whole])
    spec = Spec(it, world, 'A', '', whole)
    for i in (0, 1):
        if spec.token(i, None)[0] == 'token':
            it.call(it.getattr(sc, 'token'), [i])
    if not spec.tokens:
        raise Cut('nothing read')
    done = zone.Slice(whole, 0, spec.pos)
    out = []

    def ask(name, want, *a):
        try:
            got = it.call(it.getattr(sc, name), list(a))
        except Raise as r:
            out.append(('position', '%s%r raises %s' % (name, a, exc_name(r.exc))))
            return
        if isinstance(want, zone.Slice):
            ok = isinstance(got, zone.Slice) and same(it, world, got.a, want.a) and same(it, world, got.b, want.b)
        else:
            ok = same(it, world, got, want)
        if not ok:
            out.append(("position", "%s%r does not agree with the position of the text read" % (name, a)))
    ask('get_input_scanned', done)
    ask('get_char_pos', spec.pos)
    ask('get_line_number', it.binop('Add', done.measure(it, 'count', '\n', ()), 1))
    last = done.measure(it, 'rfind', '\n', ())
    ask('get_column_number', it.binop('Sub', it.binop('Sub', spec.pos, last), 1))
    ask('get_token_pos', len(spec.tokens))
    ask('get_input_unscanned', zone.Slice(whole, spec.pos, whole.end))
    ask('get_prev_char_pos', spec.tokens[-1][0] if it.compare('NotEq', spec.pos, 0) else 0)
    for i, t in enumerate(spec.tokens):
        ask('get_prev_char_pos', t[0] if it.compare('NotEq', spec.pos, 0) else 0, i)
    return out


class Star(Abs):
    """the compiled module: records what is asked of it"""
    kind = 'StarScan'

    def __init__(self, answer):
        self.log, self.answer = [], answer

    def getattr(self, it, name):
        def f(*a):
            self.log.append((name, a))
            if name == 'token':
                r = self.answer(a)
                if isinstance(r, type):
                    raise Raise(Inst(r, {'args': ()}))
                return r
            if name == 'last_ten':
                return []
            return ()
        return Native('StarScan.' + name, f)


def errors_in(tree):
    out = {'ValueError', 'TypeError', 'MemoryError', 'RuntimeError', 'UnicodeDecodeError', 'SystemError'}
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(getattr(builtins, n.id, None), type) and \
                issubclass(getattr(builtins, n.id), Exception):
            out.add(n.id)
    # what an IndexError handler must catch anyway
    return sorted(out - {'IndexError', 'LookupError', 'Exception'})


def chosen(tree, star, flex):
    """is the compiled module started for this scanner? (None: an error)"""
    world = World()
    it = RtInterp(mini.Decisions(), tree, world, star)
    try:
        it.call(it.globals.vars['Scanner'], [[('A', 'rxA')], [], world.whole], {'scantype': 'flex'} if flex else {})
    except Raise as r:
        return exc_name(r.exc)
    return bool(star and [l for l in star.log if l[0] == 'prepare'])


def compiled(tree, dec):
    out = []
    if chosen(tree, Star(lambda a: IndexError), False):
        out.append(('compiled', 'the compiled scanner is used although the standard one is asked for'))
    r = chosen(tree, None, True)
    if r:
        out.append(('compiled', 'without the compiled module, %s instead of the Python scanner' % r))
    r = chosen(tree, Star(lambda a: IndexError), True)
    if r is not True:
        out.append(('compiled', 'the compiled scanner is not used although it is there and asked for%s' % (
            ' (%s)' % r if r else '')))
    if out:
        return out
    world = World()
    errs = errors_in(tree)
    toks = {0: (1, 0, 'A', 'x'), 1: (2, 0, 'B', 'y')}
    star = Star(lambda a: getattr(builtins, errs[a[0] - 7]) if 7 <= a[0] < 7 + len(errs) else toks.get(a[0], IndexError))
    it = RtInterp(dec, tree, world, star)
    cls = it.globals.vars['Scanner']
    whole = world.whole
    sc = it.call(cls, [None, [], whole], {'scantype': 'flex'})
    prep = [l for l in star.log if l[0] == 'prepare']
    if len(prep) != 1 or len(prep[0][1]) != 1 or prep[0][1][0] is not whole:
        out.append(('compiled', 'the compiled scanner is not given the whole input exactly once'))
    for i, restrict in ((0, ['A']), (1, ('A', 'B')), (1, ['B']), (0, None), (2, ['A'])) + tuple((7 + k, ['A']) for k in range(len(errs))):
        star.log = []
        try:
            got = it.call(it.getattr(sc, 'token'), [i, restrict])
        except Raise as r:
            got = exc_name(r.exc)
        want = toks.get(i, 'NoMoreTokens' if i == 2 else errs[i - 7] if i >= 7 else None)
        if got != want:
            out.append(('compiled', 'token(%d) of the compiled scanner: %r becomes %r' % (i, want, got)))
        if any(l[0] == 'prepare' for l in star.log):
            out.append(('compiled', 'asking for a token starts the compiled scanner again'))
    try:
        it.call(it.getattr(sc, '__repr__'), [])
    except Raise as r:
        out.append(('report', 'the state of the compiled scanner cannot be shown: %s' % exc_name(r.exc)))
    # every scanner starts it afresh, for the same text too
    for text in (whole, zone.Slice(whole, 0, whole.end), whole):
        star.log = []
        try:
            it.call(cls, [None, [], text], {'scantype': 'flex'})
        except Raise as r:
            out.append(('compiled', 'a second compiled scanner: %s' % exc_name(r.exc)))
            break
        names = [l for l in star.log if l[0] == 'prepare']
        if not names or len(names[-1][1]) != 1 or names[-1][1][0] is not text:
            out.append(('compiled', 'a second scanner for the same text goes on where the first one stopped'))
            break
    # without the compiled module the Python scanner is used
    world = World()
    it = RtInterp(dec, tree, world)
    sc = it.call(it.globals.vars['Scanner'], [[('A', 'rxA')], [], world.whole], {'scantype': 'flex'})
    spec = Spec(it, world, 'A', '', world.whole)
    want = spec.token(0, None)
    try:
        got = ('token', it.call(it.getattr(sc, 'token'), [0]))
    except Raise as r:
        got = ('raise', exc_name(r.exc))
    bad = compare(it, world, want, got)
    if bad:
        out.append((bad[0], 'without the compiled module: ' + bad[1]))
    return out


# ---- the parser

class FakeScanner(Abs):
    kind = 'scanner'

    def __init__(self, it, toks):
        self.toks, self.log, self.it = toks, [], it

    def getattr(self, it, name):
        if name == 'token':
            def token(i, restrict=None):
                self.log.append((i, None if restrict is None else list(restrict)))
                r = self.toks.get(i)
                if r is None:
                    raise Raise(it.call(it.globals.vars['NoMoreTokens'], []))
                return r
            return Native('token', token)
        if name == 'input':
            return 'text'
        return Native(name, lambda *a: 0)


def parser(tree, dec, first='A', second='B'):
    world = World()
    it = RtInterp(dec, tree, world)
    toks = {0: (11, 12, first, 'first'), 1: (13, 14, second, 'second')}
    sc = FakeScanner(it, toks)
    p = it.call(it.globals.vars['Parser'], [sc])
    out = []

    def do(name, args, want, asked):
        sc.log = []
        try:
            got = it.call(it.getattr(p, name), list(args))
        except Raise as r:
            got = ('raise', exc_name(r.exc))
        if got != want:
            out.append(('parser', '%s%r with the next token %s: %r instead of %r' % (name, args, asked[0], got, want)))
        for i, r in sc.log:
            if i != asked[0] or r is None or sorted(r) != sorted(asked[1]):
                out.append(('parser', '%s%r asks the scanner for token %r among %r' % (name, args, i, r)))
    err = ('raise', 'YappsSyntaxError')
    do('_peek', (first, second), first, (0, [first, second]))
    do('_peek', (first,), first, (0, [first]))
    do('_scan', (second,), err, (0, [second]))
    do('_scan', (first,), 'first', (0, [first]))
    do('_peek', (first, second), second, (1, [first, second]))
    do('_scan', (first,), err, (1, [first]))
    do('_scan', (second,), 'second', (1, [second]))
    do('_scan', (second,), ('raise', 'NoMoreTokens'), (2, [second]))
    do('_peek', (second,), ('raise', 'NoMoreTokens'), (2, [second]))

    # wrap_error_reporter and print_error
    errors = []
    it.globals.vars['print_line_with_pointer'] = Native('plwp', lambda *a: errors.append(a))

    class P(Abs):
        kind = 'parser'

        def __init__(self, outcome):
            self.outcome = outcome

        def isinstance(self, it, classes):
            return False

        def getattr(self, it, name):
            if name == '_scanner':
                return sc

            def rule(*a):
                if isinstance(self.outcome, Inst):
                    raise Raise(self.outcome)
                return self.outcome
            return Native(name, rule)
    ctxc = it.globals.vars['Context']
    outer = it.call(ctxc, [None, sc, 0, 'outer', [1]])
    inner = it.call(ctxc, [outer, sc, 1, 'inner'])
    yse = it.globals.vars['YappsSyntaxError']
    f = it.globals.vars['wrap_error_reporter']
    for what, outcome, want in (
            ('a result', 'value', 'value'),
            ('a syntax error', it.call(yse, [5, 'bad']), None),
            ('a syntax error in a rule', it.call(yse, [5, 'bad', inner]), None),
            ('the end of the tokens', it.call(it.globals.vars['NoMoreTokens'], []), None),
            ('another error', Inst(ValueError, {'args': ()}), ('raise', 'ValueError'))):
        try:
            got = it.call(f, [P(outcome), 'rule'])
        except Raise as r:
            got = ('raise', exc_name(r.exc))
        if got != want:
            out.append(('report', 'wrap_error_reporter on %s: %r instead of %r' % (what, got, want)))
    e = it.call(yse, [5, 'bad', inner])
    for a, w in (('charpos', 5), ('msg', 'bad'), ('context', inner)):
        if it.getattr(e, a) is not w and it.getattr(e, a) != w:
            out.append(('report', 'a syntax error loses its %s' % a))
    for ctx, n in ((None, 1), (inner, 2), (outer, 1)):
        del errors[:]
        try:
            it.call(it.globals.vars['print_error'], ['text', it.call(yse, [5, 'bad', ctx]), sc])
        except Raise as r:
            out.append(('report', 'print_error raises %s' % exc_name(r.exc)))
            continue
        if len(errors) != n:
            out.append(('report', 'print_error shows %d places instead of %d' % (len(errors), n)))
    return out

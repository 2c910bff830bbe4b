"""Reports of syntax errors (yapps3_compiled_rt.py), interpreted over texts whose characters are known only by their place."""
import re

from sa import mini, program
from sa.mini import Abs, Inst, Native, Raise
from .scanner import RT, exc_name, runtime_tree


class Stream(Abs):
    kind = 'stream'

    def __init__(self, name):
        self.name, self.text = name, ''

    def getattr(self, it, name):
        if name == 'write':
            def write(s):
                self.text += it.plain_text(s)
            return Native('write', write)
        if name == 'writelines':
            def lines(seq):
                for s in it.iterate(seq):
                    self.text += it.plain_text(s)
            return Native('writelines', lines)
        return Native(name, lambda *a: None)

    def truth(self, it):
        return True


class Shown:
    """an object of the analysed program inside a format"""

    def __init__(self, it, o):
        self.it, self.o = it, o

    def __str__(self):
        return self.it.shown(self.o, '__str__')

    def __repr__(self):
        return self.it.shown(self.o, '__repr__')


class Match(Abs):
    def __init__(self, m):
        self.m = m

    def truth(self, it):
        return True

    def getattr(self, it, name):
        return Native(name, lambda *a: getattr(self.m, name)(*a))


class Regex(Abs):
    def __init__(self, rx):
        self.rx = rx

    def getattr(self, it, name):
        def f(*a):
            m = getattr(self.rx, name)(*a)
            return None if m is None else Match(m)
        return Native(name, f)


class Interp(mini.Interp):
    """prints into two streams and shows objects with their own methods"""

    def __init__(self, dec, tree, star=None, steps=60000):
        mini.Interp.__init__(self, dec, steps)
        self.out, self.err = Stream('stdout'), Stream('stderr')
        g = self.globals.vars
        g['print'] = Native('print', self.do_print)
        g['sys'] = Inst('module', {'stdout': self.out, 'stderr': self.err, '__stderr__': self.err, 'argv': ['x']})
        g['re'] = Inst('module', {'compile': Native('compile', lambda p, *f: Regex(re.compile(p)))})
        g['str'] = str
        g['__name__'] = 'CifFile.yapps3_compiled_rt'
        g['have_star_scan'] = star is not None
        g['StarScan'] = star
        g['sum'] = Native('sum', lambda s, *a: sum(list(self.iterate(s)), *a))
        self.load(tree)
        g['have_star_scan'] = star is not None
        if star is not None:
            g['StarScan'] = star

    def do_print(self, *a, sep=' ', end='\n', file=None, flush=False):
        s = self.out if file is None else file
        if not isinstance(s, Stream):
            raise mini.Unsupported('print to %r' % (s,))
        s.text += (' ' if sep is None else sep).join(self.plain_text(x) for x in a) + ('\n' if end is None else end)

    def shown(self, o, how):
        if isinstance(o.cls, mini.ClassVal):
            for n in ('__str__', '__repr__') if how == '__str__' else ('__repr__',):
                r = o.cls.lookup(n)
                if r:
                    v = self.call(r[0], [o])
                    return self.plain_text(v)
            if o.cls.is_exception() and how == '__str__':
                a = o.attrs.get('args', ())
                return '' if not a else str(a[0]) if len(a) == 1 else str(a)
        return '<object>'

    def wrap(self, x):
        if isinstance(x, Inst):
            return Shown(self, x)
        if isinstance(x, tuple):
            return tuple(self.wrap(y) for y in x)
        if isinstance(x, list):
            return [self.wrap(y) for y in x]
        if isinstance(x, (Abs, mini.Func, mini.Bound, mini.ClassVal)):
            return '<object>'
        return x

    def plain_text(self, x):
        return str(self.wrap(x))

    def format_mod(self, a, b):
        try:
            return a % self.wrap(b)
        except Exception as x:
            if isinstance(x, (Raise, mini.Cut, program.AnalysisBroken)):
                raise
            raise Raise(Inst(type(x), {'args': x.args}))

    def call_type(self, t, args, kw):
        if t is str and args and isinstance(args[0], (Inst, list, tuple)):
            return self.plain_text(args[0])
        return mini.Interp.call_type(self, t, args, kw)

    def b_repr(self, x):
        return repr(self.wrap(x))

    def str_method(self, o, name, a, k):
        if name == 'format':
            return o.format(*[self.wrap(x) for x in a], **{i: self.wrap(x) for i, x in k.items()})
        return mini.Interp.str_method(self, o, name, a, k)

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if hasattr(v, 'values') or not hasattr(v, 'conversion'):
                parts.append(v.value)
                continue
            x = self.wrap(self.expr(v.value, env))
            x = repr(x) if v.conversion == 114 else str(x) if v.conversion == 115 else x
            spec = self.expr(v.format_spec, env) if v.format_spec is not None else ''
            parts.append(format(x, spec) if not isinstance(x, Shown) else str(x))
        return ''.join(parts)


BASE = 0xE000


def chars(n, at):
    return ''.join(chr(BASE + at + i) for i in range(n))


def pointed(f, pre, left, right, suffix):
    """f(text, p) -> stderr text; what is wrong with it, or None"""
    line = chars(left + right, 0)
    text = pre + line + suffix
    p = len(pre) + left
    out = f(text, p)
    where = '%d characters before and %d after the place, %s' % (
        left, right, 'first line' if not pre else 'after a line that ends in %r' % pre[-2:].strip(chars(2, 2000)))
    if not isinstance(out, str):
        return where + ': raises ' + out[0]
    if out.count('\n') != 2 or not out.endswith('\n'):
        return where + ': not two lines'
    a, b = out.split('\n')[:2]
    k = b.find('^')
    if k < 0 or b.count('^') != 1 or b.strip('> ^').strip():
        return where + ': no line with a single caret'
    here = [i for i, c in enumerate(a) if BASE <= ord(c) < BASE + 2400]
    if any(ord(a[i]) >= BASE + 1000 for i in here):
        return where + ': characters of another line are shown'
    if here and (''.join(a[i] for i in here) not in line or here[-1] - here[0] + 1 != len(here)):
        return where + ': what is shown is no part of the line'
    if right:
        if k >= len(a) or a[k] != line[left]:
            return where + ': the caret is not under the character'
    elif left:
        if not here or k != here[-1] + 1 or a[k - 1] != line[left - 1]:
            return where + ': the caret is not behind the last character'
    elif here or k != len(a.rstrip()) and k != len(a):
        pass
    if left + right <= 70 and len(here) != left + right:
        return where + ': the line is not shown whole'
    before = sum(1 for i in here if i < k)
    if before < min(left, 40) or len(here) - before < min(right, 20):
        return where + ': the surroundings of the place are not shown'
    start = here[0] if here else len(a)
    if before < left and '...' not in a[:start]:
        return where + ': the beginning is cut off without a sign of it'
    if before == left and '...' in a:
        return where + ': something is shown as cut off that is not'
    if k > 76:
        return where + ': the caret is beyond the width of the display'
    return None


def pres():
    o = chars(7, 2000)
    long = chars(120, 2000)
    return ['', '\n', o + '\n', o + '\r\n', o + '\r', '\r\n', o + '\n' + o + '\r\n', o + '\r' + o + '\n', long + '\n',
            o + '\n' + o + '\r', long + '\r\n' + o + '\n']


def suffixes():
    o = chars(5, 1500)
    return ['', '\n', '\r\n', '\r', '\n' + o, '\r\n' + o + '\n', '\r' + o + '\n' + o, '\n\n' + o]


def lengths(deep):
    ls = [0, 1, 2, 9, 10, 11, 40, 49, 50, 51, 59, 60, 61, 62, 66, 67, 70, 71, 76, 77, 78, 79, 80, 81, 82, 90, 150]
    rs = [0, 1, 2, 8, 9, 10, 11, 12, 60, 69, 70, 71, 78, 79, 80, 81, 150]
    return (list(range(0, 86)) + [150], list(range(0, 86)) + [150]) if deep else (ls, rs)


def pointer(tree, left, deep, dec):
    """all surroundings of a place with `left` characters before it in its line -> problems, count"""
    it = Interp(dec, tree, steps=10 ** 9)
    f = it.globals.vars.get('print_line_with_pointer')
    if f is None:
        raise program.AnalysisBroken('print_line_with_pointer not found in ' + RT)

    def run(text, p):
        it.err.text = it.out.text = ''
        it.steps = 4000
        try:
            it.call(f, [text, p])
        except Raise as r:
            return (exc_name(r.exc),)
        except mini.Endless:
            return ('no end',)
        if it.out.text:
            return ('(output on the standard output)',)
        return it.err.text
    out, n = [], 0
    for right in lengths(deep)[1]:
        for pre in pres():
            for suf in suffixes():
                n += 1
                bad = pointed(run, pre, left, right, suf)
                if bad and len(out) < 2:
                    out.append(('pointer', bad))
    return out, n


# ---- messages

TEXT = 'ab 12\ncd\n345 xyz\n !! 6\n'
PATS = [('WORD', '[a-z]+'), ('NUM', '[0-9]+'), ('blank', '[ \n]+')]


MANY = ['K%s' % c for c in 'QRSTUVXYZABC']


def messages(tree, dec):
    out = []
    it = Interp(dec, tree)
    g = it.globals.vars

    def say(rule, text):
        if len(out) < 6:
            out.append((rule, text))

    def new(name, *a, **k):
        return it.call(g[name], list(a), k)

    # exceptions
    for pos in (0, 1, 17):
        s = it.plain_text(new('YappsSyntaxError', pos, 'mess'))
        if str(pos) not in s or 'mess' not in s:
            say('message', 'a syntax error at %d is shown as %r' % (pos, s))
    s = it.plain_text(new('YappsSyntaxError'))
    if 'SyntaxError' not in s:
        say('message', 'a syntax error without a place is shown as %r' % s)
    e = new('YappsSyntaxError')
    if it.getattr(e, 'charpos') != -1 or it.getattr(e, 'context') is not None or it.getattr(e, 'msg') != 'Bad Token':
        say('message', 'a syntax error has other values when none are given')

    # scanner: errors carry the place and the tokens that were possible
    def scanner(n=0):
        sc = it.call(g['Scanner'], [PATS + [(k, '@' + k) for k in MANY], ['blank'], TEXT])
        for i in range(n):
            it.call(it.getattr(sc, 'token'), [i])
        return sc
    toks = [(m.start(), m.end(), 'WORD' if m.group().isalpha() else 'NUM', m.group())
            for m in re.finditer('[a-z]+|[0-9]+', TEXT[:TEXT.index('!')])]
    for restrict, names in ((['WORD', 'NUM'], ['WORD', 'NUM']), (('NUM',), ['NUM']), (None, []), ([], []),
                            (MANY + ['NUM'], MANY + ['NUM']), (['WORD'] + MANY[:4], ['WORD'] + MANY[:4])):
        sc = scanner(5)
        try:
            it.call(it.getattr(sc, 'token'), [5, restrict])
            say('place', 'text that is no token is accepted')
        except Raise as r:
            if exc_name(r.exc) != 'YappsSyntaxError':
                say('place', 'text that is no token raises %s' % exc_name(r.exc))
            else:
                if it.getattr(r.exc, 'charpos') != TEXT.index('!'):
                    say('place', 'the error at character %d is given as %r' % (TEXT.index('!'), it.getattr(r.exc, 'charpos')))
                for w in names:
                    if w not in it.plain_text(it.getattr(r.exc, 'msg')):
                        say('place', 'the error does not name the possible token %s' % w)
                for w in {'WORD', 'NUM', *MANY} - set(names):
                    if w in it.plain_text(it.getattr(r.exc, 'msg')):
                        say('place', 'the error names %s, which was not possible' % w)
    sc = scanner(0)
    p = it.call(g['Parser'], [sc])
    for i, t in enumerate(toks):
        other = 'NUM' if t[2] == 'WORD' else 'WORD'
        it.call(it.getattr(p, '_peek'), ['WORD', 'NUM'])
        try:
            it.call(it.getattr(p, '_scan'), [other])
            say('place', 'a token of another kind is accepted')
        except Raise as r:
            if exc_name(r.exc) != 'YappsSyntaxError':
                say('place', 'a token of another kind raises %s' % exc_name(r.exc))
            elif it.getattr(r.exc, 'charpos') != t[0] or other not in it.plain_text(it.getattr(r.exc, 'msg')):
                say('place', 'the error for the unexpected token at %d is %s' % (t[0], it.plain_text(r.exc)))
        it.call(it.getattr(p, '_scan'), [t[2]])

    # the last ten tokens
    for n in (0, 1, 5):
        shown(it, say, scanner(n), toks[:n], 'the scanner after %d tokens' % n)
    words = ' '.join('w%s' % chr(97 + i) for i in range(14))
    sc = it.call(g['Scanner'], [[('WORD', '[a-z]+'), ('blank', ' +')], ['blank'], words])
    for i in range(13):
        it.call(it.getattr(sc, 'token'), [i])
    shown(it, say, sc, [(3 * i, 3 * i + 2, 'WORD', 'w%s' % chr(97 + i)) for i in range(13)][-10:], 'the scanner after 13 tokens',
          'wa wb wc'.split())

    # contexts
    sc = scanner(5)
    a = new('Context', None, sc, 0, 'alpha', (1, 'q'))
    b = new('Context', a, sc, 2, 'beta')
    c = new('Context', b, sc, 4, 'gamma', [7])
    for x, w in ((a, 'alpha'), (b, 'alpha > beta'), (c, 'alpha > beta > gamma')):
        if it.plain_text(x) != w:
            say('message', 'the context %s is shown as %r' % (w, it.plain_text(x)))

    # print_error
    for n in (0, 1, 2, 3, 4, 5):
        done = toks[n - 1][1] if n else 0
        line, col = TEXT[:done].count('\n') + 1, done - (TEXT[:done].rfind('\n') + 1)
        for ctx, chain in ((None, []), (a, [a]), (b, [b, a]), (c, [c, b, a])):
            if chain and n < 5:
                continue
            sc = scanner(n)
            for x in chain:
                x.attrs['scanner'] = sc
            at = TEXT.index('xyz') if n > 2 else 3
            it.err.text = it.out.text = ''
            marks = []
            old = g['print_line_with_pointer']

            def mark(text, pos):
                marks.append((text, pos))
                it.err.text += '@%s\n' % (pos,)
            g['print_line_with_pointer'] = Native('pointer', mark)
            try:
                it.call(g['print_error'], [TEXT, new('YappsSyntaxError', at, 'mess %s', ctx), sc])
            except Raise as r:
                say('report', 'print_error raises %s' % exc_name(r.exc))
                continue
            finally:
                g['print_line_with_pointer'] = old
            ls = it.err.text.split('\n')[:-1]
            if it.out.text:
                say('report', 'part of the report goes to the standard output')
            if not ls or ls[0] != '%d:%d: mess %%s' % (line, col):
                say('report', 'with line %d and column %d read, the report starts with %r' % (line, col, ls[:1]))
            want = [(TEXT, toks[x.attrs['tokenpos']][0]) for x in chain] or [(TEXT, at)]
            if marks != want:
                say('report', 'places shown: %s instead of %s' % ([m[1] for m in marks], [m[1] for m in want]))
            names = [x for x in ls[1:] if not x.startswith('@')]
            if len(names) != len(chain) or any(
                    x.attrs['rule'] not in t or any(repr(v) not in t for v in x.attrs['args']) for x, t in zip(chain, names)):
                say('report', 'rules shown: %s instead of %s' % (names, [x.attrs['rule'] for x in chain]))
            kinds = ['@' if x.startswith('@') else 'r' for x in ls[1:]]
            if kinds != (['r', '@'] * len(chain) or ['@']):
                say('report', 'the rules and places are not shown in turn')

    # wrap_error_reporter
    for what in ('value', 'syntax', 'more', 'other', 'none'):
        sc = scanner(4 if what != 'none' else 0)
        e = {'syntax': new('YappsSyntaxError', 3, 'mess'), 'more': new('NoMoreTokens'), 'none': new('NoMoreTokens'),
             'other': Inst(KeyError, {'args': ('k',)})}.get(what)

        class P(Abs):
            kind = 'parser'

            def isinstance(self, it, classes):
                return False

            def getattr(self, it, name):
                if name == '_scanner':
                    return sc
                if name == 'wanted':
                    def rule(*x):
                        if x:
                            raise mini.Unsupported('arguments')
                        if e is not None:
                            raise Raise(e)
                        return 'result'
                    return Native('rule', rule)
                raise Raise(Inst(AttributeError, {'args': (name,)}))
        it.err.text = it.out.text = ''
        try:
            got = it.call(g['wrap_error_reporter'], [P(), 'wanted'])
        except Raise as r:
            got = exc_name(r.exc)
        want = {'value': 'result', 'other': 'KeyError'}.get(what)
        if got != want:
            say('report', 'wrap_error_reporter gives %r instead of %r' % (got, want))
        if it.out.text:
            say('report', 'part of the report goes to the standard output')
        t = it.err.text
        if what in ('value', 'other') and t:
            say('report', 'a report is printed without a syntax error')
        if what == 'syntax' and (not t.startswith('3:3: mess\n') or '^' not in t):
            say('report', 'the report of a syntax error is %r' % t)
        if what == 'none' and not t.strip():
            say('report', 'an end of the tokens before the first one is not reported')
        if what == 'more':
            for k in toks[:4]:
                if k[3] not in t or k[2] not in t:
                    say('report', 'the token %s before the end is not reported' % k[3])
            if t.count('\n') < 2:
                say('report', 'the end of the tokens is not reported')
    return out


def places(tree, dec):
    """line and column of a scanner for every short text and place"""
    import itertools
    it = Interp(dec, tree, steps=3000000)
    sc = it.call(it.globals.vars['Scanner'], [None, [], ''])
    out = []
    pieces = ('a', '\n', '\r\n', '\x0c', '\u2028', ' ')
    for n in range(4):
        for t in itertools.product(pieces, repeat=n):
            t = ''.join(t)
            for pos in range(len(t) + 1):
                if t[pos - 1:pos + 1] == '\r\n':
                    continue
                for first in (1, 5):
                    sc.attrs.update(input=t, pos=pos, first_line_number=first)
                    for name, want in (('get_line_number', first + t.count('\n', 0, pos)), ('get_column_number', pos - (t.rfind('\n', 0, pos) + 1))):
                        try:
                            got = it.call(it.getattr(sc, name), [])
                        except Raise as r:
                            got = exc_name(r.exc)
                        if got != want:
                            return [('report', '%s gives %r behind %r in %r, should be %d' % (name, got, t[:pos], t, want))]
    return out


def shown(it, say, sc, toks, what, absent=()):
    for how in ('__repr__',):
        try:
            s = it.shown(sc, how)
        except Raise as r:
            say('tokens', '%s cannot be shown: %s' % (what, exc_name(r.exc)))
            return
    ls = [x for x in s.split('\n') if x.strip()]
    if len(ls) != len(toks):
        say('tokens', '%s shows %d tokens instead of %d' % (what, len(ls), len(toks)))
        return
    for l, t in zip(ls, toks):
        if str(t[0]) not in l or t[2] not in l or repr(t[3]) not in l:
            say('tokens', '%s shows %r for the token %r' % (what, l, t))


class Star(Abs):
    kind = 'StarScan'

    def __init__(self, ten):
        self.ten = ten

    def getattr(self, it, name):
        if name == 'last_ten':
            return Native(name, lambda: list(self.ten))
        return Native(name, lambda *a: ())


def compiled(tree, dec):
    out = []
    for n in (0, 1, 3, 10):
        ten = [(41 + 7 * i, 0, 'KIND%s' % chr(65 + i), 'text\n%d' % i) for i in range(n)]
        it = Interp(dec, tree, Star(ten))
        sc = it.call(it.globals.vars['Scanner'], [None, [], TEXT], {'scantype': 'flex'})
        shown(it, lambda r, t: out.append((r, t)), sc, ten, 'the compiled scanner with %d tokens' % n)
    return out


__all__ = ['pointer', 'messages', 'compiled', 'places', 'runtime_tree', 'RT', 'lengths']

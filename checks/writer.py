"""How a value is written (`_formatstring`, `_format_key`) against how the grammars read it: abstract interpretation over one
unknown text, of which the regular language it belongs to is known at every point; states that differ in that language only are
merged after every statement."""
import ast

from sa import lang, mini, relang
from sa.lang import Lang
from sa.mini import Abs, Cut, Env, Inst, Native, Raise, Unsupported

RE_FLAGS = {'M': relang.re.M, 'MULTILINE': relang.re.M, 'I': relang.re.I, 'IGNORECASE': relang.re.I, 'S': relang.re.S,
            'DOTALL': relang.re.S, 'U': relang.re.U, 'UNICODE': relang.re.U}


class Free(Abs):
    """a value nothing is known of: both answers to every question"""
    kind = 'free'

    def key(self):
        return 'free'

    def truth(self, it):
        return it.choose_bool()

    def binop(self, it, op, other, reflected):
        return self

    def unop(self, it, op):
        return self

    def compare(self, it, op, other, reflected):
        if op in ('Is', 'IsNot') and other is None:
            return op == 'IsNot'
        return it.choose_bool()

    def getattr(self, it, name):
        return Native(name, lambda *a, **k: self)

    def getitem(self, it, key):
        return self

    def iterate(self, it):
        return [self]

    def length(self, it):
        return self

    def contains(self, it, item):
        return it.choose_bool()

    def within(self, it, c):
        return it.choose_bool()


FREE = Free()


class Made(Abs):
    """a text derived from the unknown one by an operation that is not followed (folding, prefixing, replacing)"""
    kind = 'made'

    def __init__(self, pre='', post='', other=False):
        """`other`: certainly not the text it was made from"""
        self.pre, self.post, self.other = pre, post, other

    def key(self):
        return ('made', self.pre, self.post, self.other)

    def truth(self, it):
        return bool(self.pre or self.post) or it.choose_bool()

    def binop(self, it, op, other, reflected):
        if op == 'Add' and isinstance(other, str):
            return Made(other + self.pre, self.post, self.other) if reflected else \
                Made(self.pre, self.post + other, self.other)
        return Made()

    def compare(self, it, op, other, reflected):
        if op in ('Is', 'IsNot'):
            return (other is self) == (op == 'Is')
        if self.other and isinstance(other, Cat) and op in ('Eq', 'NotEq'):
            return op == 'NotEq'
        return it.choose_bool()

    def getattr(self, it, name):
        return Native(name, lambda *a, **k: FREE)

    def getitem(self, it, key):
        if isinstance(key, slice):
            return Made(other=self.other)
        return FREE

    def iterate(self, it):
        return [FREE]

    def length(self, it):
        return FREE

    def contains(self, it, item):
        return it.choose_bool()

    def within(self, it, c):
        return it.choose_bool()

    def isinstance(self, it, classes):
        return str in (classes if isinstance(classes, tuple) else (classes,))


class Size(Abs):
    """length of a text plus a number"""
    kind = 'size'

    def __init__(self, t, add=0):
        self.t, self.add = t, add

    def key(self):
        return ('size', self.t.key(), self.add)

    def truth(self, it):
        return self.compare(it, 'NotEq', 0, False)

    def binop(self, it, op, other, reflected):
        if isinstance(other, int) and op == 'Add':
            return Size(self.t, self.add + other)
        if isinstance(other, int) and op == 'Sub' and not reflected:
            return Size(self.t, self.add - other)
        return FREE

    def compare(self, it, op, other, reflected):
        if op in ('Is', 'IsNot'):
            return op == 'IsNot'
        if not isinstance(other, int):
            return it.choose_bool()
        n = other - self.add
        if reflected:
            op = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(op, op)
        al = it.world.al
        if op in ('Gt', 'LtE'):
            return it.asked(self.t, lang.longer(al, n)) == (op == 'Gt')
        if op in ('GtE', 'Lt'):
            return it.asked(self.t, lang.longer(al, n - 1)) == (op == 'GtE')
        return it.asked(self.t, lang.longer(al, n - 1) - lang.longer(al, n)) == (op == 'Eq')

    def index_into(self, it, o, k):
        return FREE


class Char(Abs):
    """the character at a place that the text has"""
    kind = 'char'

    def __init__(self, t, i):
        self.t, self.i = t, i

    def key(self):
        return ('char', self.t.key(), self.i)

    def truth(self, it):
        return True

    def compare(self, it, op, other, reflected):
        if op in ('Is', 'IsNot'):
            return (other is self) == (op == 'Is')
        if isinstance(other, str) and op in ('Eq', 'NotEq'):
            r = len(other) == 1 and it.asked(self.t, lang.char_at(it.world.al, self.i, other))
            return r == (op == 'Eq')
        return it.choose_bool()

    def within(self, it, c):
        return bool(c) and it.asked(self.t, lang.char_at(it.world.al, self.i, c))

    def getattr(self, it, name):
        if name in ('isspace',):
            w = [chr(s) for s in it.world.al.syms if chr(s).isspace()]
            return Native(name, lambda: it.asked(self.t, lang.char_at(it.world.al, self.i, ''.join(w))))
        if name in ('lower', 'upper'):
            return Native(name, lambda: Edge(self.t, 1, True, name == 'lower') if self.i == 0 else FREE)
        raise Unsupported('method %s of a character' % name)


class Edge(Abs):
    """the first (last) n characters, as they are or in lower case"""
    kind = 'edge'

    def __init__(self, t, n, start, low=False):
        self.t, self.n, self.start, self.low = t, n, start, low

    def key(self):
        return ('edge', self.t.key(), self.n, self.start, self.low)

    def truth(self, it):
        return it.asked(self.t, lang.longer(it.world.al, 0)) if self.n else False

    def compare(self, it, op, other, reflected):
        if op in ('Is', 'IsNot'):
            return (other is self) == (op == 'Is')
        if isinstance(other, str) and op in ('Eq', 'NotEq'):
            return it.asked(self.t, lang.edge(it.world.al, [other], self.n, self.start, self.low)) == (op == 'Eq')
        return it.choose_bool()

    def getattr(self, it, name):
        if name in ('lower', 'casefold'):
            return Native(name, lambda: Edge(self.t, self.n, self.start, True))
        if name in ('startswith',) and self.start:
            return Native(name, lambda p: len(p) <= self.n and
                          it.asked(self.t, lang.edge(it.world.al, [p], len(p), True, self.low)))
        raise Unsupported('method %s of a part of a text' % name)

    def getitem(self, it, k):
        if isinstance(k, slice) and self.start and k.start in (None, 0) and k.step is None and isinstance(k.stop, int) \
                and k.stop >= 0:
            return Edge(self.t, min(self.n, k.stop), True, self.low)
        raise Unsupported('part of a part of a text')

    def contains(self, it, item):
        return it.choose_bool()

    def within(self, it, c):
        """in a constant"""
        parts = {c[i:j] for i in range(len(c) + 1) for j in range(i, len(c) + 1) if j - i <= self.n}
        return it.asked(self.t, lang.edge(it.world.al, sorted(parts), self.n, self.start, self.low))


class Low(Abs):
    """the text in lower case"""
    kind = 'low'

    def __init__(self, t):
        self.t = t

    def key(self):
        return ('low', self.t.key())

    def getattr(self, it, name):
        if name in ('startswith', 'endswith'):
            def f(p):
                ps = p if isinstance(p, tuple) else (p,)
                out = lang.nothing(it.world.al)
                for x in ps:
                    out = out | lang.edge(it.world.al, [x], len(x), name == 'startswith', True)
                return it.asked(self.t, out)
            return Native(name, f)
        return Native(name, lambda *a, **k: FREE)

    def getitem(self, it, k):
        if isinstance(k, slice) and k.step is None:
            if k.start in (None, 0) and isinstance(k.stop, int) and k.stop >= 0:
                return Edge(self.t, k.stop, True, True)
            if k.stop is None and isinstance(k.start, int) and k.start < 0:
                return Edge(self.t, -k.start, False, True)
        raise Unsupported('part of a text in lower case')

    def truth(self, it):
        return self.t.truth(it)

    def length(self, it):
        return FREE

    def contains(self, it, item):
        return it.choose_bool()

    def compare(self, it, op, other, reflected):
        if isinstance(other, str) and op in ('Eq', 'NotEq'):
            return it.asked(self.t, lang.spelled(it.world.al, other, True, False)) == (op == 'Eq')
        return it.choose_bool()


class Cat(Abs):
    """pre + the unknown text + post"""
    kind = 'text'

    def __init__(self, pre='', post=''):
        self.pre, self.post = pre, post

    def key(self):
        return ('text', self.pre, self.post)

    def show(self):
        return '%r + S + %r' % (self.pre, self.post)

    def truth(self, it):
        return bool(self.pre or self.post) or it.asked(self, lang.longer(it.world.al, 0))

    def binop(self, it, op, other, reflected):
        if op == 'Add' and isinstance(other, str):
            return Cat(other + self.pre, self.post) if reflected else Cat(self.pre, self.post + other)
        if op == 'Add' and isinstance(other, (Cat, Made)):
            return Made()
        raise Unsupported('%s on a text' % op)

    def compare(self, it, op, other, reflected):
        if op in ('Is', 'IsNot'):
            return (other is self) == (op == 'Is')
        if op in ('Eq', 'NotEq'):
            if isinstance(other, Made) and other.other:
                return op == 'NotEq'
            if isinstance(other, Cat) and other.key() == self.key():
                return op == 'Eq'
            if isinstance(other, str):
                return it.asked(self, lang.word(it.world.al, other)) == (op == 'Eq')
            if other is None:
                return op == 'NotEq'
        return it.choose_bool()

    def length(self, it):
        return Size(self)

    def contains(self, it, item):
        if isinstance(item, str):
            return it.asked(self, lang.contains(it.world.al, item))
        return it.choose_bool()

    def within(self, it, c):
        al = it.world.al
        out = lang.nothing(al)
        for w in {c[i:j] for i in range(len(c) + 1) for j in range(i, len(c) + 1)}:
            out = out | lang.word(al, w)
        return it.asked(self, out)

    def iterate(self, it):
        return [FREE]

    def isinstance(self, it, classes):
        return str in (classes if isinstance(classes, tuple) else (classes,))

    def getitem(self, it, k):
        al = it.world.al
        if isinstance(k, slice):
            return self.cut(it, k)
        if not isinstance(k, int):
            return FREE
        n = k if k >= 0 else -k - 1
        if not it.asked(self, lang.longer(al, n)):
            raise Raise(Inst(IndexError, {'args': ()}))
        return Char(self, k)

    def cut(self, it, k):
        a, b = k.start, k.stop
        if isinstance(b, Size):
            b = b.add if b.t.key() == self.key() and b.add else (None if b.t.key() == self.key() else FREE)
        if isinstance(a, Size) or isinstance(a, Abs) or isinstance(b, Abs) or k.step is not None:
            return Made()
        if isinstance(b, int) and b < 0 and -b <= len(self.post) and (a is None or 0 <= a <= len(self.pre)):
            return Cat(self.pre[a or 0:], self.post[:b])
        if b is None and (a is None or 0 <= a <= len(self.pre)):
            return Cat(self.pre[a or 0:], self.post)
        if a in (None, 0) and isinstance(b, int) and b >= 0:
            return Edge(self, b, True)
        if b is None and isinstance(a, int) and a < 0:
            return Edge(self, -a, False)
        return Made()

    def getattr(self, it, name):
        al = it.world.al
        if name in ('lower', 'casefold'):
            return Native(name, lambda: Low(self))
        if name in ('startswith', 'endswith'):
            def f(p):
                out = lang.nothing(al)
                for x in p if isinstance(p, tuple) else (p,):
                    out = out | lang.edge(al, [x], len(x), name == 'startswith')
                return it.asked(self, out)
            return Native(name, f)
        if name in ('find', 'index', 'rfind', 'count'):
            return Native(name, lambda w, *a: Found(self, w))
        if name in ('split', 'splitlines', 'rsplit', 'partition', 'rpartition', 'encode'):
            return Native(name, lambda *a, **k: FREE)
        if name in ('strip', 'lstrip', 'rstrip', 'replace', 'upper', 'title', 'expandtabs', 'format', 'translate'):
            return Native(name, lambda *a, **k: Made())
        if name in ('isspace', 'isdigit', 'isalnum', 'isalpha'):
            return Native(name, lambda *a, **k: it.choose_bool())
        raise Unsupported('method %s of a text' % name)


class Found(Abs):
    """where a constant is found in the text"""
    kind = 'found'

    def __init__(self, t, w):
        self.t, self.w = t, w

    def key(self):
        return ('found', self.t.key(), self.w)

    def compare(self, it, op, other, reflected):
        if op in ('Is', 'IsNot'):
            return op == 'IsNot'
        there = it.asked(self.t, lang.contains(it.world.al, self.w))
        if isinstance(other, int):
            f = {'Lt': lambda x: x < other, 'LtE': lambda x: x <= other, 'Gt': lambda x: x > other,
                 'GtE': lambda x: x >= other, 'Eq': lambda x: x == other, 'NotEq': lambda x: x != other}[op]
            if not there:
                return f(-1)
            if other == 0 and op in ('GtE', 'Lt') or other == -1 and op in ('Gt', 'LtE', 'Eq', 'NotEq'):
                return f(0)
        return it.choose_bool()

    def binop(self, it, op, other, reflected):
        return FREE

    def index_into(self, it, o, k):
        return FREE


class Matched(Abs):
    """a match of a pattern; `ends`: where it ends, if it is within the constant part in front"""
    kind = 'matched'

    def __init__(self, t, end):
        self.t, self.at = t, end

    def key(self):
        return ('matched', self.t.key(), self.at)

    def truth(self, it):
        return True

    def compare(self, it, op, other, reflected):
        if op in ('Is', 'IsNot'):
            return (other is self) == (op == 'Is')
        return op == 'NotEq'

    def getattr(self, it, name):
        if name == 'end':
            return Native(name, lambda *a: FREE if self.at is None or a not in ((), (0,)) else self.at)
        if name == 'start':
            return Native(name, lambda *a: FREE)
        return Native(name, lambda *a, **k: Made())


class Pattern(Abs):
    kind = 'pattern'

    def __init__(self, p, flags):
        self.p, self.flags = p, flags

    def key(self):
        return ('pattern', self.p, self.flags)

    def truth(self, it):
        return True

    def getattr(self, it, name):
        if name in ('search', 'match', 'fullmatch'):
            return Native(name, lambda t, *a: it.matched(self.p, self.flags, t, name) if not a else FREE)
        if name == 'pattern':
            return self.p
        return Native(name, lambda *a, **k: Made() if name in ('sub',) else FREE)


class Re(Abs):
    kind = 're'

    def key(self):
        return 're'

    def getattr(self, it, name):
        if name in RE_FLAGS:
            return int(RE_FLAGS[name])
        if name == 'compile':
            return Native(name, lambda p, flags=0: Pattern(p, flags))
        if name in ('search', 'match', 'fullmatch'):
            def f(p, t, flags=0):
                return it.matched(p.p, p.flags, t, name) if isinstance(p, Pattern) else it.matched(p, flags, t, name)
            return Native(name, f)
        if name == 'sub':
            def sub(p, r, t, count=0, flags=0):
                return Made(other=isinstance(t, Abs))
            return Native(name, sub)
        if name == 'escape':
            return Native(name, lambda s: FREE if isinstance(s, Abs) else relang.re.escape(s))
        raise Unsupported('re.%s' % name)


class World:
    def __init__(self, al):
        self.al = al
        self.memo = {}


class Interp(mini.Interp):
    def __init__(self, dec, world, now, **kw):
        mini.Interp.__init__(self, dec, **kw)
        self.world, self.now = world, now
        self.globals.vars['re'] = Re()
        self.globals.vars['unicode'] = str

    def module(self, name):
        if name == 're':
            return Re()
        return FREE

    def imported(self, module, name):
        if module and module.split('.')[-1] == 're':
            return self.getattr(Re(), name)
        ok, v = self.globals.get(name)
        return v if ok else FREE

    def asked(self, t, whole):
        """does the text belong to the language?  (one about the whole text; the unknown part is narrowed)"""
        k = (t.pre, t.post, whole)
        yes = self.world.memo.get(k)
        if yes is None:
            yes = self.world.memo[k] = whole.quotient(t.pre, t.post)
        a = self.now & yes
        if a.empty():
            return False
        b = self.now - yes
        if b.empty():
            return True
        if self.choose_bool():
            self.now = a
            return True
        self.now = b
        return False

    def matched(self, p, flags, t, how):
        if isinstance(t, (Made, Free)) or isinstance(p, Abs):
            return Matched(t, None) if self.choose_bool() else None
        if isinstance(t, str):
            return Matched(Cat(), None) if getattr(relang.re, how)(p, t, flags) else None
        if not isinstance(t, Cat):
            return Matched(t, None) if self.choose_bool() else None
        key = ('re', p, flags, how)
        L = self.world.memo.get(key)
        if L is None:
            L = self.world.memo[key] = lang.regex(self.world.al, p, flags, how)
        if not self.asked(t, L):
            return None
        if how == 'match':
            for at in range(len(t.pre) + 1):
                k2 = ('end', p, flags, t.pre, t.post, at)
                E = self.world.memo.get(k2)
                if E is None:
                    E = self.world.memo[k2] = lang.match_ends(self.world.al, p, flags, at, t.pre).quotient('', t.post)
                if self.asked(Cat(), E):
                    return Matched(t, at)
        return Matched(t, None)


def freeze(v):
    if isinstance(v, Abs):
        return v.key() if hasattr(v, 'key') else ('abs', id(v))
    if isinstance(v, (set, frozenset)):
        return ('set', frozenset(map(freeze, v)))
    if isinstance(v, list):
        return ('list',) + tuple(map(freeze, v))
    if isinstance(v, tuple):
        return ('tuple',) + tuple(map(freeze, v))
    if isinstance(v, dict):
        return ('dict',) + tuple((freeze(k), freeze(x)) for k, x in v.items())
    if isinstance(v, Inst):
        return ('inst', id(v.cls)) + tuple(sorted((k, repr(freeze(x))) for k, x in v.attrs.items()))
    if isinstance(v, (str, int, float, type(None))):
        return (type(v).__name__, v)
    if isinstance(v, Native):
        return ('native', v.name)
    return ('other', id(v))


def copy(v):
    if isinstance(v, (set, list)):
        return type(v)(copy(x) for x in v)
    if isinstance(v, dict):
        return {k: copy(x) for k, x in v.items()}
    return v


class Runner:
    """runs the body of a function on every value of the unknown text at once"""

    def __init__(self, world, make, limit=3000):
        self.world, self.make, self.limit = world, make, limit
        self.returned, self.raised = {}, {}
        self.steps = 0

    def run(self, fn, args, first):
        """args: {name: value}"""
        names = [a.arg for a in fn.args.args]
        defaults = dict(zip(names[len(names) - len(fn.args.defaults):], fn.args.defaults))
        env = dict(args)
        it = self.make(mini.Decisions(), first)
        for n in names:
            if n not in env:
                if n not in defaults:
                    raise Unsupported('parameter %s of %s' % (n, fn.name))
                env[n] = it.expr(defaults[n], Env(it.globals))
        left = self.block(fn.body, self.merge([(env, first)]))
        for env, L in left:
            self.note(self.returned, ('none',), L, None)
        return self.returned, self.raised

    def merge(self, states):
        out = {}
        for env, L in states:
            k = tuple(sorted((n, freeze(v)) for n, v in env.items()))
            if k in out:
                out[k] = (out[k][0], out[k][1] | L)
            else:
                out[k] = (env, L)
        if len(out) > self.limit:
            raise Unsupported('more than %d states' % self.limit)
        return list(out.values())

    def each(self, states, what):
        """what(it, env) on every state and every path -> [(env, Lang, result or Raise)]"""
        out = []
        for vars_, L in states:
            def one(d, vars_=vars_, L=L):
                it = self.make(d, L)
                e = Env(it.globals)
                e.vars = {k: copy(v) for k, v in vars_.items()}
                self.steps += 1
                try:
                    r = what(it, e)
                except Raise as x:
                    r = x
                except mini._Return as x:
                    return e.vars, it.now, x
                return e.vars, it.now, r
            out += list(mini.explore(one, limit=5000))
        return out

    def note(self, where, key, L, value):
        if key in where:
            where[key] = (where[key][0] | L, value)
        else:
            where[key] = (L, value)

    def fault(self, L, x):
        e = x.exc
        self.note(self.raised, (str(getattr(e, 'cls', e)), getattr(x.node, 'lineno', 0)), L, x)

    def settle(self, results):
        live = []
        for env, L, r in results:
            if isinstance(r, Raise):
                self.fault(L, r)
            elif isinstance(r, mini._Return):
                self.note(self.returned, freeze(r.value), L, r.value)
            else:
                live.append((env, L))
        return self.merge(live)

    def block(self, body, states):
        for s in body:
            if not states:
                break
            states = self.stmt(s, states)
        return states

    def test(self, e, states):
        yes, no = [], []
        for env, L, r in self.each(states, lambda it, en: it.truth(it.expr(e, en))):
            if isinstance(r, Raise):
                self.fault(L, r)
            else:
                (yes if r else no).append((env, L))
        return self.merge(yes), self.merge(no)

    def stmt(self, s, states):
        if isinstance(s, ast.If):
            test, neg = s.test, False
            while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
                test, neg = test.operand, not neg
            yes, no = self.test(test, states)
            if neg:
                yes, no = no, yes
            return self.merge(self.block(s.body, yes) + self.block(s.orelse, no))
        if isinstance(s, ast.For) and not any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(s)) and not s.orelse:
            return self.loop(s.target, s.iter, [], s.body, states)
        if isinstance(s, ast.Expr) and isinstance(s.value, (ast.ListComp, ast.GeneratorExp)) and \
                len(s.value.generators) == 1 and isinstance(s.value, ast.ListComp):
            g = s.value.generators[0]
            keep = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            out = self.loop(g.target, g.iter, g.ifs, [ast.copy_location(ast.Expr(s.value.elt), s)], states)
            if any(n in v for v, _ in states for n in keep):
                raise Unsupported('a comprehension reuses a name')
            return self.merge([({n: v for n, v in env.items() if n not in keep}, L) for env, L in out])
        if isinstance(s, ast.While) and not any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(s)):
            out = []
            for _ in range(3):
                yes, no = self.test(s.test, states)
                out += no
                states = self.block(s.body, yes)
                if not states:
                    break
            return self.merge(out)
        if isinstance(s, ast.Return):
            res = self.each(states, lambda it, en: it.expr(s.value, en) if s.value is not None else None)
            for env, L, r in res:
                if isinstance(r, Raise):
                    self.fault(L, r)
                else:
                    self.note(self.returned, freeze(r), L, r)
            return []
        return self.settle(self.each(states, lambda it, en: it.stmt(s, en)))

    def loop(self, target, iterable, ifs, body, states):
        live = []
        groups = {}
        for env, L, r in self.each(states, lambda it, en: list(it.iterate(it.expr(iterable, en)))):
            if isinstance(r, Raise):
                self.fault(L, r)
                continue
            k = freeze(r)
            groups.setdefault(k, (r, []))[1].append((env, L))
        for items, sts in groups.values():
            sts = self.merge(sts)
            for x in items:
                sts = self.settle(self.each(sts, lambda it, en: it.assign(target, x, en)))
                rest = []
                for c in ifs:
                    sts, no = self.test(c, sts)
                    rest += no
                sts = self.merge(self.block(body, sts) + rest)
            live += sts
        return self.merge(live)


# ---- reading

def worse(al, pattern, follow, where, tie):
    """texts t (a whole token text) behind which, with a character of `follow` and anything after it, the pattern matches further
    than t (or, if `tie`, as far)"""
    p = relang.Prog(pattern)
    m = relang.Match(p)
    bad = {'late', 'exact'} if tie else {'late'}
    seen = {}

    def reach(st):
        """can a bad result still come?"""
        todo, been = [st], {st}
        while todo:
            s = todo.pop()
            if s in seen:
                if seen[s]:
                    return True
                continue
            if m.result(s) in bad:
                seen[st] = True
                return True
            for c in al.syms:
                t = m.step(s, c)
                if t not in been:
                    been.add(t)
                    todo.append(t)
        for s in been:
            seen[s] = False
        return False

    def accept(s):
        s = m.step(s, relang.MARK)
        return any(reach(m.step(s, al.syms[al.sym(c)])) for c in follow)
    return lang.build(al, m.initial(), m.step, accept)


def taken(al, pattern, follow):
    """texts t that the pattern takes whole, whatever comes behind"""
    p = relang.Prog(pattern)
    m = relang.Match(p)
    seen = {}

    def wrong(st):
        todo, been = [st], {st}
        while todo:
            s = todo.pop()
            if s in seen:
                if seen[s]:
                    return True
                continue
            if m.result(s) != 'exact':
                seen[st] = True
                return True
            for c in al.syms:
                t = m.step(s, c)
                if t not in been:
                    been.add(t)
                    todo.append(t)
        for s in been:
            seen[s] = False
        return False

    def accept(s):
        s = m.step(s, relang.MARK)
        return not any(wrong(m.step(s, al.syms[al.sym(c)])) for c in follow)
    return lang.build(al, m.initial(), m.step, accept)

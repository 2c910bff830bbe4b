"""The dREL lexer: what every state makes of every text, and what the token functions do."""
import re

from sa import mini, relang
from sa.mini import Abs, Native, Inst, Raise, Unsupported, Opaque
from sa.program import AnalysisBroken
from . import drel, drel_ref
from .drelparse import Tok

OUTCOME = '#'


class LexState(Abs):
    """the lexer object seen by a token function"""
    kind = 'lexer'

    def __init__(self, state='INITIAL', known=()):
        self.state, self.stack, self.attrs, self.skipped, self.known = state, [], {'lineno': 1, 'lexpos': 7}, 0, known

    def copy(self):
        o = LexState(self.state, self.known)
        o.stack, o.attrs = list(self.stack), dict(self.attrs)
        return o

    def begin(self, s):
        if self.known and s not in self.known:
            raise Raise(Inst(ValueError, {'args': ('Undefined state',)}))
        self.state = s

    def push(self, s):
        self.stack.append(self.state)
        self.begin(s)

    def pop(self):
        if not self.stack:
            raise Raise(Inst(IndexError, {'args': ('pop from empty list',)}))
        self.begin(self.stack.pop())

    def getattr(self, it, name):
        if name == 'begin':
            return Native(name, self.begin)
        if name == 'push_state':
            return Native(name, self.push)
        if name == 'pop_state':
            return Native(name, self.pop)
        if name == 'current_state':
            return Native(name, lambda: self.state)
        if name == 'lexstate':
            return self.state
        if name == 'lexstatestack':
            return self.stack
        if name == 'skip':
            def skip(n):
                self.skipped += 1
            return Native(name, skip)
        if name == 'lexdata':
            return Opaque('lexdata')
        if name in self.attrs:
            return self.attrs[name]
        raise Raise(Inst(AttributeError, {'args': (name,)}))

    def setattr(self, it, name, v):
        if name == 'lexpos' and v != self.attrs['lexpos']:
            self.skipped += 1
        self.attrs[name] = v


class LexTok(Abs):
    """the token object handed to a token function"""
    kind = 'LexToken'

    def __init__(self, typ, value, lexer):
        self.vals = {'type': typ, 'value': value, 'lexer': lexer, 'lineno': 1, 'lexpos': 5}

    def getattr(self, it, name):
        if name in self.vals:
            return self.vals[name]
        raise Raise(Inst(AttributeError, {'args': (name,)}))

    def setattr(self, it, name, v):
        self.vals[name] = v


def master(lx, state):
    """[(tag, pattern)] in the order in which PLY tries them"""
    alts = []
    if lx.ignore[state]:
        alts.append((OUTCOME + 'skip', '[%s]' % ''.join(re.escape(c) for c in lx.ignore[state])))
    for r in lx.rules[state]:
        alts.append((r, r.regex))
    for c in lx.literals:
        alts.append((c, '(?:%s)' % re.escape(c)))
    return alts


def ref_master(state):
    alts = [('#skip', '[%s]' % ''.join(re.escape(c) for c in drel_ref.IGNORED[state]))]
    alts += drel_ref.STATES[state]
    alts += [(c, re.escape(c)) for c in drel_ref.LITERALS]
    return alts


def outcome(lx, rule, value, lexer, dec):
    """what the token function makes of a token: (type or None, value)"""
    it = lx.it
    it.dec = dec
    it.steps = 40000
    t = LexTok(rule.name, value, lexer)
    if rule.func is None:
        return rule.name, value
    r = it.call(rule.func, [t])
    if r is None:
        return None, None
    if not isinstance(r, LexTok):
        raise Unsupported('a token function returns something else')
    return r.vals['type'], r.vals['value']


def texts(patterns, limit=60, depth=14):
    """members of the language of some patterns, shortest first"""
    prog = relang.Prog(None, 0, alternatives=[('x', p) for p in patterns])
    m = relang.Match(prog)
    reps = relang.merge_classes(relang.classes(relang.boundaries(prog)), [prog])
    out = []
    seen = {}
    todo = [(m.initial(), '')]
    while todo and len(out) < limit and len(todo[0][1]) < depth:
        nxt = []
        for st, w in todo:
            for c in reps:
                s2 = m.step(st, c)
                if not s2[1]:
                    continue
                t = m.tagged(m.step(s2, relang.MARK))
                if t and t[0] == 'exact':
                    out.append(w + chr(c))
                seen[s2] = seen.get(s2, 0) + 1
                if seen[s2] <= 12:
                    nxt.append((s2, w + chr(c)))
        todo = nxt[:600]
    return out


def longer(s):
    """variants of a text with one character repeated"""
    out = []
    for i in range(len(s)):
        for n in (5, 33, 300):
            out.append(s[:i] + s[i] * n + s[i:])
    return out


def same_number(kind, text, value):
    base = {'BININT': 2, 'OCTINT': 8, 'HEXINT': 16, 'INTEGER': 10}.get(kind)
    if value == text:
        return True
    if base is None:
        return False
    body = text[2:] if base != 10 else text
    n = int(body, base)
    return value in (repr(n), n) and not isinstance(value, bool)


class Sym(Tok):
    """the text of a token of which nothing is known: every question about it has both answers"""

    def convert(self, it, t, args, kw):
        if t is str:
            return self
        if it.choose_bool():
            raise Raise(Inst(ValueError, {'args': ('could not convert',)}))
        return Opaque('number')

    def length(self, it):
        return Opaque('length')

    def compare(self, it, op, other, reflected):
        if op in ('Lt', 'LtE', 'Gt', 'GtE'):
            return it.choose_bool()
        return Tok.compare(self, it, op, other, reflected)


def enter(lx, l):
    """put the lexer behind one opening parenthesis"""
    l.state = 'INITIAL'
    for r in lx.rules['INITIAL']:
        if r.func and r.regex in (r'\(', '[(]') or r.name == 'OPEN_PAREN':
            lx.it.dec, lx.it.steps = mini.Decisions(), 20000
            if r.func:
                lx.it.call(r.func, [LexTok(r.name, '(', l)])
            break
    l.state = 'paren'


class Source:
    """one state of the lexer in the source next to the reference"""

    def __init__(self, lx, state):
        self.lx, self.state = lx, state
        self.alts = master(lx, state)
        self.rules = {}
        named = []
        for i, (tag, pat) in enumerate(self.alts):
            self.rules['%03d' % i] = tag
            named.append(('%03d' % i, pat))
        try:
            self.prog = relang.Prog(None, lx.flags, alternatives=named)
        except relang.Unsupported as e:
            raise Unsupported(str(e))
        self.ref = relang.Prog(None, 0, alternatives=ref_master(state))
        self.kinds = {}
        for k, tag in self.rules.items():
            self.kinds[k] = self.kind_of(tag)

    def kind_of(self, tag):
        """the kind reported when nothing special is known about the text"""
        if tag == OUTCOME + 'skip':
            return '#skip'
        if isinstance(tag, str):
            return tag
        got = set()
        try:
            for d in mini.explore(lambda d: outcome(self.lx, tag, Sym(tag.name, 1), self.lexer(), d), limit=300):
                got.add(d[0])
        except AnalysisBroken:
            return tag.name
        except Raise:
            return tag.name
        got = {g or '#skip' for g in got}
        return got.pop() if len(got) == 1 else 'ID' if 'ID' in got else tag.name

    def lexer(self):
        l = LexState(self.state, self.lx.states)
        if self.state == 'paren':
            enter(self.lx, l)
        return l

    def compare(self):
        """(text, what the source makes of it, what it should be) or None"""
        a, b = relang.Match(self.prog), relang.Match(self.ref)
        reps = relang.merge_classes(relang.classes(relang.boundaries(self.prog, self.ref)), [self.prog, self.ref])

        def symbols(st):
            if not st[0][1] and not st[1][1]:
                return []
            return reps + ([relang.MARK] if st[0][0] == 'before' else [])

        def final(st):
            x, y = a.tagged(st[0]), b.tagged(st[1])
            x = x and x[0] == 'exact' and self.kinds[x[1]]
            y = y and y[0] == 'exact' and y[1]
            if (x or None) != (y or None):
                self.diff = (x or None, y or None, a.tagged(st[0]))
                return 'different'
            return None
        msg, word, n = relang.explore((a, b), symbols, final)
        self.pairs = n
        if msg is None:
            return None
        x, y, full = self.diff
        rule = self.rules[full[1]] if full else None
        return relang.show(word), x, y, rule

    def read(self, text):
        """(rule, extent matched) of the source at the start of a text, with nothing behind it"""
        m = relang.Match(self.prog)
        st = m.initial()
        res = m.tagged(m.step(st, relang.MARK))
        best = None
        full = st
        for ch in text:
            full = m.step(full, ord(ch))
        r = m.tagged(full)
        if r is None:
            return None, 0
        for i in range(len(text), 0, -1):
            s = m.initial()
            for j, ch in enumerate(text):
                if j == i:
                    s = m.step(s, relang.MARK)
                s = m.step(s, ord(ch))
            if i == len(text):
                s = m.step(s, relang.MARK)
            t = m.tagged(s)
            if t and t[0] == 'exact':
                return self.rules[t[1]], i
        return None, 0


def words():
    out = []
    for w in drel_ref.RESERVED:
        out += [w, w.upper(), w.lower(), w.capitalize(), w + 'x', 'x' + w, w + '1', w + '_', w + '$', w[:-1] or 'z', w * 2]
    return sorted(set(out))


def step_in(lx, lexer, c):
    """the lexer reads one parenthesis"""
    want = 'OPEN_PAREN' if c == '(' else 'CLOSE_PAREN'
    for r in lx.rules[lexer.state]:
        if r.name == want and r.func:
            lx.it.dec, lx.it.steps = mini.Decisions(), 20000
            try:
                lx.it.call(r.func, [LexTok(r.name, c, lexer)])
            except Raise:
                lexer.state = 'failed'
            return

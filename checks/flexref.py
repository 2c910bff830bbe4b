"""What the compiled tokeniser has to do with a text: its rules, written down by hand, as a nondeterministic automaton (to be
compared with the tables) and as a tokeniser (to be compared with the interpreted driver)."""
import re

BLANK = frozenset(b' \t')
WORD = frozenset(range(33, 127))
CHAR = frozenset(range(32, 127)) | {9}
ALL = frozenset(range(1, 256))
EOLS = [[b'\n'], [b'\r'], [b'\r\n']]


# ---- expressions: bytes (any letter case), frozenset (one of), ('seq', ..), ('alt', ..), ('star', x), ('plus', x), ('opt', x)
def word(s):
    return ('seq',) + tuple(frozenset({c, ord(chr(c).swapcase())}) for c in s)


def one(s):
    return ('seq',) + tuple(frozenset({c}) for c in s)


EOL = ('alt', one(b'\n'), one(b'\r'), one(b'\r\n'))
COMMENT = ('seq', frozenset(b'#'), ('star', ALL - set(b'\n\r')))

INITIAL = [
    ('loop', word(b'loop_')),
    ('global', word(b'global_')),
    ('stop', word(b'stop_')),
    ('save_heading', ('seq', word(b'save_'), ('plus', WORD))),
    ('save_end', word(b'save_')),
    ('data_heading', ('seq', word(b'data_'), ('plus', WORD))),
    ('data_name', ('seq', frozenset(b'_'), ('plus', WORD))),
    ('skip', ('plus', BLANK)),
    ('skip', COMMENT),
    ('skip, last byte put back', ('seq', ('star', BLANK), ('opt', COMMENT), EOL, ALL - set(b';'))),
    ('start of text field', ('seq', ('alt', one(b'\n'), one(b'\r\n')), frozenset(b';'), ('star', CHAR), ('plus', EOL))),
    ('value', ('seq', ALL - set(b'\n\r\t "#$\'_[]'), ('star', WORD))),
    ("single quotes", ('seq', frozenset(b"'"), ('star', CHAR), frozenset(b"'"))),
    ('double quotes', ('seq', frozenset(b'"'), ('star', CHAR), frozenset(b'"'))),
    ('skip', one(b'\n')),
    ('error', ALL - set(b'\n')),
]
TEXT = [
    ('line of text field', ('seq', ALL - set(b';\r\n'), ('star', CHAR), ('plus', EOL))),
    ('end of text field', one(b';')),
    ('error in text field', ALL),
]


class Nfa:
    """start states per rule set; step() moves a set of states over a byte"""

    def __init__(self, rules):
        self.eps, self.moves, self.final = {}, {}, {}
        self.n = 0
        self.start = set()
        for i, (label, e) in enumerate(rules):
            a, b = self.state(), self.state()
            self.build(e, a, b)
            self.start.add(a)
            self.final[b] = (i, label)
        self.start = self.close(self.start)

    def state(self):
        self.n += 1
        return self.n

    def build(self, e, a, b):
        if isinstance(e, frozenset):
            self.moves.setdefault(a, []).append((e, b))
            return
        k, xs = e[0], e[1:]
        if k == 'seq':
            for x in xs[:-1]:
                m = self.state()
                self.build(x, a, m)
                a = m
            self.build(xs[-1], a, b)
        elif k == 'alt':
            for x in xs:
                self.build(x, a, b)
        elif k in ('star', 'plus', 'opt'):
            m, n = self.state(), self.state()
            self.eps.setdefault(a, []).append(m)
            self.build(xs[0], m, n)
            self.eps.setdefault(n, []).append(b)
            if k != 'opt':
                self.eps.setdefault(n, []).append(m)
            if k != 'plus':
                self.eps.setdefault(a, []).append(b)

    def close(self, s):
        todo, out = list(s), set(s)
        while todo:
            for y in self.eps.get(todo.pop(), ()):
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return frozenset(out)

    def step(self, s, c):
        return self.close({b for a in s for cs, b in self.moves.get(a, ()) if c in cs})

    def label(self, s):
        f = [self.final[a] for a in s if a in self.final]
        return min(f)[1] if f else None


KIND = {'loop': 'LBLOCK', 'global': 'GLOBAL', 'stop': 'STOP', 'start of text field': 'start_sc_line', 'value': 'data_value_1',
        'single quotes': 'data_value_1', 'double quotes': 'data_value_1', 'line of text field': 'sc_line_of_text',
        'end of text field': 'end_sc_line', 'error': '(error)', 'error in text field': '(error)'}
_nfas = {}


def machine(name):
    if name not in _nfas:
        _nfas[name] = Nfa(INITIAL if name == 'INITIAL' else TEXT)
    return _nfas[name]


_memo = {}


def longest(state, text, pos):
    """(label, end)"""
    m = machine(state)
    s, best = m.start, None
    for i in range(pos, len(text)):
        k = (state, s, text[i])
        if k not in _memo:
            t = m.step(s, text[i])
            _memo[k] = t, m.label(t)
        s, lab = _memo[k]
        if lab:
            best = (lab, i + 1)
        if not s:
            break
    return best


def tokens(text):
    """[(line, kind, text)], ended by END or (error)"""
    out, pos, line, state = [], 0, 0, 'INITIAL'
    while pos < len(text):
        lab, end = longest(state, text, pos)
        if lab == 'skip, last byte put back':
            end -= 1
        if lab in ('single quotes', 'double quotes'):
            q = text[pos:pos + 1]
            cut = re.compile(re.escape(q) + rb'(?=[ \t])').search(text, pos + 1, end)
            if cut:
                end = cut.end()
        got = text[pos:end]
        pos = end
        line += got.count(b'\n')
        if lab.startswith('skip'):
            continue
        kind = KIND.get(lab, lab)
        if lab == 'start of text field':
            state = 'TEXT'
        if lab == 'end of text field':
            state = 'INITIAL'
        if kind == '(error)':
            return out + [(line, kind, None)]
        out.append((line, kind, got))
    return out + [(line, 'END', b'')]

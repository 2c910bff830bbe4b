"""A grammar file (tangled, with locations) as Python: one function per rule, its actions in the order the generator emits them,
alternatives and repetitions as if and while on unknown conditions."""
import re

from .program import AnalysisBroken

TOK = re.compile(r'''(?P<ws>\s+|\#[^\n]*)|(?P<act>\{\{(?:.|\n)*?\}\})|(?P<arg><<(?:.|\n)*?>>)|(?P<str>[uU]?"(?:[^\\"]|\\.)*"|[uU]?'(?:[^\\']|\\.)*')
|(?P<id>[A-Za-z_][A-Za-z_0-9]*)|(?P<p>[:()|*+?\[\]])''', re.X)


def tokens(text, path, first):
    out, pos, line = [], 0, first
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise AnalysisBroken('%s: grammar text not understood: %r' % (path, text[pos:pos + 30]))
        if m.lastgroup != 'ws':
            out.append((m.lastgroup, m.group(), line))
        line += m.group().count('\n')
        pos = m.end()
    return out


def split(lines):
    marks = [i for i, l in enumerate(lines) if l.strip() == '%%' or l == '%%']
    if not marks:
        raise AnalysisBroken('no %% in the grammar file')
    a = marks[0]
    b = marks[1] if len(marks) > 1 else len(lines)
    return lines[:a], a + 1, lines[a + 1:b], lines[b + 1:], b + 1


def python(lines, locs, path):
    """-> (text lines, locs)"""
    pre, off, body, post, off2 = split(lines)
    out = [(l, locs[i]) for i, l in enumerate(pre)]
    toks = tokens('\n'.join(body) + '\n', path, off)
    i = 0
    name, terms, rules = None, [], []

    def peek(k=0):
        return toks[i + k] if i + k < len(toks) else ('eof', '', 0)

    def take(v=None):
        nonlocal i
        t = peek()
        if v is not None and t[1] != v:
            raise AnalysisBroken('%s: expected %r, found %r' % (locs[min(t[2], len(locs) - 1)], v, t[1]))
        i += 1
        return t

    fresh = [0]

    def cond():
        fresh[0] += 1
        return 'self._peek(%d)' % fresh[0]

    def alt(ind):
        """alternatives -> lines"""
        parts = [seq(ind + 1)]
        where = peek()[2]
        while peek()[1] == '|':
            take()
            parts.append(seq(ind + 1))
        if len(parts) == 1:
            return [(l[1:], n) for l, n in parts[0]]
        res = []
        for k, p in enumerate(parts):
            c = cond()
            res.append((' ' * ind + ('if %s:' % c if k == 0 else 'elif %s:' % c), where))
            res += p or [(' ' * (ind + 1) + 'pass', where)]
        res += [(' ' * ind + 'else:', where), (' ' * (ind + 1) + 'raise yappsrt.YappsSyntaxError()', where)]
        return res

    def seq(ind):
        res = []
        while peek()[0] in ('id', 'str', 'act') or peek()[1] in ('(', '['):
            if peek()[1] in ('rule', 'token', 'ignore') and peek()[0] == 'id':
                break
            res += item(ind)
        return res

    def item(ind):
        t = take()
        sp = ' ' * ind
        if t[0] == 'act':
            code = t[1][2:-2].strip()
            return [(sp + c, t[2]) for c in code.split('\n')]
        if t[1] == '(':
            inner = alt(ind + 1)
            take(')')
            one = inner
        elif t[1] == '[':
            inner = alt(ind + 1)
            take(']')
            return [(sp + 'if %s:' % cond(), t[2])] + (inner or [(sp + ' pass', t[2])])
        elif t[0] == 'str':
            one = [(' ' + sp + 'self._scan(%s)' % t[1], t[2])]
        else:
            arg = ''
            if peek()[0] == 'arg':
                arg = take()[1][2:-2].strip()
            if t[1] in terms:
                one = [(' ' + sp + '%s = self._scan(%r)' % (t[1], t[1]), t[2])]
            else:
                one = [(' ' + sp + '%s = self.%s(%s%s_context)' % (t[1], t[1], arg, ', ' if arg else ''), t[2])]
        p = peek()[1]
        if p in ('*', '+', '?'):
            take()
            if p == '+':
                head = [(sp + 'while 1:', t[2])]
                return head + one + [(sp + ' if %s: break' % cond(), t[2])]
            return [(sp + '%s %s:' % ('while' if p == '*' else 'if', cond()), t[2])] + (one or [(sp + ' pass', t[2])])
        return [(l[1:], n) for l, n in one]

    while i < len(toks):
        t = take()
        if t[1] == 'parser':
            name = take()[1]
            take(':')
        elif t[1] in ('ignore', 'option') and peek()[1] == ':':
            take()
            take()
        elif t[1] == 'token':
            terms.append(take()[1])
            take(':')
            take()
        elif t[1] == 'rule':
            rn = take()
            arg = ''
            if peek()[0] == 'arg':
                arg = take()[1][2:-2].strip()
            take(':')
            body_lines = alt(2)
            rules.append((rn, arg, body_lines))
        else:
            raise AnalysisBroken('%s: grammar text not understood at %r' % (locs[min(t[2], len(locs) - 1)], t[1]))

    def loc(n):
        return locs[min(n, len(locs) - 1)]
    out.append(('import sys, re', loc(off)))
    out.append(('from . import yapps3_compiled_rt as yappsrt', loc(off)))
    out.append(('class %sScanner(yappsrt.Scanner):' % name, loc(off)))
    out.append((' def __init__(self, *args, **kwargs):', loc(off)))
    out.append(('  yappsrt.Scanner.__init__(self, [], [], *args, **kwargs)', loc(off)))
    out.append(('class %s(yappsrt.Parser):' % name, loc(off)))
    out.append((' Context = yappsrt.Context', loc(off)))
    for rn, arg, b in rules:
        out.append((' def %s(self, %s%s_parent=None):' % (rn[1], arg, ', ' if arg else ''), loc(rn[2])))
        out.append(('  _context = self.Context(_parent, self._scanner, %r, [%s])' % (rn[1], arg), loc(rn[2])))
        out += [(l, loc(n)) for l, n in b]
    out.append(('def parse(rule, text):', loc(off)))
    out.append((' return yappsrt.wrap_error_reporter(%s(%sScanner(text)), rule)' % (name, name), loc(off)))
    out += [(l, locs[off2 + j]) for j, l in enumerate(post)]
    return [l for l, _ in out], [p for _, p in out]

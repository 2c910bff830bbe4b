"""The grammar files as grammars: tokens in their order, ignored patterns, rules as the tuples of `yapps`."""
import ast
import textwrap
import warnings

from sa import gtext, program
from sa.program import AnalysisBroken
from . import yapps


warnings.filterwarnings('ignore', category=SyntaxWarning)


class Gram:
    def __init__(self, name):
        self.name = name
        self.path, root = program.GRAMMARS[name]
        lines, self.locs = program.read_source(self.path, root)
        self.pre, _, body, self.post, off2 = gtext.split(lines)
        toks = gtext.tokens('\n'.join(body) + '\n', self.path, 0)
        self.tokens, self.ignore, self.order, self.rules, self.params = {}, [], [], {}, {}
        self.i, self.toks = 0, toks
        while self.i < len(toks):
            t = self.take()
            if t[1] == 'parser':
                self.take()
                self.take(':')
            elif t[1] == 'option' and self.peek()[1] == ':':
                raise AnalysisBroken('%s: option in the grammar' % self.path)
            elif t[1] == 'ignore' and self.peek()[1] == ':':
                self.take()
                p = ast.literal_eval(self.take()[1])
                self.ignore.append(p)
                self.order.append((p, p, True))
            elif t[1] == 'token':
                n = self.take()[1]
                self.take(':')
                p = ast.literal_eval(self.take()[1])
                self.tokens[n] = p
                self.order.append((n, p, False))
            elif t[1] == 'rule':
                n = self.take()[1]
                arg = ''
                if self.peek()[0] == 'arg':
                    arg = self.take()[1][2:-2].strip()
                self.take(':')
                self.rules[n] = self.alt()
                self.params[n] = arg
            else:
                raise AnalysisBroken('%s: grammar text not understood at %r' % (self.path, t[1]))
        names = set(self.rules)

        def fix(n):
            if n[0] == 'T' and n[1] in names:
                return yapps.N(n[1])
            if n[0] == 'T' and n[1] not in self.tokens:
                raise AnalysisBroken('%s: %s is neither a token nor a rule' % (self.path, n[1]))
            if n[0] in 'SCOPR':
                return (n[0],) + tuple(fix(c) for c in n[1:])
            return n
        self.rules = {r: fix(n) for r, n in self.rules.items()}
        self.ref = yapps.Reference(yapps.Grammar(self.rules))

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else ('eof', '', 0)

    def take(self, v=None):
        t = self.peek()
        if v is not None and t[1] != v:
            raise AnalysisBroken('%s: expected %r, found %r' % (self.path, v, t[1]))
        self.i += 1
        return t

    def alt(self):
        parts = [self.seq()]
        while self.peek()[1] == '|':
            self.take()
            parts.append(self.seq())
        return parts[0] if len(parts) == 1 else yapps.C(*parts)

    def seq(self):
        out = []
        while self.peek()[0] in ('id', 'str', 'act') or self.peek()[1] in ('(', '['):
            t = self.peek()
            if t[0] == 'id' and t[1] in ('rule', 'token', 'ignore'):
                break
            out.append(self.item())
        return out[0] if len(out) == 1 else yapps.S(*out)

    def item(self):
        t = self.take()
        if t[0] == 'act':
            return yapps.E(textwrap.dedent(t[1][2:-2]).strip())
        if t[1] == '(':
            one = self.alt()
            self.take(')')
        elif t[1] == '[':
            one = self.alt()
            self.take(']')
            return yapps.O(one)
        elif t[0] == 'str':
            p = ast.literal_eval(t[1])
            if p not in self.tokens:
                self.tokens[p] = p
                self.order.insert(0, (p, p, False))
            one = yapps.T(p)
        else:
            arg = ''
            if self.peek()[0] == 'arg':
                arg = self.take()[1][2:-2].strip()
            one = yapps.N(t[1], arg) if arg else yapps.T(t[1])
        p = self.peek()[1]
        if p in ('*', '+', '?'):
            self.take()
            return {'*': yapps.R, '+': yapps.P, '?': yapps.O}[p](one)
        return one

    def wanted(self, rule):
        """every token that can be looked for where a text of the rule starts"""
        f = self.ref.fst[rule]
        out = set(f)

        def walk(n, path):
            if n[0] in 'COPR' and f <= self.ref.first(n):
                out.update(self.ref.first(n))
                if n[0] != 'C' or self.ref.nullable(n):
                    out.update(self.ref.nodes[path])
            if n[0] in 'SCOPR':
                for i, c in enumerate(n[1:]):
                    walk(c, path + (i,))
        for r, b in self.rules.items():
            walk(b, (r,))
        return out

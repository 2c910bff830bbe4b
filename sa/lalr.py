"""LALR(1) automaton of a grammar written as PLY docstrings, with PLY's way of settling conflicts, and a driver that runs
it over a sequence of symbolic tokens."""
from .program import AnalysisBroken


class Production:
    def __init__(self, number, left, right, line, func, prec=('right', 0)):
        self.number, self.left, self.right, self.line, self.func, self.prec = number, left, tuple(right), line, func, prec

    def __repr__(self):
        return '%s -> %s' % (self.left, ' '.join(self.right) or '<empty>')


def parse_rules(doc, line, func):
    """[(left, [symbols], prec name or None, line)] as ply.yacc.parse_grammar"""
    out, left = [], None
    for ps in doc.splitlines():
        line += 1
        p = ps.split()
        if not p:
            continue
        if p[0] == '|':
            if left is None:
                raise AnalysisBroken('misplaced | in the grammar of %s' % func)
            syms = p[1:]
        else:
            left = p[0]
            if len(p) < 2 or p[1] not in (':', '::='):
                raise AnalysisBroken('grammar rule of %s not understood: %s' % (func, ps))
            syms = p[2:]
        prec = None
        if '%prec' in syms:
            i = syms.index('%prec')
            prec = syms[i + 1]
            syms = syms[:i]
        syms = [eval_literal(s) for s in syms]
        out.append((left, syms, prec, line))
    return out


def eval_literal(s):
    if len(s) == 3 and s[0] in '"\'' and s[0] == s[-1]:
        return s[1]
    return s


class Grammar:
    def __init__(self, rules, terminals, precedence=None, start=None):
        """rules: [(left, [symbols], prec, line, func)] in PLY's order; terminals: names of the lexer"""
        self.precedence = precedence or {}
        self.prods = [None]
        self.by_left = {}
        for left, syms, prec, line, func in rules:
            if left in terminals:
                raise AnalysisBroken('rule for the terminal %s' % left)
            if prec is None:
                terms = [s for s in syms if s in terminals or len(s) == 1]
                prec = terms[-1] if terms else None
            p = Production(len(self.prods), left, syms, line, func, self.precedence.get(prec, ('right', 0)))
            self.prods.append(p)
            self.by_left.setdefault(left, []).append(p)
        self.start = start or rules[0][0]
        self.prods[0] = Production(0, "S'", [self.start], 0, None)
        self.terminals = set(terminals)
        self.undefined = []
        for p in self.prods:
            for s in p.right:
                if s not in self.by_left:
                    if s not in self.terminals and len(s) != 1:
                        self.undefined.append((s, p))
                    self.terminals.add(s)
        if self.undefined:
            raise AnalysisBroken('symbol %s of "%r" is neither token nor rule' % self.undefined[0])
        self.nullable()
        self.first_sets()
        self.build()

    def nullable(self):
        self.null = set()
        changed = True
        while changed:
            changed = False
            for p in self.prods[1:]:
                if p.left not in self.null and all(s in self.null for s in p.right):
                    self.null.add(p.left)
                    changed = True

    def first_sets(self):
        self.first = {t: {t} for t in self.terminals}
        for n in self.by_left:
            self.first[n] = set()
        changed = True
        while changed:
            changed = False
            for p in self.prods[1:]:
                f = self.first[p.left]
                n = len(f)
                for s in p.right:
                    f |= self.first[s]
                    if s not in self.null:
                        break
                changed |= len(f) != n

    def first_of(self, syms, look):
        out = set()
        for s in syms:
            out |= self.first[s]
            if s not in self.null:
                return out
        return out | look

    def closure0(self, kernel):
        out = list(kernel)
        seen = set(kernel)
        i = 0
        while i < len(out):
            p, d = out[i]
            i += 1
            r = self.prods[p].right
            if d < len(r) and r[d] in self.by_left:
                for q in self.by_left[r[d]]:
                    if (q.number, 0) not in seen:
                        seen.add((q.number, 0))
                        out.append((q.number, 0))
        return out

    def build(self):
        init = frozenset([(0, 0)])
        self.states = [init]
        index = {init: 0}
        self.trans = []
        i = 0
        while i < len(self.states):
            by = {}
            for p, d in self.closure0(self.states[i]):
                r = self.prods[p].right
                if d < len(r):
                    by.setdefault(r[d], set()).add((p, d + 1))
            t = {}
            for s, k in by.items():
                k = frozenset(k)
                if k not in index:
                    index[k] = len(self.states)
                    self.states.append(k)
                t[s] = index[k]
            self.trans.append(t)
            i += 1
        # look-aheads by propagation
        look = [{k: set() for k in st} for st in self.states]
        look[0][(0, 0)].add('$end')
        links = []
        memo = {}
        for i, st in enumerate(self.states):
            for k in st:
                for (p, d), la in self.closure1({k: {'#'}}, memo).items():
                    r = self.prods[p].right
                    if d < len(r):
                        j, t = self.trans[i][r[d]], (p, d + 1)
                        for a in la:
                            if a == '#':
                                links.append((i, k, j, t))
                            else:
                                look[j][t].add(a)
        changed = True
        while changed:
            changed = False
            for i, k, j, t in links:
                n = len(look[j][t])
                look[j][t] |= look[i][k]
                changed |= len(look[j][t]) != n
        self.action = []
        self.conflicts = []
        for i, st in enumerate(self.states):
            act = {s: ('shift', j) for s, j in self.trans[i].items() if s in self.terminals}
            done = self.closure1({k: set(look[i][k]) for k in st}, {})
            for (p, d), la in sorted(done.items()):
                if d < len(self.prods[p].right):
                    continue
                for a in sorted(la):
                    self.reduce(i, act, a, self.prods[p])
            self.action.append(act)

    def closure1(self, items, memo):
        out = {k: set(v) for k, v in items.items()}
        todo = list(out)
        while todo:
            p, d = todo.pop()
            r = self.prods[p].right
            if d < len(r) and r[d] in self.by_left:
                la = self.first_of(r[d + 1:], out[(p, d)])
                for q in self.by_left[r[d]]:
                    k = (q.number, 0)
                    have = out.setdefault(k, set())
                    n = len(have)
                    have |= la
                    if len(have) != n or (n == 0 and not la):
                        todo.append(k)
        return out

    def reduce(self, state, act, a, prod):
        if prod.number == 0:
            if a == '$end':
                act[a] = ('accept',)
            return
        old = act.get(a)
        if old is None:
            act[a] = ('reduce', prod)
        elif old[0] == 'shift':
            slevel = self.precedence.get(a, ('right', 0))[1]
            rprec, rlevel = prod.prec
            self.conflicts.append((state, a, prod))
            if slevel < rlevel or (slevel == rlevel and rprec == 'left'):
                act[a] = ('reduce', prod)
            elif slevel == rlevel and rprec == 'nonassoc':
                act[a] = ('error',)
        elif old[0] == 'reduce':
            self.conflicts.append((state, a, prod))
            if old[1].line > prod.line:
                act[a] = ('reduce', prod)

    def parse(self, tokens, act):
        """tokens: [(type, value)]; act(production, values) -> value.  Returns ('ok', value) or ('error', index)"""
        states, values = [0], []
        i = 0
        tokens = list(tokens) + [('$end', None)]
        while True:
            t, v = tokens[i]
            a = self.action[states[-1]].get(t)
            if a is None or a[0] == 'error':
                return 'error', i
            if a[0] == 'accept':
                return 'ok', values[-1]
            if a[0] == 'shift':
                states.append(a[1])
                values.append(v)
                i += 1
            else:
                p = a[1]
                n = len(p.right)
                args = values[len(values) - n:] if n else []
                r = act(p, args)
                if n:
                    del states[-n:]
                    del values[-n:]
                states.append(self.trans[states[-1]][p.left])
                values.append(r)

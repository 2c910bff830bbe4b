"""Comparison of the dREL grammar and its actions with the reference, over symbolic tokens."""
from sa import lalr, mini
from sa.mini import Abs, Native, Inst, Raise, Unsupported
from . import drel, drel_ref


class Tok(Abs):
    """the text of one token, of which nothing is known"""
    kind = 'token'

    def __init__(self, kind, n):
        self.tk, self.n = kind, n
        self.facts = {}

    def compare(self, it, op, other, reflected):
        if op in ('Is', 'IsNot'):
            return (self is other) == (op == 'Is')
        if op in ('Eq', 'NotEq'):
            if self is other:
                return op == 'Eq'
            if isinstance(other, str):
                if other not in self.facts:
                    self.facts[other] = False if any(self.facts.values()) else it.choose_bool()
                return self.facts[other] == (op == 'Eq')
            return op == 'NotEq'
        raise Unsupported('comparison of a token text')

    def truth(self, it):
        return True

    def binop(self, it, op, other, reflected):
        if op == 'Add':
            return Joined((other, self) if reflected else (self, other))
        raise Unsupported('%s of a token text' % op)

    def getitem(self, it, k):
        if isinstance(k, slice):
            return Joined(((self, k.start, k.stop, k.step),))
        return Joined(((self, k),))

    def isinstance(self, it, c):
        return str in (c if isinstance(c, tuple) else (c,))

    def getattr(self, it, name):
        if name in mini.SAFE_STR:
            return Native(name, lambda *a, **k: it.choose_bool() if name in ('startswith', 'endswith', 'isdigit', 'isalpha')
                          else Joined(((self, name) + a,)))
        raise Raise(Inst(AttributeError, {'args': (name,)}))

    def contains(self, it, x):
        return it.choose_bool()

    def within(self, it, text):
        return it.choose_bool()

    def length(self, it):
        raise Unsupported('length of a token text')

    def __repr__(self):
        return '%s%d' % (self.tk.lower(), self.n)


class Joined(Tok):
    def __init__(self, parts):
        flat = []
        for p in parts:
            flat += list(p.parts) if isinstance(p, Joined) else [p]
        self.parts, self.facts = tuple(flat), {}
        self.tk, self.n = 'joined', 0

    def __repr__(self):
        return 'joined%r' % (self.parts,)


def ref_grammar():
    rules = [(left, syms, None, i, f) for i, (left, syms, f) in enumerate(drel_ref.RULES)]
    return lalr.Grammar(rules, set(drel_ref.TERMINALS))


class RefTok(str):
    """stands for a token in the reference templates"""


def plain(x):
    """a comparable form of a tree: token texts as ('T', n), statement lists flattened"""
    if isinstance(x, Joined):
        parts = [plain(p) if isinstance(p, Tok) else ('P',) + tuple(plain(q) if isinstance(q, Tok) else q for q in p)
                 if isinstance(p, tuple) else ('S', p) for p in x.parts]
        return ('J',) + tuple(parts)
    if isinstance(x, Tok):
        return ('T', x.tk, x.n)
    if isinstance(x, (list, tuple)):
        y = [plain(e) for e in x]
        if len(x) == 2 and isinstance(x[0], str) and x[0] == 'STATEMENTS' and isinstance(x[1], (list, tuple)):
            out = []
            for e in y[1]:
                if isinstance(e, tuple) and len(e) == 2 and e[0] == 'STATEMENTS':
                    out += list(e[1])
                else:
                    out.append(e)
            return ('STATEMENTS', tuple(out))
        return tuple(y)
    return x


class T:
    """token value for the reference templates, supporting the two things they do with texts"""

    def __init__(self, tk, n):
        self.tk, self.n = tk, n

    def __add__(self, o):
        return Joined((Tok(self.tk, self.n), Tok(o.tk, o.n)))

    def __getitem__(self, k):
        return Joined(((Tok(self.tk, self.n), k.start, k.stop, k.step),))


def untok(x):
    if isinstance(x, T):
        return Tok(x.tk, x.n)
    if isinstance(x, Tok):
        return x
    if isinstance(x, list):
        return [untok(e) for e in x]
    if isinstance(x, tuple):
        return tuple(untok(e) for e in x)
    return x


def value(kind, n, ref):
    if kind in drel_ref.TEXTUAL:
        return T(kind, n) if ref else Tok(kind, n)
    return drel_ref.FIXED.get(kind, kind)


def spell(seq):
    return ' '.join({'NEWLINE': '<newline>', 'INTEGER': '1', 'REAL': '1.5', 'ID': 'id', 'ITEM_TAG': '_tag',
                     'SHORTSTRING': "'s'", 'LONGSTRING': "'''l'''", 'STRPREFIX': 'r'}.get(t, drel_ref.FIXED.get(t, t))
                    for t in seq)


class Stack:
    """an LR parser stopped between two tokens"""

    def __init__(self, g, states=(0,)):
        self.g, self.states = g, states

    def feed(self, t):
        st = list(self.states)
        while True:
            a = self.g.action[st[-1]].get(t)
            if a is None or a[0] == 'error':
                return None
            if a[0] == 'accept':
                return 'accept'
            if a[0] == 'shift':
                st.append(a[1])
                return Stack(self.g, tuple(st))
            p = a[1]
            if p.right:
                del st[-len(p.right):]
            st.append(self.g.trans[st[-1]][p.left])


def cover(g1, g2, kinds, limit=200000):
    """walk both automata side by side; every pair of (top state, state below it) is expanded once.
    -> (differences [(seq, token, ok1, ok2)], sequences that reach each pair, number of pairs)"""
    start = (Stack(g1), Stack(g2))
    seen = {}
    todo = [(start, ())]
    diffs, reached = [], []
    while todo:
        nxt = []
        for (a, b), seq in todo:
            acc1, acc2 = a.feed('$end') == 'accept', b.feed('$end') == 'accept'
            if acc1 != acc2:
                diffs.append((seq, '$end', acc1, acc2))
            for t in kinds:
                x, y = a.feed(t), b.feed(t)
                if (x is None) != (y is None):
                    diffs.append((seq, t, x is not None, y is not None))
                    continue
                if x is None:
                    continue
                key = (x.states[-3:], y.states[-3:])
                if key in seen:
                    continue
                seen[key] = seq + (t,)
                if len(seen) > limit:
                    raise Unsupported('grammar too large')
                nxt.append(((x, y), seq + (t,)))
                reached.append((x, y, seq + (t,)))
        todo = nxt
        if len(diffs) > 20:
            break
    return diffs, reached, len(seen)


def minimal(g):
    """shortest token sequence of every symbol"""
    best = {t: (t,) for t in g.terminals}
    changed = True
    while changed:
        changed = False
        for p in g.prods[1:]:
            if all(s in best for s in p.right):
                y = tuple(t for s in p.right for t in best[s])
                if p.left not in best or len(y) < len(best[p.left]):
                    best[p.left] = y
                    changed = True
    return best


def contexts(g, best):
    """for every nonterminal the shortest (before, after) in a complete text"""
    ctx = {g.start: ((), ())}
    todo = [g.start]
    size = lambda c: len(c[0]) + len(c[1])
    while todo:
        n = todo.pop(0)
        b, a = ctx[n]
        for p in g.by_left.get(n, ()):
            for i, s in enumerate(p.right):
                if s in g.by_left:
                    c = (b + tuple(t for x in p.right[:i] for t in best[x]),
                         tuple(t for x in p.right[i + 1:] for t in best[x]) + a)
                    if s not in ctx or size(c) < size(ctx[s]):
                        ctx[s] = c
                        todo.append(s)
    return ctx


def sentences(g, depth=2):
    """texts in which every production is used in every place it can stand (and, for depth 3, every one of these in every
    place), everything else as short as possible"""
    best = minimal(g)
    ctx = contexts(g, best)
    out = {}

    def yields(s, d):
        if s not in g.by_left:
            return [(s,)]
        if d == 0:
            return [best[s]]
        res = [best[s]]
        for q in g.by_left[s]:
            if d == 1:
                res.append(tuple(t for x in q.right for t in best[x]))
                continue
            fixed = [best[x] for x in q.right]
            for i, x in enumerate(q.right):
                if x in g.by_left:
                    for y in yields(x, d - 1):
                        res.append(tuple(t for j in range(len(fixed)) for t in (y if j == i else fixed[j])))
            res.append(tuple(t for y in fixed for t in y))
        return res
    for n in g.by_left:
        if n not in ctx:
            continue
        b, a = ctx[n]
        for y in yields(n, depth):
            out[b + y + a] = n
    return sorted(out, key=lambda s: (len(s), s))


class Reducer:
    """runs a grammar over symbolic tokens and notes which production built what"""

    def __init__(self, g, run, ref):
        self.g, self.run, self.ref, self.used = g, run, ref, []

    def tree(self, seq):
        toks = [(t, value(t, i, self.ref)) for i, t in enumerate(seq)]
        self.used = []

        def act(p, v):
            self.used.append(p)
            return self.run(p, v)
        return self.g.parse(toks, act)


def ref_act(p, v):
    return p.func(v)

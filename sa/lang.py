"""Regular languages over classes of characters, as minimal automata that can be compared, and a domain of texts for `mini`:
a text is constant parts around one unknown text of which only the language it belongs to is known."""
import re

from . import relang
from .relang import Match, Prog, inside


class Alphabet:
    """classes of characters that none of the given sets of characters tells apart"""

    def __init__(self, progs, singles=''):
        sets = []
        for p in progs:
            for ins in p.code:
                if ins and ins[0] == 'char' and ins[1] not in sets:
                    sets.append(ins[1])
        for c in set(singles) | {'\n'}:
            sets.append(((ord(c), ord(c)),))
        bounds = {0}
        for s in sets:
            for a, b in s:
                bounds.add(a)
                bounds.add(b + 1)
        seen = {}
        for c in sorted(x for x in bounds if x <= relang.MAXCP):
            key = tuple(inside(s, c) for s in sets)
            best = seen.get(key)
            if best is None or (not 32 < best < 127 and 32 < c < 127):
                seen[key] = c
        self.syms = sorted(seen.values())
        self.index = {c: i for i, c in enumerate(self.syms)}
        self.key_of = {v: k for k, v in seen.items()}
        self.by_key = {k: self.index[v] for k, v in seen.items()}
        self.sets = sets
        self.known = {}

    def sym(self, ch):
        """class of a character"""
        c = ord(ch)
        if c not in self.known:
            k = tuple(inside(s, c) for s in self.sets)
            if k not in self.by_key:
                raise relang.Unsupported('character %r' % ch)
            self.known[c] = self.by_key[k]
        return self.known[c]

    def exact(self, ch):
        """the class holds this character only"""
        return any(s == ((ord(ch), ord(ch)),) for s in self.sets)

    def covers(self, prog):
        for ins in prog.code:
            if ins and ins[0] == 'char' and ins[1] not in self.sets and ins[1] != ((0, relang.MAXCP),):
                return False
        return True


class Lang:
    __slots__ = ('al', 'rows', 'acc', '_hash')

    def __init__(self, al, rows, acc):
        """rows[state][symbol] -> state; acc[state] -> bool; state 0 is the start"""
        self.al = al
        self.rows, self.acc = minimise(rows, acc)
        self._hash = hash((self.rows, self.acc))

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self.rows == o.rows and self.acc == o.acc

    def product(self, o, f):
        index, rows, acc = {(0, 0): 0}, [], []
        todo = [(0, 0)]
        n = len(self.al.syms)
        k = 0
        while k < len(todo):
            a, b = todo[k]
            k += 1
            ra, rb = self.rows[a], o.rows[b]
            row = []
            for i in range(n):
                t = (ra[i], rb[i])
                j = index.get(t)
                if j is None:
                    j = index[t] = len(todo)
                    todo.append(t)
                row.append(j)
            rows.append(row)
            acc.append(f(self.acc[a], o.acc[b]))
        return Lang(self.al, rows, acc)

    def __and__(self, o):
        return self.product(o, lambda x, y: x and y)

    def __or__(self, o):
        return self.product(o, lambda x, y: x or y)

    def __sub__(self, o):
        return self.product(o, lambda x, y: x and not y)

    def complement(self):
        return Lang(self.al, self.rows, [not a for a in self.acc])

    def empty(self):
        return not any(self.acc)

    def sample(self):
        """a shortest member"""
        seen, todo = {0: None}, [0]
        for s in todo:
            if self.acc[s]:
                w = []
                while seen[s] is not None:
                    s, i = seen[s]
                    w.append(self.al.syms[i])
                return ''.join(map(chr, reversed(w)))
            order = sorted(range(len(self.al.syms)), key=lambda i: not 97 <= self.al.syms[i] < 123)
            for i in order:
                t = self.rows[s][i]
                if t not in seen:
                    seen[t] = (s, i)
                    todo.append(t)
        return None

    def quotient(self, pre, post):
        """{s : pre + s + post in this language}"""
        al = self.al
        s = 0
        for c in pre:
            s = self.rows[s][al.sym(c)]
        acc = []
        for q in range(len(self.rows)):
            for c in post:
                q = self.rows[q][al.sym(c)]
            acc.append(self.acc[q])
        order, index = [s], {s: 0}
        rows = []
        for q in order:
            row = []
            for t in self.rows[q]:
                if t not in index:
                    index[t] = len(order)
                    order.append(t)
                row.append(index[t])
            rows.append(row)
        return Lang(al, rows, [acc[q] for q in order])


def minimise(rows, acc):
    n = len(rows)
    cls = [1 if a else 0 for a in acc]
    count = len(set(cls))
    while True:
        sig = {}
        new = []
        for q in range(n):
            k = (cls[q], tuple([cls[t] for t in rows[q]]))
            new.append(sig.setdefault(k, len(sig)))
        cls = new
        if len(sig) == count:
            break
        count = len(sig)
    rep = {}
    for q in range(n):
        rep.setdefault(cls[q], q)
    order, index = [cls[0]], {cls[0]: 0}
    out = []
    for c in order:
        row = []
        for t in rows[rep[c]]:
            k = cls[t]
            if k not in index:
                index[k] = len(order)
                order.append(k)
            row.append(index[k])
        out.append(tuple(row))
    return tuple(out), tuple(bool(acc[rep[c]]) for c in order)


def build(al, start, step, accept, limit=20000):
    index, order, rows = {start: 0}, [start], []
    for st in order:
        row = []
        for c in al.syms:
            t = step(st, c)
            if t not in index:
                index[t] = len(order)
                order.append(t)
                if len(order) > limit:
                    raise relang.Unsupported('automaton too large')
            row.append(index[t])
        rows.append(row)
    return Lang(al, rows, [accept(s) for s in order])


def everything(al):
    return Lang(al, [[0] * len(al.syms)], [True])


def nothing(al):
    return Lang(al, [[0] * len(al.syms)], [False])


def word(al, w):
    """exactly this text (its characters have classes of their own)"""
    for c in w:
        if not al.exact(c):
            raise relang.Unsupported('character %r has no class of its own' % c)
    n = len(w)
    rows, acc = [], []
    for i in range(n + 2):
        row = [n + 1] * len(al.syms)
        if i < n:
            row[al.sym(w[i])] = i + 1
        rows.append(row)
        acc.append(i == n)
    return Lang(al, rows, acc)


def contains(al, w):
    """texts with w in them"""
    for c in w:
        if not al.exact(c):
            raise relang.Unsupported('character %r has no class of its own' % c)
    n = len(w)
    if not n:
        return everything(al)
    rows = []
    for i in range(n):
        row = []
        for s in al.syms:
            t = w[:i] + chr(s)
            k = min(len(t), n)
            while k and not t.endswith(w[:k]):
                k -= 1
            row.append(k)
        rows.append(row)
    rows.append([n] * len(al.syms))
    return Lang(al, rows, [False] * n + [True])


def spelled(al, w, low, then):
    """texts that start with w (`then`: any text may follow, else nothing), in lower case if `low`"""
    for c in w:
        if not al.exact(c):
            raise relang.Unsupported('character %r has no class of its own' % c)

    def step(st, c):
        if st == len(w):
            return st if then else -1
        return st + 1 if st >= 0 and (chr(c).lower() if low else chr(c)) == w[st] else -1
    return build(al, 0, step, lambda s: s == len(w))


def ends(al, w, low):
    heads = {w[:i] for i in range(len(w) + 1)}

    def step(st, c):
        t = st + (chr(c).lower() if low else chr(c))
        while t not in heads:
            t = t[1:]
        return t
    return build(al, '', step, lambda s: s == w)


def edge(al, words, size, start=True, low=False):
    """texts t with t[:size] (t[-size:]) in words, in lower case if `low`"""
    out = nothing(al)
    for w in words:
        if len(w) == size:
            out = out | (spelled(al, w, low, True) if start else ends(al, w, low))
        elif len(w) < size:
            out = out | spelled(al, w, low, False)
    return out


def longer(al, n):
    """texts of more than n characters"""
    k = max(n + 1, 0)
    return Lang(al, [[min(i + 1, k)] * len(al.syms) for i in range(k + 1)], [i == k for i in range(k + 1)])


def char_at(al, i, chars, neg=False):
    """texts that have a character at place i (negative: from the end), which is (not) one of chars"""
    good = [(chr(c) in chars) != neg for c in al.syms]
    for c in chars:
        if not al.exact(c):
            raise relang.Unsupported('character %r has no class of its own' % c)
    n = len(al.syms)
    if i >= 0:
        rows = [[k + 1] * n for k in range(i)]
        rows.append([i + 1 if g else i + 2 for g in good])
        rows += [[i + 1] * n, [i + 2] * n]
        return Lang(al, rows, [False] * (i + 1) + [True, False])
    k = -i
    index, order, rows = {(): 0}, [()], []
    for st in order:
        row = []
        for g in good:
            t = (st + (g,))[-k:]
            if t not in index:
                index[t] = len(order)
                order.append(t)
            row.append(index[t])
        rows.append(row)
    return Lang(al, rows, [len(s) == k and s[0] for s in order])


def regex(al, pattern, flags=0, how='search'):
    """texts in which the pattern is found (`search`), or found at the start (`match`), or that it matches whole"""
    p = Prog(pattern, flags, search=how == 'search', full=how == 'fullmatch')
    if not al.covers(p):
        raise relang.Unsupported('the pattern %r divides a class of characters' % pattern)
    m = Match(p)
    return build(al, m.initial(), m.step, lambda s: m.result(s) is not None)


def match_ends(al, pattern, flags, at, pre=''):
    """texts t of which re.match(pattern, pre + t) ends exactly behind the first `at` characters of pre"""
    p = Prog(pattern, flags)
    if not al.covers(p):
        raise relang.Unsupported('the pattern %r divides a class of characters' % pattern)
    m = Match(p)
    st = m.initial()
    for i, c in enumerate(pre):
        if i == at:
            st = m.step(st, relang.MARK)
        st = m.step(st, al.syms[al.sym(c)])
    if at == len(pre):
        st = m.step(st, relang.MARK)
    return build(al, st, m.step, lambda s: m.result(s) == 'exact')


__all__ = ['Alphabet', 'Lang', 're']

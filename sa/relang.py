"""Languages of Python regular expressions, decided exactly (priorities, laziness and look-aheads included).

A pattern is compiled to a small program of the kind a backtracking matcher runs; `Match` follows all its threads in
priority order over *classes* of characters, so that for every input at once we know where re.match ends:
the input is  w MARK r END , and the result is one of None, 'early', 'exact' (the match ends at MARK), 'late'.
Look-aheads are obligations carried along by a thread and resolved by later characters.
"""
import re
import sys
try:
    import re._parser as sre_parse
    import re._constants as C
except ImportError:                                     # pragma: no cover
    import sre_parse
    import sre_constants as C
from collections import deque

MARK, END = 'MARK', 'END'
MAXCP = sys.maxunicode


class Unsupported(Exception):
    pass


# ---- sets of characters as sorted lists of ranges

def norm(ranges):
    out = []
    for a, b in sorted(ranges):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return tuple(out)


def negate(ranges):
    out, at = [], 0
    for a, b in norm(ranges):
        if a > at:
            out.append((at, a - 1))
        at = b + 1
    if at <= MAXCP:
        out.append((at, MAXCP))
    return tuple(out)


def from_pred(pred):
    out = []
    start = None
    for i in range(MAXCP + 2):
        ok = i <= MAXCP and pred(chr(i))
        if ok and start is None:
            start = i
        elif not ok and start is not None:
            out.append((start, i - 1))
            start = None
    return tuple(out)


_CAT = {}


def category(c):
    if c not in _CAT:
        base = {C.CATEGORY_SPACE: lambda x: x.isspace(), C.CATEGORY_DIGIT: lambda x: x.isdecimal(),
                C.CATEGORY_WORD: lambda x: x.isalnum() or x == '_'}
        neg = {C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE, C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT,
               C.CATEGORY_NOT_WORD: C.CATEGORY_WORD}
        if c in base:
            _CAT[c] = from_pred(base[c])
        elif c in neg:
            _CAT[c] = negate(category(neg[c]))
        else:
            raise Unsupported('character category %s' % c)
    return _CAT[c]


def fold(ranges):
    """close under simple case folding (only letters that matter in practice: the ASCII ones and the two special ones)"""
    out = list(ranges)
    for a, b in ranges:
        for lo, hi, d in ((65, 90, 32), (97, 122, -32)):
            x, y = max(a, lo), min(b, hi)
            if x <= y:
                out.append((x + d, y + d))
    return norm(out)


# ---- programs

class Prog:
    """code[i]: ('char', ranges, next) | ('split', [targets]) | ('look', neg, start, next) | ('end', strict, next) |
    ('bol', next) | ('match',)"""

    def __init__(self, pattern, flags=0, search=False, full=False, alternatives=None):
        self.pattern = pattern
        self.code = []
        self.search = search
        if alternatives is not None:
            self.prioritised(alternatives, flags)
            return
        try:
            tree = sre_parse.parse(pattern, flags)
        except re.error as e:
            raise Unsupported('bad regular expression %r: %s' % (pattern, e))
        self.flags = tree.state.flags
        m = self.emit(('match',))
        nxt = self.emit(('end', True, m)) if full else m
        start = self.seq(tree, nxt, self.flags)
        if search:                                      # lazy .*? in front
            s = self.emit(None)
            any_ = self.emit(('char', ((0, MAXCP),), s))
            self.code[s] = ('split', [start, any_])
            start = s
        self.start = start
        self.search = search

    def prioritised(self, alternatives, flags):
        """[(tag, pattern)]: the first alternative that matches wins"""
        starts = []
        self.flags = flags
        for tag, pattern in alternatives:
            try:
                tree = sre_parse.parse(pattern, flags)
            except re.error as e:
                raise Unsupported('bad regular expression %r: %s' % (pattern, e))
            starts.append(self.seq(tree, self.emit(('match', tag)), tree.state.flags))
        self.start = self.emit(('split', starts))

    def emit(self, ins):
        self.code.append(ins)
        return len(self.code) - 1

    def seq(self, items, nxt, flags):
        for op, av in reversed(list(items)):
            nxt = self.one(op, av, nxt, flags)
        return nxt

    def chars(self, r, nxt, flags):
        if flags & re.I:
            r = fold(r)
        return self.emit(('char', norm(r), nxt))

    def one(self, op, av, nxt, flags):
        if op is C.LITERAL:
            return self.chars([(av, av)], nxt, flags)
        if op is C.NOT_LITERAL:
            r = [(av, av)]
            return self.emit(('char', negate(fold(r) if flags & re.I else r), nxt))
        if op is C.ANY:
            return self.emit(('char', ((0, MAXCP),) if flags & re.S else negate([(10, 10)]), nxt))
        if op is C.IN:
            neg, r = False, []
            for o, a in av:
                if o is C.NEGATE:
                    neg = True
                elif o is C.LITERAL:
                    r.append((a, a))
                elif o is C.RANGE:
                    r.append(a)
                elif o is C.CATEGORY:
                    r += category(a)
                else:
                    raise Unsupported('in a set: %s' % o)
            if flags & re.I:
                r = fold(norm(r))
            return self.emit(('char', negate(r) if neg else norm(r), nxt))
        if op is C.BRANCH:
            return self.emit(('split', [self.seq(b, nxt, flags) for b in av[1]]))
        if op is C.SUBPATTERN:
            _, add, drop, p = av
            return self.seq(p, nxt, (flags | add) & ~drop)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            greedy = op is C.MAX_REPEAT
            if hi is C.MAXREPEAT:
                s = self.emit(None)
                body = self.seq(p, s, flags)
                self.code[s] = ('split', [body, nxt] if greedy else [nxt, body])
                at = s
            else:
                if hi > 200:
                    raise Unsupported('large repeat')
                at = nxt
                for _ in range(hi - lo):
                    body = self.seq(p, at, flags)
                    at = self.emit(('split', [body, nxt] if greedy else [nxt, body]))
            for _ in range(lo):
                at = self.seq(p, at, flags)
            return at
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, p = av
            if direction < 0:
                raise Unsupported('look-behind')
            m = self.emit(('match',))
            st = self.seq(p, m, flags)
            return self.emit(('look', op is C.ASSERT_NOT, st, nxt))
        if op is C.AT:
            if av is C.AT_END_STRING:
                return self.emit(('end', True, nxt))
            if av is C.AT_END:
                if flags & re.M:
                    m = self.emit(('match',))
                    st = self.emit(('split', [self.emit(('char', ((10, 10),), m)), self.emit(('end', True, m))]))
                    return self.emit(('look', False, st, nxt))
                return self.emit(('end', False, nxt))
            if av is C.AT_BEGINNING_STRING or (av is C.AT_BEGINNING and not flags & re.M):
                return self.emit(('bol', nxt))
            raise Unsupported('position %s' % av)
        raise Unsupported('regular expression item %s' % op)


def lookset(prog, pcs, at_start, at_end=None):
    """closure of the program counters of a look-ahead. at_end: None while the input goes on, True at its end"""
    out, todo, seen = set(), list(pcs), set()
    while todo:
        pc = todo.pop()
        if pc in seen:
            continue
        seen.add(pc)
        ins = prog.code[pc]
        if ins[0] == 'split':
            todo += ins[1]
        elif ins[0] == 'bol':
            if at_start:
                todo.append(ins[1])
        elif ins[0] == 'end':
            if at_end:
                todo.append(ins[2])
            else:
                out.add(pc)
        elif ins[0] == 'look':
            raise Unsupported('nested look-ahead')
        else:
            out.add(pc)
    return frozenset(out)


class Match:
    """the matcher of one pattern as a deterministic automaton: states are hashable, built lazily"""

    def __init__(self, prog):
        self.prog = prog
        self.memo = {}

    # a thread: (pc or 'M', when, obligations); an obligation: (neg, frozenset of pcs, needs_end)
    def initial(self):
        return self.close([(self.prog.start, None, frozenset())], 'before', True)

    def close(self, threads, phase, at_start=False):
        out, seen = [], set()
        code = self.prog.code
        done = False

        def settle(obl):
            """None if an obligation failed"""
            res = set()
            for neg, pcs, strict in obl:
                hit = any(code[p][0] == 'match' for p in pcs)
                if neg:
                    if hit:
                        return None
                    if pcs:
                        res.add((neg, pcs, strict))
                elif hit:
                    continue
                elif not pcs:
                    return None
                else:
                    res.add((neg, pcs, strict))
            return frozenset(res)

        def visit(pc, when, obl):
            nonlocal done
            if done:
                return
            obl = settle(obl)
            if obl is None:
                return
            key = (pc, when, obl)
            if key in seen:
                return
            seen.add(key)
            if isinstance(pc, str):
                out.append(key)
                done = not obl
                return
            ins = code[pc]
            if ins[0] == 'split':
                for t in ins[1]:
                    visit(t, when, obl)
            elif ins[0] == 'look':
                visit(ins[3], when, obl | {(ins[1], lookset(self.prog, [ins[2]], at_start), False)})
            elif ins[0] == 'bol':
                if at_start:
                    visit(ins[1], when, obl)
            elif ins[0] == 'end':
                # an obligation that the input ends here (or after one \n when not strict)
                visit(ins[2], when, obl | {(False, frozenset([('E', ins[1])]), False)})
            elif ins[0] == 'match':
                visit('M' + ''.join(ins[1:]), 'here', obl)
            else:
                out.append(key)

        # obligations of the form ('E', strict) are handled outside `settle`
        code_get = code

        class _Code(dict):
            def __missing__(self, p):
                return ('endmark',) if isinstance(p, tuple) else code_get[p]
        code_view = _Code()
        code, saved = code_view, code
        for t in threads:
            visit(*t)
            if done:
                break
        code = saved
        return (phase, tuple(out))

    def step(self, state, sym):
        key = (state, sym)
        if key in self.memo:
            return self.memo[key]
        phase, threads = state
        if sym == MARK:
            nt = [(pc, 'exact' if isinstance(pc, str) and when == 'here' else when, obl) for pc, when, obl in threads]
            # threads that have not matched yet: a match found without another character is exact too, but those are
            # already closed ('here'), so only later ones remain
            res = ('after', tuple(nt))
        else:
            res = self.advance(phase, threads, sym)
        self.memo[key] = res
        return res

    def ob_step(self, obl, c):
        res = set()
        code = self.prog.code
        for neg, pcs, strict in obl:
            nxt = set()
            for p in pcs:
                if isinstance(p, tuple):                 # ('E', strict) / ('N',): the end was promised
                    if p == ('E', False) and c == 10:
                        nxt.add(('E', True))
                    continue
                ins = code[p]
                if ins[0] == 'char' and inside(ins[1], c):
                    nxt |= self.look(ins[2])
            res.add((neg, frozenset(nxt), strict))
        return frozenset(res)

    def look(self, pc):
        return set(lookset(self.prog, [pc], False))

    def advance(self, phase, threads, c):
        new = []
        for pc, when, obl in threads:
            o2 = self.ob_step(obl, c) if obl else obl
            if isinstance(pc, str):
                new.append((pc, ('early' if phase == 'before' else 'late') if when == 'here' else when, o2))
                continue
            ins = self.prog.code[pc]
            if ins[0] == 'char' and inside(ins[1], c):
                new.append((ins[2], when, o2))
        return self.close(new, phase)

    def result(self, state):
        """at the end of the input"""
        r = self.tagged(state)
        return r and r[0]

    def tagged(self, state):
        """(when, tag of the alternative that matched)"""
        phase, threads = state
        for pc, when, obl in threads:
            if not isinstance(pc, str):
                continue
            ok = True
            for neg, pcs, strict in obl:
                hit = any(isinstance(p, tuple) for p in pcs)
                if not hit:
                    hit = any(self.prog.code[p][0] == 'match' for p in
                              lookset(self.prog, [p for p in pcs if not isinstance(p, tuple)], False, True))
                if hit == neg:
                    ok = False
            if ok:
                return ('late' if phase == 'after' else 'exact') if when == 'here' else when, pc[1:]
        return None


def inside(ranges, c):
    for a, b in ranges:
        if a <= c <= b:
            return True
    return False


def boundaries(*progs):
    s = {0}
    for p in progs:
        for ins in p.code:
            if ins and ins[0] == 'char':
                for a, b in ins[1]:
                    s.add(a)
                    s.add(b + 1)
    s.add(10)
    s.add(11)
    return s


def classes(bounds, allowed=None):
    """representatives, one per class of characters no pattern distinguishes; grouped further by caller if wanted"""
    bs = sorted(b for b in bounds if b <= MAXCP)
    reps = []
    for i, a in enumerate(bs):
        b = (bs[i + 1] if i + 1 < len(bs) else MAXCP + 1) - 1
        if allowed is None:
            reps.append(a)
        else:
            for x, y in allowed:
                lo, hi = max(a, x), min(b, y)
                if lo <= hi:
                    reps.append(lo)
                    break
    return reps


def merge_classes(reps, progs):
    """keep one representative per behaviour"""
    seen = {}
    sets = []
    for p in progs:
        for ins in p.code:
            if ins and ins[0] == 'char' and ins[1] not in sets:
                sets.append(ins[1])
    for c in reps:
        key = tuple(inside(s, c) for s in sets) + (c == 10,)
        best = seen.get(key)
        # prefer a printable representative
        if best is None or (not (32 < best < 127) and 32 < c < 127):
            seen[key] = c
    return sorted(seen.values())


def explore(machines, symbols, final, limit=400000, start=None):
    """breadth first over the product of deterministic machines; final(tuple of states, end) -> message or None.
    returns (message, shortest input) of the first failure, or None. symbols(states) gives the symbols to try"""
    init = tuple(m.initial() for m in machines) if start is None else start
    seen = {init: None}
    todo = deque([init])
    n = 0
    while todo:
        st = todo.popleft()
        msg = final(st)
        if msg:
            word = []
            at = st
            while seen[at] is not None:
                at, s = seen[at]
                word.append(s)
            return msg, list(reversed(word)), len(seen)
        for s in symbols(st):
            nx = tuple(m.step(q, s) for m, q in zip(machines, st))
            if nx not in seen:
                seen[nx] = (st, s)
                todo.append(nx)
                n += 1
                if n > limit:
                    raise Unsupported('state space too large')
    return None, None, len(seen)


def show(word):
    return ''.join('\u00b7' if s == MARK else chr(s) if isinstance(s, int) else '?' for s in word)

"""Bookkeeping ledgers: for every key a path touches, in which of the object's tables it is present.

The tables of a data block (values, printed names, print order, loop membership) and of a block
collection must name the same things.  For an arbitrary key the ledger holds the set of possible
positions ("ghosts"), starting from those the invariant allows; tests filter it, mutations update it.
At every exit each remaining ghost has to satisfy the invariant again.
"""
from .absint import Client, C, NONE, TRUE, lower, mentions, show, is_const, is_str, subst_term as subst, el_leafs

SELF = ('o', 'self')


_reprs = {}


def rkey(item):
    """a stable order for (key term, ghosts) pairs"""
    k = item[0]
    r = _reprs.get(k)
    if r is None:
        r = _reprs[k] = repr(k)
    return r


class Cl:
    """client component (immutable)"""
    __slots__ = ('keys', 'dirty', 'pend', 'reset', 'wild', 'whole', 'bad', 'saved', 'known', 'memo')

    def __init__(self, keys=(), dirty=None, pend=(), reset=(), wild=(), whole=(), bad=(), saved=(), known=(), memo=()):
        self.keys, self.dirty, self.pend, self.reset = keys, dirty, pend, reset
        self.wild, self.whole, self.bad, self.saved, self.known = wild, whole, bad, saved, known
        self.memo = memo

    def tup(self):
        return (self.keys, self.dirty, self.pend, self.reset, self.wild, self.whole, self.bad, self.saved, self.known,
                self.memo)

    def __hash__(self):
        return hash(self.tup())

    def __eq__(self, o):
        return isinstance(o, Cl) and self.tup() == o.tup()

    def with_(self, **kw):
        n = Cl(*self.tup())
        for k, v in kw.items():
            setattr(n, k, v)
        return n

    def ghosts(self, key):
        for k, g in self.keys:
            if k == key:
                return g
        return None

    def set(self, key, g):
        return self.with_(keys=tuple(sorted([(k, x) for k, x in self.keys if k != key] + [(key, frozenset(g))], key=rkey)))


class Books(Client):
    """comps: list of component names; subclasses say which container term is which component."""
    base = SELF
    names = ()

    def init(self):
        return Cl()

    # -- to be provided -------------------------------------------------------------
    def comp_of(self, it, st, X):
        """container term -> component name or None"""
        return None

    def initial(self, kind):
        return ()

    def initial_key(self, key):
        return self.initial(self.kind(key))

    def kind(self, key):
        return 'k'

    def valid(self, kind, g):
        return True

    # -- helpers ----------------------------------------------------------------------
    def where(self, it, node):
        return (it.loc(node), it.func().qual)

    def get(self, cl, key):
        g = cl.ghosts(key)
        if g is None:
            g = set(self.initial_key(key))
            for c in cl.reset:
                if c in self.names:
                    i = self.names.index(c)
                    g = {x for x in g if not x[i]} if c in cl.known else {x[:i] + (0,) + x[i + 1:] for x in g}
            g = frozenset(g)
        return g

    def upd(self, cl, key, comp, fn):
        i = self.names.index(comp)
        return cl.set(key, {x[:i] + (fn(x[i]),) + x[i + 1:] for x in self.get(cl, key)})

    def filt(self, cl, key, comp, pred):
        i = self.names.index(comp)
        g = frozenset(x for x in self.get(cl, key) if pred(x[i]))
        return cl.set(key, g) if g else None

    def dirty(self, cl, it, node, what):
        if cl.dirty is None:
            cl = cl.with_(dirty=self.where(it, node) + (what,))
        return cl

    def problem(self, cl, it, node, rule, text):
        b = (rule, self.where(it, node), text)
        return cl if b in cl.bad else cl.with_(bad=tuple(sorted(cl.bad + (b,), key=repr)))

    def tracked(self, X):
        return self.comp_of(None, None, X) is not None

    def owns(self, it, st, atom):
        return atom[0] == 'in' and self.comp_of(it, st, atom[2]) is not None

    def norm(self, it, st, key):
        return key

    def decide(self, it, st, atom):
        if atom[0] == 'in':
            c = self.comp_of(it, st, atom[2])
            if c is not None and c not in st.cl.wild:
                i = self.names.index(c)
                vals = {bool(x[i]) for x in self.get(st.cl, self.norm(it, st, atom[1]))}
                if len(vals) == 1:
                    return vals.pop()
        return None

    def assume(self, it, st, atom, val):
        if atom[0] == 'in':
            c = self.comp_of(it, st, atom[2])
            if c is not None and c not in st.cl.wild:
                self.check_key(it, st, atom[1], atom[2])
                cl = self.filt(st.cl, self.norm(it, st, atom[1]), c, lambda n: bool(n) == val)
                return None if cl is None else st.copy(cl=cl)
        return st

    def filt_all(self, cl, comp):
        for k, _ in cl.keys:
            cl = self.filt(cl, k, comp, lambda n: not n)
            if cl is None:
                return None
        return cl

    def check_key(self, it, st, key, cont):
        pass

    def mutate(self, it, st, X, op, args, node):
        cl = st.cl
        c = self.comp_of(it, st, X)
        if c is None:
            return cl
        cl = self.dirty(cl, it, node, '%s %s' % (show(X), op))
        return self.apply(it, st, cl, X, c, op, args, node)

    SETLIKE = ()

    def apply(self, it, st, cl, X, c, op, args, node):
        setlike = c in self.SETLIKE
        if op in ('add', 'insert', 'setitem'):
            key = args[0] if op == 'setitem' else args[-1]
            self.check_key(it, st, key, X)
            if op == 'setitem' and c not in self.SETLIKE:
                return self.wildcard(cl, c)
            return self.upd(cl, self.norm(it, st, key), c, (lambda n: 1) if setlike else (lambda n: min(n + 1, 2)))
        if op in ('remove', 'discard', 'delitem') or (op == 'pop' and args and not is_const(args[0])):
            key = args[0]
            self.check_key(it, st, key, X)
            return self.upd(cl, self.norm(it, st, key), c, (lambda n: 0) if setlike else (lambda n: max(n - 1, 0)))
        if op in ('update', 'extend'):
            return self.add_all(it, st, cl, X, c, args[0] if args else NONE, node)
        if op in ('sort', 'reverse'):
            return cl
        if op == 'clear':
            return self.reset(cl, c)
        if op == 'difference_update' and args:
            return self.remove_all(it, st, cl, c, args[0])
        return self.wildcard(cl, c)

    def wildcard(self, cl, c):
        return cl if c in cl.wild else cl.with_(wild=tuple(sorted(cl.wild + (c,))))

    def reset(self, cl, c):
        for k, _ in cl.keys:
            cl = self.upd(cl, k, c, lambda n: 0)
        return cl.with_(reset=tuple(sorted(set(cl.reset) | {c})))

    def add_all(self, it, st, cl, X, c, src, node):
        kind, els = it.elements(st, src, node)
        if src[0] == 'o' and src[1] in st.heap and st.heap[src[1]].kind == 'dict':
            h = st.heap[src[1]]
            if h.members:
                els, kind = [k for k, _ in h.members], 'exact'
        if kind == 'generic' and it.decide(st, ('nonempty', src)) is False:
            return cl
        els = els if kind == 'exact' else [els]
        conds = src[3] if src[0] == 'comp' else ()
        if src[0] == 'o' and src[1] in st.heap:
            h = st.heap[src[1]]
            conds = h.attrs.get('#conds', ()) or (h.origin[3] if h.origin is not None and h.origin[0] == 'comp' else ())
        st2 = st.copy(cl=cl)
        for a, v in conds:
            st2 = self.assume(it, st2, a, v) or st2
        cl = st2.cl
        setlike = c in self.SETLIKE
        for e in els:
            if e[0] == 't' and c in self.SETLIKE and len(e[1]) == 2 and self.dictlike(c):
                e = e[1][0]
            self.check_key(it, st, e, X)
            cl = self.upd(cl, self.norm(it, st, e), c, (lambda n: 1) if setlike else (lambda n: min(n + 1, 2)))
        return cl

    def dictlike(self, c):
        return True

    def remove_all(self, it, st, cl, c, src):
        kind, els = it.elements(st, src, None)
        els = list(els) if kind == 'exact' else [els]
        for e in els:
            for k, _ in cl.keys:
                if self.covers(e, k):
                    cl = self.upd(cl, k, c, lambda n: 0)
        return cl

    def covers(self, e, k):
        """is key term k (possibly of an earlier iteration) one of the elements e stands for?"""
        return e == k or self.unprev(k) == e

    def unprev(self, t):
        if isinstance(t, tuple):
            if t and t[0] == 'prev':
                return t[1]
            return tuple(self.unprev(x) if isinstance(x, tuple) else x for x in t)
        return t

    def next_round(self, it, st, el, entry):
        cl = st.cl
        for l in el_leafs(el):
            keys = {}
            for k, g in cl.keys:
                k2 = subst(k, l, ('prev', l)) if mentions(k, l) and not mentions(k, ('prev', l)) else k
                keys[k2] = keys.get(k2, frozenset()) | g
            for k, g in entry.keys:
                if mentions(k, l) and not mentions(k, ('prev', l)):
                    keys[k] = g
            cl = cl.with_(keys=tuple(sorted(keys.items(), key=repr)),
                          pend=tuple(sorted({subst(p, l, ('prev', l)) if not mentions(p, ('prev', l)) else p
                                             for p in cl.pend}, key=repr)))
        return cl

    def rename(self, it, cl, a, b):
        if not any(mentions(k, a) for k, _ in cl.keys) and not any(mentions(p, a) for p in cl.pend):
            return cl
        keys = {}
        for k, g in cl.keys:
            k2 = subst(k, a, b)
            keys[k2] = keys.get(k2, frozenset()) | g
        return cl.with_(keys=tuple(sorted(keys.items(), key=repr)), pend=tuple(sorted({subst(p, a, b) for p in cl.pend}, key=repr)))

    def loop_done(self, it, st, el):
        cl = st.cl
        for l in el_leafs(el):
            pl = ('prev', l)
            if not any(mentions(k, pl) for k, _ in cl.keys) and not any(mentions(p, pl) for p in cl.pend):
                continue
            keys = {}
            for k, g in cl.keys:
                k2 = subst(k, pl, l)
                keys[k2] = keys.get(k2, frozenset()) | g
            cl = cl.with_(keys=tuple(sorted(keys.items(), key=repr)),
                          pend=tuple(sorted({subst(p, pl, l) for p in cl.pend}, key=repr)))
        return cl

    def roots(self, cl):
        return [o for _, o in cl.saved]

    def on_raise(self, it, st, exc, node):
        return st.cl

    # -- verdict ----------------------------------------------------------------------------
    def verdict(self, cl):
        """-> list of (rule, text) for one exit"""
        out = [(r, w, t) for r, w, t in cl.bad]
        for k, gs in cl.keys:
            kind = self.kind(k)
            for g in gs:
                g2 = g
                if cl.wild:
                    cands = [v for v in self.initial(kind) + self.finals(kind)
                             if all(v[i] == g[i] or n in cl.wild for i, n in enumerate(self.names))]
                    if cands:
                        continue
                if not self.valid(kind, g2):
                    out.append(('ledger', None, '%s ends up as %s' % (show(k), ', '.join(
                        '%s:%s' % (n, x) for n, x in zip(self.names, g2)))))
                    break
        return out

    def finals(self, kind):
        return ()


class BlockBooks(Books):
    """data block: block / true_case / item_order / loops"""
    names = ('block', 'true_case', 'item_order', 'loops', 'table')
    SETLIKE = ('block', 'true_case', 'table')

    def __init__(self, base=SELF, lengths=True):
        self.base = base
        self.case = []
        for n in ('block', 'true_case', 'item_order', 'loops'):
            setattr(self, 'T_' + n, ('at', base, n))

    def type_of(self, it, st, t):
        if t == self.base and self.base != SELF:
            return 'StarBlock'
        return None

    def is_loopnum(self, k):
        if is_const(k):
            return not is_str(k)
        if k[0] == 'pick':
            return self.is_loopnum(k[1])
        return k == ('el', self.T_loops) or k == ('prev', ('el', self.T_loops)) or \
            (k[0] == 'bop' and mentions(k, self.T_loops)) or (k[0] == 'call' and k[1] in ('max', 'len')) or k[0] == 'len'

    def kind(self, key):
        return 'n' if self.is_loopnum(key) else 'k'

    def initial(self, kind):
        if kind == 'n':
            return ((0, 0, 0, 0, 0), (0, 0, 1, 0, 1))
        return ((0, 0, 0, 0, 0), (1, 1, 1, 0, 0), (1, 1, 0, 1, 0))

    def initial_key(self, key):
        kind = self.kind(key)
        if kind == 'n' and self.is_new(key):
            return ((0, 0, 0, 0, 0),)
        return self.initial(kind)

    def is_new(self, k):
        """max(loop numbers) + 1"""
        return k[0] == 'bop' and k[1] == 'Add' and any(
            a[0] == 'call' and a[1] == 'max' and mentions(a, self.T_loops) for a in k[2:]) and any(
            is_const(a) and isinstance(a[1], int) and a[1] > 0 for a in k[2:])

    def valid(self, kind, g):
        return g in self.initial(kind)

    def comp_of(self, it, st, X):
        if X == self.T_block:
            return 'block'
        if X == self.T_true_case:
            return 'true_case'
        if X == self.T_item_order:
            return 'item_order'
        if X == self.T_loops:
            return 'table'
        if X[0] == 'ix' and X[1] == self.T_loops:
            return 'loops'
        if it is not None and X[0] == 'o' and X[1] in st.heap:
            # a fresh list that has been stored as one of the loops keeps its identity
            for (l, o) in st.cl.saved:
                if o == X:
                    return 'loops'
        return None

    def tracked(self, X):
        return X in (self.T_block, self.T_true_case, self.T_item_order, self.T_loops) or (X[0] == 'ix' and X[1] == self.T_loops)

    def loop_of(self, X):
        return X[2] if X[0] == 'ix' else X

    def owns(self, it, st, atom):
        return atom[0] == 'in' and self.tracked(atom[2]) and not self.specific(atom[2])

    NAMES = {'key', 'itemname', 'datanames', 'oldname', 'newname', 'dataname', 'keyname', 'blockname', 'parentname', 'childname'}

    def is_name(self, t):
        while t[0] in ('el', 'prev', 'ix', 'strof'):
            t = t[1]
        return t[0] == 'p' and t[1] in self.NAMES

    def decide(self, it, st, atom):
        if atom[0] == 'in' and self.specific(atom[2]):
            if 'loops' in st.cl.wild:
                return None
            g = self.get(st.cl, atom[1])
            if all(x[3] == 0 for x in g):
                return False
            n = atom[2][2]
            if n[0] == 'pick' and n[2][0] == 'comp' and self.member_test(n[2]) == atom[1] and all(x[3] for x in g):
                return True
            return None
        if atom[0] == 'inst' and 'str' in atom[2] and self.is_name(atom[1]) and (atom[1] != ('p', 'itemname') or len(atom[2]) == 1 and False):
            return True
        if atom[0] == 'truth' and atom[1] == ('at', self.base, 'dictionary'):
            return False
        if atom[0] == 'eq' and atom[1] == ('at', self.base, 'dictionary') and atom[2] == NONE:
            return True
        if atom[0] == 'lt' and is_const(atom[2]) and self.is_loopnum(atom[1]) and not is_const(atom[1]):
            if atom[2][1] <= 0:
                return False
        if atom[0] == 'lt' and is_const(atom[1]) and self.is_loopnum(atom[2]) and not is_const(atom[2]):
            if atom[1][1] < 0 or atom[1][1] == 0:
                return True
        if atom[0] == 'eq' and is_const(atom[2]) and atom[2][1] == -1 and self.is_loopnum(atom[1]) and not is_const(atom[1]):
            return False
        if atom[0] == 'inst' and self.is_loopnum(atom[1]) and not is_const(atom[1]):
            return 'int' in atom[2]
        if atom[0] == 'nonempty':
            k = self.member_test(atom[1])
            if k is not None and 'loops' not in st.cl.wild:
                vals = {bool(x[3]) for x in self.get(st.cl, k)}
                if len(vals) == 1:
                    return vals.pop()
            return None
        return super().decide(it, st, atom)

    def member_test(self, t):
        """[n for n in loops if key in loops[n]] -> key"""
        if t[0] == 'comp' and t[2] == self.T_loops:
            el = ('el', self.T_loops)
            for a, v in t[3]:
                if v and a[0] == 'in' and a[2] == ('ix', self.T_loops, el):
                    return a[1]
        if t[0] == 'comp' and t[2] in (('items', self.T_loops), ('values', self.T_loops)):
            el = ('el', self.T_loops)
            for a, v in t[3]:
                if v and a[0] == 'in' and a[2] == ('ix', self.T_loops, el):
                    return a[1]
        return None

    def empty_scan(self, t):
        """[n for n in loops if len(loops[n]) == 0]"""
        if t[0] == 'comp' and t[2] in (self.T_loops, ('items', self.T_loops)):
            el = ('ix', self.T_loops, ('el', self.T_loops))
            for a, v in t[3]:
                if not v and a == ('nonempty', el):
                    return True
        return False

    def assume(self, it, st, atom, val):
        cl = st.cl
        if atom[0] == 'nonempty':
            k = self.member_test(atom[1])
            if k is not None:
                self.check_key(it, st, k, atom[1])
                cl = self.filt(cl, k, 'loops', lambda n: bool(n) == val)
                return None if cl is None else st.copy(cl=cl)
            if self.empty_scan(atom[1]) and not val:
                return st.copy(cl=cl.with_(pend=()))
            X = atom[1]
            if X == self.T_loops and not val:
                cl = self.filt_all(cl, 'loops')
                if cl is not None:
                    cl = self.filt_all(cl, 'table')
                return None if cl is None else st.copy(cl=cl.with_(pend=(), reset=tuple(sorted(set(cl.reset) | {'loops', 'table'})),
                                                                      known=('loops', 'table')))
            if X[0] == 'ix' and X[1] == self.T_loops:
                if val:
                    return st.copy(cl=cl.with_(pend=tuple(p for p in cl.pend if p != X[2])))
                # an empty loop: nothing to remove it for, unless it is deleted
                if X[2] not in cl.pend:
                    return st if not cl.pend and False else st.copy(cl=cl)
            return st
        if atom[0] == 'in' and atom[2] == self.T_loops:
            cl = self.filt(cl, atom[1], 'table', lambda n: bool(n) == val)
            return None if cl is None else st.copy(cl=cl)
        if atom[0] == 'in' and self.specific(atom[2]):
            self.check_key(it, st, atom[1], atom[2])
            if val:
                cl = self.filt(cl, atom[1], 'loops', lambda n: bool(n))
                return None if cl is None else st.copy(cl=cl)
            return st
        return super().assume(it, st, atom, val)

    def specific(self, X):
        """one particular loop (not an arbitrary one)"""
        return X[0] == 'ix' and X[1] == self.T_loops and X[2] != ('el', self.T_loops)

    def apply(self, it, st, cl, X, c, op, args, node):
        if c == 'loops':
            n = self.loop_of(X)
            if op in ('remove', 'discard', 'pop', 'delitem', 'clear', 'difference_update', 'delslice'):
                cl = cl.with_(pend=tuple(sorted(set(cl.pend) | {n}, key=repr)))
            elif op in ('add', 'insert', 'extend'):
                cl = cl.with_(pend=tuple(p for p in cl.pend if p != n))
        if c == 'table':
            if op == 'setitem':
                if self.is_new(args[0]) and all(x[2] == 1 and x[4] == 1 for x in self.get(cl, args[0])):
                    # the number of the loop made before, which is in order: this one is another
                    cl = self.upd(cl, args[0], 'item_order', lambda n: 0)
                cl = self.upd(cl, args[0], 'table', lambda n: 1)
                v = args[1]
                cl = cl.with_(pend=tuple(p for p in cl.pend if p != args[0]))
                perm = self.permutation(it, st, v, ('ix', self.T_loops, args[0]))
                if not perm:
                    cl = self.add_all(it, st, cl, ('ix', self.T_loops, args[0]), 'loops', v, node)
                if v[0] == 'o':
                    cl = cl.with_(saved=tuple(sorted(set(cl.saved) | {(args[0], v)}, key=repr)))
                return cl
            if op in ('delitem', 'pop') and args:
                cl = self.upd(cl, args[0], 'table', lambda n: 0)
                return cl.with_(pend=tuple(p for p in cl.pend if p != args[0]))
        return super().apply(it, st, cl, X, c, op, args, node)

    def permutation(self, it, st, v, X):
        """value built only from the elements of X itself (a reordering)"""
        if v[0] == 'o' and v[1] in st.heap:
            h = st.heap[v[1]]
            src = h.origin
            ms = list(h.members)
            if src is not None:
                ms.append(('el', it.strip_view(st, src)) if src[0] != 'comp' else src[1])
            return bool(ms) and all(m == ('el', X) or mentions(m, ('el', X)) or self.filtered(m, X) for m in ms)
        if v[0] == 'comp':
            return v[1] == ('el', X)
        return v == X

    def filtered(self, m, X):
        # [i for i in other if i in X]: members of X as well
        if m[0] == 'el' and m[1][0] == 'comp':
            return any(val and a[0] == 'in' and a[2] == X for a, val in m[1][3])
        return False

    def check_key(self, it, st, key, cont):
        if self.is_loopnum(key) or it is None:
            return
        self.case.append((it.func().qual, it.chain(), key, cont, it.loc(it.cur_node) if getattr(it, 'cur_node', None) else ''))

    def same_table(self, it, st, obj, attr, val):
        # the old list without some of its entries
        if obj != self.base or attr != 'item_order':
            return False
        if val[0] == 'o' and val[1] in st.heap:
            h = st.heap[val[1]]
            val = h.origin if h.origin is not None and not h.members else val
        T = ('at', obj, attr)
        return val[0] == 'comp' and val[2] == T and val[1] == ('el', T)

    def attr_write(self, it, st, obj, attr, val, node):
        cl = st.cl
        if obj != self.base or attr not in ('block', 'true_case', 'item_order', 'loops'):
            return cl
        cl = self.dirty(cl, it, node, '%s.%s =' % (show(obj), attr))
        T = ('at', obj, attr)
        comp = 'table' if attr == 'loops' else attr
        h = st.heap.get(val[1]) if val[0] == 'o' else None
        src = val
        if h is not None and h.kind in ('list', 'dict', 'set'):
            if h.exact and not h.members:
                cl = self.reset(cl, comp)
                if comp == 'table':
                    cl = self.reset(cl, 'loops')
                return cl.with_(whole=tuple(sorted(set(cl.whole) - {w for w in cl.whole if w[0] == attr} | {(attr, 'empty')})))
            src = h.origin if h.origin is not None and not h.members else None
            if h.origin is not None and h.origin[0] == 'comp':
                src = h.origin
        if src is not None and src[0] == 'comp' and src[2] == T and src[1] == ('el', T):
            for a, v in src[3]:
                if not v and a[0] == 'in' and a[1] == ('el', T):
                    cl = self.remove_all(it, st, cl, comp, a[2])
                    return cl
                if not v and a[0] == 'eq' and ('el', T) in a[1:]:
                    other = a[2] if a[1] == ('el', T) else a[1]
                    return self.upd(cl, other, comp, lambda n: 0)
            if not src[3]:
                return cl
            return self.wildcard(cl, comp)
        if src is not None:
            s2 = it.strip_view(st, src)
            if s2 == T:
                return cl
            if s2[0] == 'deep':
                s2 = s2[1]
            if s2[0] == 'at' and s2[2] == attr:
                return cl.with_(whole=tuple(sorted(set(w for w in cl.whole if w[0] != attr) | {(attr, show(s2[1]))})))
        cl = self.wildcard(cl, comp)
        if comp == 'table':
            cl = self.wildcard(cl, 'loops')
        return cl.with_(whole=tuple(sorted(set(w for w in cl.whole if w[0] != attr) | {(attr, 'other')})))

    def verdict(self, cl):
        out = super().verdict(cl)
        for p in cl.pend:
            out.append(('empty-loop', None, 'a column was taken out of loop %s and nothing checks whether the loop is now empty' % show(p)))
        if cl.whole:
            srcs = {a: s for a, s in cl.whole}
            if set(srcs) != {'block', 'true_case', 'item_order', 'loops'} or len(set(srcs.values())) > 1:
                if not (len(srcs) < 4 and all(v == 'other' for v in srcs.values())):
                    out.append(('wholesale', None, 'replaced together: %s' % ', '.join('%s<-%s' % x for x in sorted(srcs.items()))))
        return out


class CollBooks(Books):
    """block collection: blocks / all keys / parent table / visible keys / output order"""
    names = ('dictionary', 'lower_keys', 'child_table', 'visible_keys', 'block_input_order')
    SETLIKE = ('dictionary', 'lower_keys', 'child_table')
    ABSENT = (0, 0, 0, 0, 0)

    def __init__(self, base=SELF):
        self.base = base
        self.case = []
        self._norms = {}

    def comp_of(self, it, st, X):
        if X[0] == 'at' and X[1] == self.base and X[2] in self.names:
            return X[2]
        return None

    def foreign(self, X):
        """the same table of another collection"""
        return X[0] == 'at' and X[1] != self.base and X[2] in self.names

    def norm(self, it, st, key):
        c = self._norms
        r = c.get(key)
        if r is None:
            r = c[key] = self.norm_(it, st, key)
        return r

    def norm_(self, it, st, key):
        # an element of any table of another (consistent) collection is the same name
        if isinstance(key, tuple) and key:
            if key[0] == 'el' and len(key) == 2 and self.foreign(key[1]):
                return ('el', ('at', key[1][1], 'lower_keys'))
            return tuple(self.norm_(it, st, x) if type(x) is tuple else x for x in key)
        return key

    def kind(self, key):
        return 'k'

    def initial(self, kind):
        return (self.ABSENT, (1, 1, 'top', 1, 1), (1, 1, 'child', 1, 1), (1, 1, 'child', 0, 1))

    def initial_key(self, key):
        k = key[1] if key[0] == 'el' else None
        if k is not None and self.comp_of(None, None, k):
            return tuple(g for g in self.initial('k') if g[1])
        return self.initial('k')

    def valid(self, kind, g):
        return g in self.initial(kind)

    def parent_of(self, t):
        """child_table[k].parent -> k"""
        if t[0] == 'at' and t[2] == 'parent' and t[1][0] == 'ix' and self.comp_of(None, None, t[1][1]) == 'child_table':
            return t[1][2]
        if t[0] == 'ix' and t[2] == C(1) and t[1][0] == 'ix' and self.comp_of(None, None, t[1][1]) == 'child_table':
            return t[1][2]
        return None

    def eq_parent(self, atom):
        """-> (key, other side)"""
        if atom[0] == 'eq':
            for a, b in ((atom[1], atom[2]), (atom[2], atom[1])):
                k = self.parent_of(a)
                if k is not None:
                    return k, b
        return None

    def owns(self, it, st, atom):
        return (atom[0] == 'in' and self.comp_of(it, st, atom[2]) is not None)

    def tracked(self, X):
        return self.comp_of(None, None, X) is not None

    def top_scan(self, t):
        """[k for k in child_table if child_table[k].parent is None]"""
        if t[0] == 'comp':
            for a, v in t[3]:
                ep = self.eq_parent(a)
                if ep and ep[1] == NONE and v and ep[0] == t[1]:
                    return True
        return False

    def decide(self, it, st, atom):
        ep = self.eq_parent(atom)
        if ep:
            g = self.get(st.cl, self.norm(it, st, ep[0]))
            if ep[1] == NONE:
                vals = {x[2] for x in g if x[2]}
                if vals == {'top'}:
                    return True
                if vals == {'child'}:
                    return False
            elif all(x[2] != 'child' for x in g) and self.stringy(ep[1]):
                return False
            return None
        if atom[0] == 'in' and self.top_scan(atom[2]):
            vals = {x[2] == 'top' for x in self.get(st.cl, self.norm(it, st, atom[1]))}
            if len(vals) == 1:
                return vals.pop()
            return None
        if atom[0] == 'in' and atom[1] == ('at', self.base, 'scoping') and mentions(atom[2], C('instance')) \
                and mentions(atom[2], C('dictionary')):
            return True     # the only values the setter lets through
        if atom[0] == 'in' and self.foreign(atom[2]) and self.norm(it, st, atom[1]) == ('el', ('at', atom[2][1], 'lower_keys')):
            if atom[2][2] != 'visible_keys':
                return True
        if atom[0] == 'in' and atom[1][0] == 'el' and atom[1][1] == atom[2] and self.comp_of(it, st, atom[2]) is None:
            return True
        return super().decide(it, st, atom)

    def stringy(self, t):
        return t[0] == 'lower' or (t[0] == 'p' and t != ('p', 'parent')) or is_str(t)

    def assume(self, it, st, atom, val):
        ep = self.eq_parent(atom)
        if ep:
            cl, k = st.cl, self.norm(it, st, ep[0])
            if ep[1] == NONE:
                cl = self.filt(cl, k, 'child_table', lambda n: (n == 'top') == val if n else True)
            elif val and (self.stringy(ep[1]) or ep[1][0] in ('p', 'el')):
                cl = self.filt(cl, k, 'child_table', lambda n: n == 'child')
            return None if cl is None else st.copy(cl=cl)
        if atom[0] == 'in' and self.top_scan(atom[2]):
            cl = self.filt(st.cl, self.norm(it, st, atom[1]), 'child_table', lambda n: (n == 'top') == val)
            return None if cl is None else st.copy(cl=cl)
        return super().assume(it, st, atom, val)

    def status(self, it, st, v, old=None):
        """parent recorded by a child table entry -> {'top'} / {'child'} / both"""
        par = None
        if v[0] == 'call' and len(v[2]) >= 2 and (v[1] in ('.PC', 'PC') or (
                not isinstance(v[1], str) and v[1][0] == 'at' and v[1][2] == 'PC')):
            par = v[2][-1]
        elif v[0] == 'call' and isinstance(v[1], tuple) and v[1][:1] == ('ext',) and v[1][1].endswith('PC'):
            par = v[2][-1]
        elif v[0] == 'ix' and self.comp_of(it, st, v[1]) == 'child_table':
            return self.present(st.cl, self.norm(it, st, v[2]))
        elif v[0] == 'ix' and self.foreign(v[1]):
            ka = ('eq', ('at', v, 'parent'), NONE)
            d = it.decide(st, ka)
            return {'top', 'child'} if d is None else ({'top'} if d else {'child'})
        if par is None:
            return {'top', 'child'}
        if par == NONE:
            return {'top'}
        k = self.parent_of(par)
        if k is not None:
            return self.present(st.cl, self.norm(it, st, k))
        d = it.decide(st, ('eq', par, NONE))
        if d is True:
            return {'top'}
        if d is False or par[0] in ('lower', 'bop', 'strof') or is_str(par):
            return {'child'}
        if par[0] == 'p' and par[1] in ('newname', 'parentname', 'oldname'):
            return {'child'}
        return {'top', 'child'}

    def present(self, cl, key):
        """parent status of an entry that was looked up (possibly removed since)"""
        g = {x[2] for x in self.get(cl, key) if x[2]}
        if not g:
            for k, m in cl.memo:
                if k == key:
                    g = set(m)
        return g or {'top', 'child'}

    def remember(self, cl, key):
        g = frozenset(x[2] for x in self.get(cl, key) if x[2])
        if g:
            cl = cl.with_(memo=tuple(sorted([(k, m) for k, m in cl.memo if k != key] + [(key, g)], key=repr)))
        return cl

    def set_status(self, cl, key, sts):
        out = set()
        for x in self.get(cl, key):
            for s in sts:
                out.add(x[:2] + (s,) + x[3:])
        return cl.set(key, out)

    def apply(self, it, st, cl, X, c, op, args, node):
        if c == 'child_table' and op in ('delitem', 'pop') and args:
            cl = self.remember(cl, self.norm(it, st, args[0]))
        if op in ('setitem', 'setdefault') and c in ('dictionary', 'child_table'):
            self.check_key(it, st, args[0], X)
            key = self.norm(it, st, args[0])
            if c == 'child_table':
                return self.set_status(cl, key, self.status(it, st, args[1]))
            return self.upd(cl, key, c, lambda n: 1)
        if op == 'insert' and c in ('visible_keys', 'block_input_order'):
            return self.upd(cl, self.norm(it, st, args[-1]), c, lambda n: min(n + 1, 2))
        if op in ('setslice',) or (op == 'setitem' and c == 'block_input_order'):
            v = args[-1]
            # order[pos:pos] = [name]
            kind, els = it.elements(st, v, node)
            if kind == 'exact' and args[0] == args[1]:
                for e in els:
                    cl = self.upd(cl, self.norm(it, st, e), c, lambda n: min(n + 1, 2))
                return cl
            return self.wildcard(cl, c)
        return super().apply(it, st, cl, X, c, op, args, node)

    def add_all(self, it, st, cl, X, c, src, node):
        # filtered by "not already listed"?
        h = st.heap.get(src[1]) if src[0] == 'o' else None
        comp = h.origin if h is not None and h.origin is not None and not h.members else src
        cap = comp[0] == 'comp' and any(a[0] == 'in' and not v and a[1] == comp[1] and self.comp_of(it, st, a[2]) == c
                                        for a, v in comp[3])
        if h is not None and h.kind == 'dict' and h.members:
            st2 = st.copy(cl=cl)
            for a, v in h.attrs.get('#conds', ()):
                st2 = self.assume(it, st2, a, v) or st2
            cl = st2.cl
            for k, v in h.members:
                cl = self.put(it, st, cl, c, k, v, cap)
            return cl
        if h is not None and h.kind == 'dict' and h.origin is not None and h.origin[0] != 'comp':
            k = ('el', h.origin)
            return self.put(it, st, cl, c, k, ('ix', h.origin, k), cap)
        kind, els = it.elements(st, src, node)
        if kind == 'generic' and it.decide(st, ('nonempty', src)) is False:
            return cl
        for e in (els if kind == 'exact' else [els]):
            if e[0] == 't' and len(e[1]) == 2 and c in ('dictionary', 'child_table'):
                cl = self.put(it, st, cl, c, e[1][0], e[1][1], cap)
            elif c == 'child_table':
                cl = self.put(it, st, cl, c, e, ('ix', src, e), cap)
            else:
                cl = self.put(it, st, cl, c, e, None, cap)
        return cl

    def put(self, it, st, cl, c, k, v, cap):
        self.check_key(it, st, k, ('at', self.base, c))
        k = self.norm(it, st, k)
        if c == 'child_table':
            return self.set_status(cl, k, self.status(it, st, v))
        if c in self.SETLIKE:
            return self.upd(cl, k, c, lambda n: 1)
        return self.upd(cl, k, c, lambda n: max(n, 1) if cap else min(n + 1, 2))

    def attr_write(self, it, st, obj, attr, val, node):
        cl = st.cl
        if obj != self.base or attr not in self.names:
            return cl
        cl = self.dirty(cl, it, node, '%s.%s =' % (show(obj), attr))
        h = st.heap.get(val[1]) if val[0] == 'o' else None
        if h is not None and h.exact and not h.members and h.origin is None:
            return self.reset(cl, attr)
        src = val
        if h is not None and h.origin is not None and not h.members:
            src = h.origin
        T = ('at', obj, attr)
        if attr == 'visible_keys':
            # rebuilt from the other tables
            base = src[2] if src[0] == 'comp' else src
            el = src[1] if src[0] == 'comp' else None
            base = it.strip_view(st, base)
            bc = self.comp_of(it, st, base[1] if base[0] in ('keys', 'items') else base)
            if bc in ('lower_keys', 'dictionary', 'child_table', 'block_input_order') and (
                    el is None or el == ('el', base[1] if base[0] in ('keys', 'items') else base)):
                flt = src[3] if src[0] == 'comp' else ()
                out = cl
                i = self.names.index(bc)
                if not flt:
                    for k, g in cl.keys:
                        out = out.set(k, {x[:3] + (1 if x[i] else 0,) + x[4:] for x in g})
                    return out.with_(reset=tuple(a for a in out.reset if a != attr))
                if all(self.eq_parent(a) and self.eq_parent(a)[1] == NONE and v and self.eq_parent(a)[0] == el for a, v in flt):
                    for k, g in cl.keys:
                        out = out.set(k, {x[:3] + (1 if x[i] and x[2] == 'top' else 0,) + x[4:] for x in g})
                    return out
        if src[0] == 'comp' and src[1] == ('el', T):
            for a, v in src[3]:
                if not v and a[0] == 'eq' and ('el', T) in a[1:]:
                    other = a[2] if a[1] == ('el', T) else a[1]
                    return self.upd(cl, self.norm(it, st, other), attr, lambda n: 0)
                if not v and a[0] == 'in' and a[1] == ('el', T):
                    return self.remove_all(it, st, cl, attr, a[2])
        return self.wildcard(cl, attr)

    def check_key(self, it, st, key, cont):
        if it is not None:
            self.case.append((it.func().qual, it.chain(), key, cont, ''))

    def intrinsic(self, it, st, func, recv, args, kw, node):
        # deleting a block removes its key from every table, or reports that there is no such block
        # (established by analysing __delitem__ itself)
        if not isinstance(func, tuple) and func.name == '__delitem__' and func.cls is not None and func.cls.name == 'BlockCollection' and recv == self.base \
                and it.stack and args:
            key = self.norm(it, st, lower(args[0]))
            self.check_key(it, st, lower(args[0]), ('at', self.base, 'dictionary'))
            atom = ('in', lower(args[0]), ('at', self.base, 'lower_keys'))
            out = []
            for s, ok in it.split(st, atom):
                if not ok:
                    it.throw(s, 'KeyError', node, implicit=True)
                    continue
                cl = self.dirty(s.cl, it, node, '%s delete' % show(recv))
                cl = self.remember(cl, key).set(key, {self.ABSENT})
                out.append((s.copy(cl=cl), NONE))
            return out
        return None

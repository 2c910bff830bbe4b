"""Path-sensitive dataflow over the syntax tree.

A structured, disjunctive abstract interpretation: every program point carries a bounded set of
abstract states; a state maps variables to symbolic *terms* (where a value came from), records the
branch facts known to hold and carries a client-defined component updated at events (container
mutation, attribute write, call, raise).  Repository functions are analysed in the caller's context
up to a depth bound, loops are run to a fixpoint over one generic element, terms are widened.  No
code of the repository is executed and no path is handed to a solver.

Terms are nested tuples:
  ('c', v) constant         ('t', (..)) tuple            ('p', name) parameter / unknown root
  ('o', n) heap object      ('at', b, a) attribute       ('ix', b, k) subscript
  ('el', X) an element / key of X                        ('lower', t)   ('len', X)
  ('call', f, args) opaque result    ('bop', op, l, r)   ('un', site) unknown
  ('fn', i) function  ('bm', recv, i) bound method       ('cls', name)  ('mod', name)
  ('comp', elt, X, conds) comprehension over X           ('w', site, var) widened
  ('slice', X, lo, hi)  ('keys'|'values'|'items', X)
"""
import ast
import builtins

MAX_STATES = 160
SOFT_STATES = 40
FRAME_STATES = 16
MAX_DEPTH = 12


def C(v):
    return ('c', v, type(v).__name__)


NONE, TRUE, FALSE = C(None), C(True), C(False)


def is_const(t):
    return t[0] == 'c'


def is_str(t):
    return t[0] == 'c' and t[2] == 'str'


def lower(t):
    if t[0] == 'lower':
        return t
    if is_str(t):
        return C(t[1].lower())
    if is_lower(t):
        return t
    return ('lower', t)


def is_lower(t):
    """text known to contain no upper-case letter"""
    if is_str(t):
        return t[1] == t[1].lower()
    return t[0] == 'lower' or (t[0] == 'bop' and t[1] == 'Add' and all(is_lower(x) for x in t[2:]))


def mentions(term, sub):
    if term == sub:
        return True
    if type(term) is tuple:
        for x in term:
            if type(x) is tuple and mentions(x, sub):
                return True
    elif type(term) is frozenset:
        return any(mentions(x, sub) for x in term)
    return False


def mentions_obj(t, oids):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'o':
            return t[1] in oids
        return any(mentions_obj(x, oids) for x in t if isinstance(x, tuple))
    return False


def subst_term(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        if not mentions(t, a):
            return t
        return tuple(subst_term(x, a, b) if isinstance(x, (tuple, frozenset)) else x for x in t)
    if isinstance(t, frozenset):
        return frozenset(subst_term(x, a, b) for x in t)
    return t


def el_leafs(el):
    out = []

    def collect(t):
        if isinstance(t, tuple) and t:
            if t[0] == 'el':
                out.append(t)
            else:
                for x in t:
                    collect(x)
    collect(el)
    return list(dict.fromkeys(out))


_OPQ = {}


def opaque_term(t):
    """does the term contain an opaque call result or an unknown?"""
    if not isinstance(t, tuple) or not t:
        return False
    r = _OPQ.get(t)
    if r is None:
        r = t[0] in ('call', 'un', 'w', 'bop') or any(opaque_term(x) for x in t if isinstance(x, tuple))
        if len(_OPQ) > 200000:
            _OPQ.clear()
        _OPQ[t] = r
    return r


def opaque_leaves(t, out):
    if isinstance(t, tuple) and t:
        if t[0] in ('call', 'un', 'w', 'bop'):
            out.add(t)
        for x in t:
            if isinstance(x, tuple):
                opaque_leaves(x, out)


def term_depth(t):
    if not isinstance(t, tuple):
        return 0
    return 1 + max([term_depth(x) for x in t if isinstance(x, tuple)] or [0])


def show(t):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    if k == 'c':
        return repr(t[1])
    if k == 'p':
        return t[1]
    if k == 't':
        return '(' + ', '.join(show(x) for x in t[1]) + ')'
    if k == 'o':
        return t[1] if isinstance(t[1], str) else 'obj%s' % (t[1],)
    if k == 'at':
        return '%s.%s' % (show(t[1]), t[2])
    if k == 'ix':
        return '%s[%s]' % (show(t[1]), show(t[2]))
    if k == 'el':
        return 'each(%s)' % show(t[1])
    if k in ('lower', 'len', 'keys', 'values', 'items'):
        return '%s(%s)' % (k, show(t[1]))
    if k == 'call':
        return '%s(%s)' % (t[1] if isinstance(t[1], str) else show(t[1]), ', '.join(show(x) for x in t[2]))
    if k == 'bop':
        return '%s %s %s' % (show(t[2]), t[1], show(t[3]))
    if k == 'comp':
        return '[%s for %s%s]' % (show(t[1]), show(t[2]), ' if..' if t[3] else '')
    if k == 'slice':
        return '%s[:]' % show(t[1])
    if k == 'in':
        return '%s in %s' % (show(t[1]), show(t[2]))
    return k


class Heap:
    """Abstract heap object (immutable record)."""
    __slots__ = ('kind', 'cls', 'attrs', 'members', 'exact', 'origin')

    def __init__(self, kind, cls=None, attrs=None, members=(), exact=True, origin=None):
        self.kind, self.cls = kind, cls
        self.attrs = attrs or {}
        self.members = members        # tuple of terms (list/set/tuple) or of (key,value) pairs (dict)
        self.exact = exact            # members is exactly the content (else: generic members)
        self.origin = origin          # term this is a shallow copy of

    def key(self):
        return (self.kind, self.cls, frozenset(self.attrs.items()), self.members, self.exact, self.origin)

    def with_(self, **kw):
        h = Heap(self.kind, self.cls, self.attrs, self.members, self.exact, self.origin)
        for k, v in kw.items():
            setattr(h, k, v)
        return h


class State:
    __slots__ = ('env', 'heap', 'facts', 'cl', 'exc')

    def __init__(self, env, heap, facts, cl, exc=()):
        self.env, self.heap, self.facts, self.cl, self.exc = env, heap, facts, cl, exc

    def key(self):
        return (frozenset(self.env.items()),
                frozenset((k, v.key()) for k, v in self.heap.items()),
                frozenset(self.facts.items()), self.cl, self.exc)

    def copy(self, **kw):
        s = State(self.env, self.heap, self.facts, self.cl, self.exc)
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def bind(self, name, val):
        e = dict(self.env)
        e[name] = val
        return self.copy(env=e)

    def hset(self, oid, h):
        d = dict(self.heap)
        d[oid] = h
        return self.copy(heap=d)

    def fact(self, atom, val):
        d = dict(self.facts)
        d[atom] = val
        return self.copy(facts=d)

    def kill(self, sub):
        d = {k: v for k, v in self.facts.items() if not mentions(k, sub)}
        return self.copy(facts=d) if len(d) != len(self.facts) else self


class Out:
    __slots__ = ('normal', 'ret', 'brk', 'cont')

    def __init__(self):
        self.normal, self.ret, self.brk, self.cont = [], [], [], []


class Client:
    """Override what the property needs."""
    def init(self):
        return ()

    def same_table(self, it, st, obj, attr, val):
        """the value put into the attribute is to be thought of as the attribute itself from now on"""
        return False

    def mutate(self, it, st, target, op, args, node):
        return st.cl

    def attr_write(self, it, st, obj, attr, val, node):
        return st.cl

    def call(self, it, st, name, recv, args, kw, node):
        return st.cl

    def on_raise(self, it, st, exc, node):
        return st.cl

    def decide(self, it, st, atom):
        return None

    def assume(self, it, st, atom, val):
        return st          # may return None: infeasible

    def type_of(self, it, st, term):
        return None

    def inline(self, it, func, depth):
        return True

    def owns(self, it, st, atom):
        """the client keeps this atom in its own component: do not store it as a fact"""
        return False

    def tracked(self, term):
        """a container whose membership facts matter"""
        return False

    def next_round(self, it, st, el, entry):
        """a generic loop starts another iteration: `el` now names another element"""
        return st.cl

    def loop_done(self, it, st, el):
        return st.cl

    def rename(self, it, cl, a, b):
        return cl

    def roots(self, cl):
        """terms held by the client component"""
        return ()

    def keep(self, atom):
        """keep a fact about an opaque result when its frame is left?"""
        return False

    def intrinsic(self, it, st, func, recv, args, kw, node):
        return None

    def implicit(self, it, st, exc, what, term, node):
        """Should an implicit exception be followed even when no handler is active?"""
        return False

    def opaque_raises(self, it, st, name, node):
        """exception names an opaque call may raise (in addition to being followed in try blocks)"""
        return ()


_BUILTIN_BASES = {
    'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception',
    'ValueError': 'Exception', 'TypeError': 'Exception', 'AttributeError': 'Exception',
    'NameError': 'Exception', 'UnboundLocalError': 'NameError', 'StopIteration': 'Exception',
    'UnicodeDecodeError': 'UnicodeError', 'UnicodeError': 'ValueError', 'ImportError': 'Exception',
    'AssertionError': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception',
    'OSError': 'Exception', 'IOError': 'OSError', 'RuntimeError': 'Exception', 'Exception': 'BaseException',
    'NotImplementedError': 'RuntimeError', 'RecursionError': 'RuntimeError', 'SyntaxError': 'Exception',
    'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException', 'OverflowError': 'ArithmeticError',
}

MUTATORS = {
    'append': 'add', 'insert': 'insert', 'extend': 'extend', 'remove': 'remove', 'pop': 'pop',
    'clear': 'clear', 'update': 'update', 'add': 'add', 'discard': 'discard', 'setdefault': 'setdefault',
    'sort': 'sort', 'reverse': 'reverse', 'difference_update': 'difference_update',
    'intersection_update': 'intersection_update', 'popitem': 'popitem', 'symmetric_difference_update': 'update',
    '__setitem__': 'setitem', '__delitem__': 'delitem', '__iadd__': 'extend', 'appendleft': 'add',
}


class Interp:
    def __init__(self, prog, client, max_depth=MAX_DEPTH):
        self.prog, self.client = prog, client
        self.funcs = []          # registry for ('fn', i): (Func or ast node, module, cls, closure env)
        self.fidx = {}
        self.stack = []          # active call stack: (Func, call node)
        self.handlers = []       # active exception name sets
        self.sink = None         # list receiving (state, exc, node)
        self.oid = 0
        self.max_depth = max_depth
        self.widened = 0
        self.notes = set()
        self.stats = {'calls': 0, 'inlined': 0, 'opaque': 0, 'paths': 0, 'unknown_nodes': 0}
        self.analysed = set()
        self.site_oid = {}
        self.oid_depth = {}

    # ---- infrastructure -------------------------------------------------------------
    def fresh(self, node, what=''):
        """Allocation-site based identity, distinguished by call stack."""
        key = (id(node), what, tuple(id(n) for _, n in self.stack))
        if key not in self.site_oid:
            self.site_oid[key] = len(self.site_oid) + 1
            self.oid_depth[self.site_oid[key]] = len(self.stack)
        return self.site_oid[key]

    def unknown(self, node):
        return ('un', (self.module().name if self.stack else '', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)))

    def module(self):
        return self.stack[-1][0].module

    def func(self):
        return self.stack[-1][0]

    def loc(self, node):
        try:
            return self.module().loc(node.lineno)
        except Exception:
            return '?'

    def chain(self):
        return ' -> '.join(f.qual for f, _ in self.stack)

    def reg(self, f, env=None):
        key = (id(f), frozenset(env.items()) if env else None)
        if key not in self.fidx:
            self.fidx[key] = len(self.funcs)
            self.funcs.append((f, env))
        return self.fidx[key]

    def dedup(self, states):
        if len(states) <= 1:
            return states
        seen, out = set(), []
        for s in states:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) > SOFT_STATES:
            out = self.merge_facts(out)
        if len(out) > MAX_STATES:
            out = self.merge(out)
        return out

    def merge_facts(self, states):
        groups = {}
        for s in states:
            k = (frozenset(s.env.items()), frozenset((a, b.key()) for a, b in s.heap.items()), s.cl, s.exc)
            g = groups.get(k)
            groups[k] = s if g is None else g.copy(facts={a: v for a, v in g.facts.items() if s.facts.get(a) == v})
        return list(groups.values())

    def merge(self, states):
        """Too many states: join those that agree on the client part (facts are intersected)."""
        self.widened += 1
        groups = {}
        for s in states:
            k = (frozenset(s.env.items()), frozenset((a, b.key()) for a, b in s.heap.items()), s.cl, s.exc)
            if k in groups:
                g = groups[k]
                groups[k] = g.copy(facts={a: v for a, v in g.facts.items() if s.facts.get(a) == v})
            else:
                groups[k] = s
        out = list(groups.values())
        if len(out) <= MAX_STATES:
            return out
        groups = {}
        for s in out:
            k = (s.cl, s.exc)
            if k in groups:
                g = groups[k]
                env = {a: (v if s.env.get(a) == v else ('w', 'join', a)) for a, v in g.env.items() if a in s.env}
                heap = {a: v for a, v in g.heap.items() if a in s.heap and s.heap[a].key() == v.key()}
                groups[k] = State(env, heap, {a: v for a, v in g.facts.items() if s.facts.get(a) == v}, s.cl, s.exc)
            else:
                groups[k] = s
        return list(groups.values())

    # ---- exceptions -----------------------------------------------------------------
    def exc_bases(self, name):
        out, todo = set(), [name]
        while todo:
            n = todo.pop()
            if n in out or n is None:
                continue
            out.add(n)
            c = self.prog.classes.get(n)
            if c is not None:
                todo.extend(c.bases)
            elif n in _BUILTIN_BASES:
                todo.append(_BUILTIN_BASES[n])
        return out

    def catches(self, handler_names, exc):
        if handler_names is None:
            return True
        if exc == '*':
            return None          # unknown exception: maybe
        return bool(self.exc_bases(exc) & handler_names)

    def caught_somewhere(self, exc):
        return any(self.catches(h, exc) is not False for hs in self.handlers for h in hs)

    def throw(self, st, exc, node, implicit=False):
        if implicit and not self.caught_somewhere(exc):
            return
        self.record(st, exc, node)

    def record(self, st, exc, node):
        st = st.copy(cl=self.client.on_raise(self, st, exc, node))
        where = (self.loc(node), self.chain())
        if not self.handlers:
            # nobody looks at the variables any more
            st = State({}, {}, {}, st.cl)
            k = (st.cl, exc, where)
            if k in self.top_raised:
                return
            self.top_raised.add(k)
        self.sink.append((st, exc, where))

    def maybe_throw(self, st, exc, what, term, node):
        """Implicit exception at an operation."""
        if self.caught_somewhere(exc) or self.client.implicit(self, st, exc, what, term, node):
            self.record(st, exc, node)

    # ---- facts ----------------------------------------------------------------------
    def decide(self, st, atom):
        atom = self.canon(st, atom)
        if atom in st.facts:
            return st.facts[atom]
        k = atom[0]
        if k == 'in':
            x, X = atom[1], atom[2]
            if X[0] == 'c' and is_const(x):
                try:
                    return x[1] in X[1]
                except TypeError:
                    return None
            if X[0] == 't':
                if x in X[1]:
                    return True
                if is_const(x) and all(is_const(m) for m in X[1]):
                    return False
            if X[0] == 'o':
                h = st.heap.get(X[1])
                if h is not None and h.kind in ('list', 'set', 'dict'):
                    ms = [m[0] for m in h.members] if h.kind == 'dict' else list(h.members)
                    if h.exact:
                        if x in ms:
                            return True
                        if is_const(x) and all(is_const(m) for m in ms):
                            return False
                        if not ms:
                            return False
        if k == 'nonempty':
            X = atom[1]
            if X[0] == 't':
                return bool(X[1])
            if X[0] == 'c':
                return bool(X[1])
            if X[0] == 'o':
                h = st.heap.get(X[1])
                if h is not None and h.kind in ('list', 'set', 'dict') and h.exact:
                    return bool(h.members)
                if h is not None and h.origin is not None and not h.members:
                    return self.decide(st, ('nonempty', h.origin))
            if X[0] == 'comp' and not X[3]:
                return self.decide(st, ('nonempty', X[2]))
        if k == 'eq':
            a, b = atom[1], atom[2]
            if a == b and a[0] not in ('un', 'w', 'call'):
                return True
            if is_const(a) and is_const(b):
                return a[1] == b[1]
            for u, v in ((a, b), (b, a)):
                if u == NONE and v[0] in ('t', 'o', 'fn', 'bm', 'cls', 'comp', 'lower', 'len'):
                    return False
        if k == 'lt' and is_const(atom[1]) and is_const(atom[2]):
            try:
                return atom[1][1] < atom[2][1]
            except TypeError:
                return None
        r = self.client.decide(self, st, atom)
        return r

    def split(self, st, atom):
        """-> [(state, bool)]"""
        d = self.decide(st, atom)
        if d is not None:
            s = self.client.assume(self, st, atom, d)
            return [(s, d)] if s is not None else []
        out = []
        for v in (True, False):
            s = self.learn(st, atom, v)
            if s is not None:
                out.append((s, v))
        return out

    def canon(self, st, atom):
        if atom[0] == 'nonempty':
            X = self.strip_view(st, atom[1])
            while True:
                if X[0] == 'comp' and not X[3]:
                    X = self.strip_view(st, X[2])
                elif X[0] in ('keys', 'values', 'items', 'enum', 'rev', 'lst'):
                    X = self.strip_view(st, X[1])
                else:
                    break
            return ('nonempty', X)
        return atom

    def learn(self, st, atom, val):
        atom = self.canon(st, atom)
        """state in which atom is known to be val, or None when that is impossible"""
        if st.facts.get(atom) is (not val):
            return None
        if not self.client.owns(self, st, atom):
            st = st.fact(atom, val)
        elif self._logging:
            st = st.fact(('log', atom), val)
        return self.client.assume(self, st, atom, val)

    def strip_view(self, st, X):
        while True:
            if X[0] in ('keys', 'lst', 'slice') and (X[0] != 'slice' or (X[2] is None and X[3] is None)):
                X = X[1]
            elif X[0] == 'comp' and not X[3] and X[1] == ('el', X[2]):
                X = X[2]
            elif X[0] == 'o':
                h = st.heap.get(X[1])
                if h is not None and h.origin is not None and not h.members and h.kind in ('list', 'set', 'dict'):
                    X = h.origin
                else:
                    return X
            else:
                return X

    # ---- truth ------------------------------------------------------------------------
    def truth_atom(self, st, v):
        """-> const bool or atom"""
        if v[0] == 'c':
            return bool(v[1])
        if v[0] == 't':
            return bool(v[1])
        if v[0] in ('fn', 'bm', 'cls', 'mod'):
            return True
        if v[0] == 'atom':
            return v[1]
        if v[0] == 'o':
            h = st.heap.get(v[1])
            if h is not None and h.kind in ('list', 'set', 'dict'):
                return ('nonempty', self.strip_view(st, v)) if not h.exact else bool(h.members)
            if h is not None and h.kind == 'obj':
                return ('truth', v)
        if v[0] in ('comp', 'keys', 'values', 'items', 'lst', 'slice', 'cat'):
            return ('nonempty', self.strip_view(st, v))
        if v[0] == 'len':
            return ('nonempty', self.strip_view(st, v[1]))
        return ('truth', v)

    def branch(self, st, v):
        """-> [(state, bool)] for a value used as a condition"""
        if v[0] == 'nott':
            return [(s, not b) for s, b in self.branch(st, v[1])]
        a = self.truth_atom(st, v)
        if isinstance(a, bool):
            return [(st, a)]
        return self.split(st, a)

    def cond(self, node, st):
        """evaluate an expression as a condition -> [(state, bool)]"""
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            cur = [(st, isand)]
            done = []
            for v in node.values:
                nxt = []
                for s, _ in cur:
                    for s2, b in self.cond(v, s):
                        if b == isand:
                            nxt.append((s2, b))
                        else:
                            done.append((s2, b))
                cur = nxt
            return done + cur
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, not b) for s, b in self.cond(node.operand, st)]
        out = []
        for s, v in self.ev(node, st):
            out.extend(self.branch(s, v))
        return out

    # ---- expressions --------------------------------------------------------------------
    def ev(self, node, st):
        m = getattr(self, 'ev_' + node.__class__.__name__, None)
        if m is None:
            self.stats['unknown_nodes'] += 1
            return [(st, self.unknown(node))]
        return m(node, st)

    def ev_list(self, nodes, st):
        """evaluate several expressions left to right -> [(state, [vals])]"""
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                if isinstance(n, ast.Starred):
                    for s2, v in self.ev(n.value, s):
                        if v[0] == 't':
                            nxt.append((s2, vs + list(v[1])))
                        elif v[0] == 'o' and v[1] in s2.heap and s2.heap[v[1]].exact and s2.heap[v[1]].kind == 'list':
                            nxt.append((s2, vs + list(s2.heap[v[1]].members)))
                        else:
                            nxt.append((s2, vs + [('star', v)]))
                else:
                    for s2, v in self.ev(n, s):
                        nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def ev_Constant(self, node, st):
        return [(st, C(node.value))]

    def ev_JoinedStr(self, node, st):
        parts = [v.value for v in node.values if isinstance(v, ast.FormattedValue)]
        return [(s, ('call', 'format', tuple(vs))) for s, vs in self.ev_list(parts, st)]

    def ev_FormattedValue(self, node, st):
        return self.ev(node.value, st)

    def ev_Name(self, node, st):
        return [(st, self.lookup(node.id, st))]

    def lookup(self, name, st):
        if name in st.env:
            return st.env[name]
        f = self.stack[-1][0] if self.stack else None
        if f is not None:
            m = f.module
            if name in m.functions:
                return ('fn', self.reg(m.functions[name]))
            if name in m.classes:
                return ('cls', name)
            if name in ('unicode',):
                return ('cls', 'str')
            if name == 'long':
                return ('cls', 'int')
            if name in m.imports:
                return self.imported(m, name)
            if name in m.globals:
                g = m.globals[name]
                if isinstance(g, ast.Constant):
                    return C(g.value)
                if isinstance(g, (ast.Tuple, ast.List, ast.Set)) and all(isinstance(e, ast.Constant) for e in g.elts):
                    return ('t', tuple(C(e.value) for e in g.elts))
                return ('p', 'global:' + name)
        if name in ('True', 'False', 'None'):
            return {'True': TRUE, 'False': FALSE, 'None': NONE}[name]
        if hasattr(builtins, name):
            if isinstance(getattr(builtins, name), type):
                return ('cls', name)
            return ('bi', name)
        return ('p', 'free:' + name)

    def imported(self, m, name):
        kind, mod, orig, level = m.imports[name]
        if kind == 'from':
            base = (mod or '').split('.')[-1]
            if base in self.prog.modules:
                tm = self.prog.modules[base]
                if orig in tm.functions:
                    return ('fn', self.reg(tm.functions[orig]))
                if orig in tm.classes:
                    return ('cls', orig)
                return ('p', 'global:' + orig)
            if orig in self.prog.modules:
                return ('mod', orig)
            if orig in self.prog.classes:
                return ('cls', orig)
            return ('ext', '%s.%s' % (mod, orig))
        base = mod.split('.')[-1]
        if base in self.prog.modules:
            return ('mod', base)
        return ('ext', mod)

    def ev_Attribute(self, node, st):
        out = []
        for s, b in self.ev(node.value, st):
            out.extend(self.getattr(s, b, node.attr, node))
        return out

    def class_of(self, st, v):
        if v[0] == 'o':
            h = st.heap.get(v[1])
            if h is not None and h.kind == 'obj':
                return h.cls
            return None
        return self.client.type_of(self, st, v)

    def getattr(self, st, b, attr, node):
        if b[0] == 'o':
            h = st.heap.get(b[1])
            if h is not None and h.kind == 'obj':
                if attr in h.attrs:
                    return [(st, h.attrs[attr])]
                f = self.prog.find_method(h.cls, attr) if h.cls else None
                if f is not None:
                    return [(st, ('bm', b, self.reg(f)))]
                for c in self.prog.mro(h.cls) if h.cls else []:
                    if attr in c.attrs and isinstance(c.attrs[attr], ast.Constant):
                        return [(st, C(c.attrs[attr].value))]
                if attr == '__class__' and h.cls:
                    return [(st, ('cls', h.cls))]
                ga = self.prog.find_method(h.cls, '__getattr__') if h.cls else None
                if ga is not None and b[1] != 'self' and h.cls == 'LoopBlock' and attr not in ('parent_block', 'loop_no'):
                    # LoopBlock forwards everything unknown to its parent block
                    pb = h.attrs.get('parent_block')
                    if pb is not None:
                        return self.getattr(st, pb, attr, node)
                return [(st, ('at', b, attr))]
            return [(st, ('at', b, attr))]
        if b[0] == 'sup':
            f = self.prog.find_method(b[2], attr, after=b[3])
            if f is not None:
                return [(st, ('bm', b[1], self.reg(f)))]
            return [(st, ('at', b, attr))]
        if b[0] == 'mod':
            m = self.prog.modules[b[1]]
            if attr in m.functions:
                return [(st, ('fn', self.reg(m.functions[attr])))]
            if attr in m.classes:
                return [(st, ('cls', attr))]
            return [(st, ('at', b, attr))]
        if b[0] == 'ext':
            return [(st, ('ext', b[1] + '.' + attr))]
        if b[0] == 'cls' and b[1] in self.prog.classes:
            f = self.prog.find_method(b[1], attr)
            if f is not None:
                return [(st, ('fn', self.reg(f)))]
        cls = self.client.type_of(self, st, b)
        if cls and cls in self.prog.classes:
            f = self.prog.find_method(cls, attr)
            if f is not None:
                return [(st, ('bm', b, self.reg(f)))]
        key = ('@', b, attr)
        if key in st.facts:
            return [(st, st.facts[key])]
        if b[0] not in ('p',) or True:
            self.maybe_throw(st, 'AttributeError', 'attr', ('at', b, attr), node)
        return [(st, ('at', b, attr))]

    def ev_Subscript(self, node, st):
        out = []
        for s, b in self.ev(node.value, st):
            if isinstance(node.slice, ast.Slice):
                sl = node.slice
                parts = [x for x in (sl.lower, sl.upper, sl.step) if x is not None]
                for s2, vs in self.ev_list(parts, s):
                    vs = list(vs)
                    lo = vs.pop(0) if sl.lower is not None else None
                    hi = vs.pop(0) if sl.upper is not None else None
                    stp = vs.pop(0) if sl.step is not None else None
                    out.append(self.slice(s2, b, lo, hi, stp, node))
            else:
                for s2, k in self.ev(node.slice, s):
                    out.extend(self.subscript(s2, b, k, node))
        return out

    def slice(self, st, b, lo, hi, stp, node):
        if b[0] == 'c' and all(x is None or is_const(x) for x in (lo, hi, stp)):
            try:
                return st, C(b[1][slice(*(x[1] if x else None for x in (lo, hi, stp)))])
            except Exception:
                return st, self.unknown(node)
        if b[0] == 't' and all(x is None or is_const(x) for x in (lo, hi, stp)):
            try:
                return st, ('t', tuple(b[1][slice(*(x[1] if x else None for x in (lo, hi, stp)))]))
            except Exception:
                pass
        if b[0] == 'o':
            h = st.heap.get(b[1])
            if h is not None and h.kind == 'list' and h.exact and all(x is None or is_const(x) for x in (lo, hi, stp)):
                try:
                    ms = tuple(h.members[slice(*(x[1] if x else None for x in (lo, hi, stp)))])
                    oid = self.fresh(node, 'slice')
                    return st.hset(oid, Heap('list', members=ms)), ('o', oid)
                except Exception:
                    pass
        if lo is None and hi is None and stp is None:
            return self.shallow(st, b, None, node)
        return st, ('slice', b, lo, hi) if stp is None else ('slice', b, lo, hi, stp)

    def shallow(self, st, X, kind, node):
        """shallow copy as a fresh heap container"""
        if X[0] == 'c':
            if X[2] == 'str' and kind in ('list', 'set'):
                oid = self.fresh(node, 'copy')
                ms = tuple(C(c) for c in X[1])
                if kind == 'set':
                    ms = tuple(sorted(set(ms)))
                return st.hset(oid, Heap(kind, members=ms)), ('o', oid)
            return st, X
        if X[0] == 't':
            if kind in (None, 'tuple'):
                return st, X
            oid = self.fresh(node, 'copy')
            ms = X[1]
            if kind == 'dict':
                if all(m[0] == 't' and len(m[1]) == 2 for m in ms):
                    return st.hset(oid, Heap('dict', members=tuple((m[1][0], m[1][1]) for m in ms))), ('o', oid)
                return st.hset(oid, Heap('dict', exact=False)), ('o', oid)
            if kind == 'set':
                ms = tuple(sorted(set(ms), key=repr))
            return st.hset(oid, Heap(kind, members=ms)), ('o', oid)
        if X[0] == 'o':
            h = st.heap.get(X[1])
            if h is not None and h.kind in ('list', 'set', 'dict'):
                oid = self.fresh(node, 'copy')
                if kind in (None, h.kind):
                    return st.hset(oid, h.with_()), ('o', oid)
                if h.kind == 'dict' and kind in ('list', 'set'):
                    ms = tuple(k for k, _ in h.members)
                    return st.hset(oid, Heap(kind, members=ms, exact=h.exact, origin=h.origin)), ('o', oid)
                if kind == 'dict':
                    if h.exact and all(m[0] == 't' and len(m[1]) == 2 for m in h.members):
                        return st.hset(oid, Heap('dict', members=tuple((m[1][0], m[1][1]) for m in h.members))), ('o', oid)
                    ms = tuple((m[1][0], m[1][1]) for m in h.members if m[0] == 't' and len(m[1]) == 2)
                    return st.hset(oid, Heap('dict', members=ms, exact=False)), ('o', oid)
                ms = h.members
                if kind == 'set':
                    ms = tuple(sorted(set(ms), key=repr))
                return st.hset(oid, Heap(kind, members=ms, exact=h.exact, origin=h.origin)), ('o', oid)
            if h is not None and h.kind == 'obj' and kind is None:
                return st, ('call', 'copy', (X,))
        oid = self.fresh(node, 'copy')
        if X[0] == 'comp':
            elt = X[1]
            if kind == 'dict':
                ms = ((elt[1][0], elt[1][1]),) if elt[0] == 't' and len(elt[1]) == 2 else ()
                return st.hset(oid, Heap('dict', members=ms, exact=False, origin=None if ms else X,
                                         attrs={'#conds': X[3]})), ('o', oid)
            return st.hset(oid, Heap(kind or 'list', members=(elt,) if elt[0] != 'el' or X[3] else (), exact=False,
                                     origin=X)), ('o', oid)
        if X[0] in ('items',) and kind == 'dict':
            return st.hset(oid, Heap('dict', exact=False, origin=X[1])), ('o', oid)
        if X[0] == 'keys':
            X = X[1]
        return st.hset(oid, Heap(kind or 'list', exact=False, origin=X)), ('o', oid)

    def subscript(self, st, b, k, node):
        cls = self.class_of(st, b)
        if cls and cls in self.prog.classes:
            f = self.prog.find_method(cls, '__getitem__')
            if f is not None:
                return self.call_func(st, f, b, [k], {}, node)
        if b[0] == 'c' and is_const(k):
            try:
                return [(st, C(b[1][k[1]]))]
            except Exception:
                self.throw(st, 'IndexError', node, implicit=True)
                return []
        if b[0] == 't' and is_const(k) and isinstance(k[1], int):
            try:
                return [(st, b[1][k[1]])]
            except IndexError:
                self.throw(st, 'IndexError', node, implicit=True)
                return []
        if b[0] == 'o':
            h = st.heap.get(b[1])
            if h is not None and h.kind == 'list':
                if h.exact and is_const(k) and isinstance(k[1], int):
                    try:
                        return [(st, h.members[k[1]])]
                    except IndexError:
                        self.throw(st, 'IndexError', node, implicit=True)
                        return []
                if not h.exact and len(h.members) == 1 and h.origin is None:
                    return [(st, h.members[0])]
                if h.origin is not None:
                    X = h.origin
                    if X[0] == 'comp':
                        return [(st, self.pick(X))]
                    return [(st, ('el', X))]
            if h is not None and h.kind == 'dict':
                for kk, vv in reversed(h.members):
                    if kk == k:
                        return [(st, vv)]
                if h.exact and is_const(k) and all(is_const(kk) for kk, _ in h.members):
                    self.maybe_throw(st, 'KeyError', 'key', ('ix', b, k), node)
                    return []
                if h.origin is not None:
                    b = h.origin
                elif h.members and not h.exact:
                    self.maybe_throw(st, 'KeyError', 'key', ('ix', b, k), node)
                    return [(st, vv) for _, vv in h.members]
        if b[0] == 'comp' and is_const(k) and isinstance(k[1], int):
            if self.decide(st, ('nonempty', b)) is not True:
                self.maybe_throw(st, 'IndexError', 'key', ('ix', b, k), node)
            return [(st, self.pick(b))]
        intkey = is_const(k) and isinstance(k[1], int)
        if intkey:
            self.maybe_throw(st, 'IndexError', 'key', ('ix', b, k), node)
        else:
            atom = ('in', k, self.strip_view(st, b))
            known = self.decide(st, atom)
            if known is not True:
                sF = self.learn(st, atom, False)
                if sF is not None:
                    self.maybe_throw(sF, 'KeyError', 'key', ('ix', b, k), node)
                if known is False:
                    if self.caught_somewhere('KeyError'):
                        return []
                elif self.client.tracked(atom[2]):
                    st = self.learn(st, atom, True)
                    if st is None:
                        return []
        key = ('#', b, k)
        if key in st.facts:
            return [(st, st.facts[key])]
        return [(st, ('ix', b, k))]

    def pick(self, comp):
        """one particular element of a filtered comprehension"""
        if not comp[3]:
            return comp[1]
        return ('pick', comp[1], comp)

    def ev_Tuple(self, node, st):
        return [(s, ('t', tuple(vs))) for s, vs in self.ev_list(node.elts, st)]

    def ev_List(self, node, st):
        out = []
        for s, vs in self.ev_list(node.elts, st):
            oid = self.fresh(node)
            if any(v[0] == 'star' for v in vs):
                out.append((s.hset(oid, Heap('list', members=tuple(('el', v[1]) if v[0] == 'star' else v for v in vs), exact=False)), ('o', oid)))
            else:
                out.append((s.hset(oid, Heap('list', members=tuple(vs))), ('o', oid)))
        return out

    def ev_Set(self, node, st):
        out = []
        for s, vs in self.ev_list(node.elts, st):
            oid = self.fresh(node)
            out.append((s.hset(oid, Heap('set', members=tuple(sorted(set(vs), key=repr)))), ('o', oid)))
        return out

    def ev_Dict(self, node, st):
        out = []
        ks = [k for k in node.keys if k is not None]
        exact = len(ks) == len(node.keys)
        pairs = [(k, v) for k, v in zip(node.keys, node.values) if k is not None]
        flat = [x for p in pairs for x in p]
        for s, vs in self.ev_list(flat, st):
            oid = self.fresh(node)
            ms = tuple((vs[i], vs[i + 1]) for i in range(0, len(vs), 2))
            out.append((s.hset(oid, Heap('dict', members=ms, exact=exact)), ('o', oid)))
        return out

    def ev_BoolOp(self, node, st):
        isand = isinstance(node.op, ast.And)
        cur, out = [st], []
        for i, v in enumerate(node.values):
            last = i == len(node.values) - 1
            nxt = []
            for s in cur:
                for s2, val in self.ev(v, s):
                    if last:
                        out.append((s2, val))
                        continue
                    for s3, b in self.branch(s2, val):
                        if b == isand:
                            nxt.append(s3)
                        else:
                            out.append((s3, val if val[0] not in ('atom', 'nott') else C(b)))
            cur = self.dedup(nxt)
        return out

    def ev_UnaryOp(self, node, st):
        out = []
        if isinstance(node.op, ast.Not):
            for s, v in self.ev(node.operand, st):
                a = self.truth_atom(s, v) if v[0] != 'nott' else None
                if isinstance(a, bool):
                    out.append((s, C(not a)))
                elif v[0] == 'nott':
                    out.append((s, v[1]))
                else:
                    out.append((s, ('nott', v)))
            return out
        for s, v in self.ev(node.operand, st):
            if is_const(v) and isinstance(v[1], (int, float)):
                v2 = {'USub': lambda x: -x, 'UAdd': lambda x: +x, 'Invert': lambda x: ~x}[node.op.__class__.__name__]
                try:
                    out.append((s, C(v2(v[1]))))
                    continue
                except Exception:
                    pass
            out.append((s, ('bop', node.op.__class__.__name__, v, NONE)))
        return out

    def ev_BinOp(self, node, st):
        out = []
        op = node.op.__class__.__name__
        for s, (l, r) in self.ev_list([node.left, node.right], st):
            out.append(self.binop(s, op, l, r, node))
        return out

    def binop(self, s, op, l, r, node):
        if is_const(l) and is_const(r):
            try:
                f = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mult': lambda a, b: a * b,
                     'Mod': lambda a, b: a % b, 'FloorDiv': lambda a, b: a // b}[op]
                return s, C(f(l[1], r[1]))
            except Exception:
                pass
        if op == 'Add':
            def seq(v):
                if v[0] == 't':
                    return v[1]
                if v[0] == 'o' and v[1] in s.heap and s.heap[v[1]].kind == 'list' and s.heap[v[1]].exact:
                    return s.heap[v[1]].members
                return None
            a, b = seq(l), seq(r)
            if a is not None and b is not None:
                if l[0] == 't':
                    return s, ('t', tuple(a) + tuple(b))
                oid = self.fresh(node)
                return s.hset(oid, Heap('list', members=tuple(a) + tuple(b))), ('o', oid)
            if l[0] == 'o' or r[0] == 'o':
                ha = s.heap.get(l[1]) if l[0] == 'o' else None
                hb = s.heap.get(r[1]) if r[0] == 'o' else None
                if (ha is not None and ha.kind == 'list') or (hb is not None and hb.kind == 'list'):
                    ms = []
                    for v, h in ((l, ha), (r, hb)):
                        if h is not None and h.kind == 'list':
                            ms.extend(h.members)
                            if h.origin is not None and not h.members:
                                ms.append(('el', h.origin))
                        else:
                            ms.append(('el', v))
                    oid = self.fresh(node)
                    return s.hset(oid, Heap('list', members=tuple(dict.fromkeys(ms)), exact=False)), ('o', oid)
        if op == 'Sub':
            # set difference on known sets
            ha = s.heap.get(l[1]) if l[0] == 'o' else None
            hb = s.heap.get(r[1]) if r[0] == 'o' else None
            if ha is not None and hb is not None and ha.kind == 'set' and hb.kind in ('set',) and ha.exact and hb.exact:
                oid = self.fresh(node)
                return s.hset(oid, Heap('set', members=tuple(m for m in ha.members if m not in hb.members))), ('o', oid)
        if op in ('BitAnd', 'BitOr'):
            ha = s.heap.get(l[1]) if l[0] == 'o' else None
            hb = s.heap.get(r[1]) if r[0] == 'o' else None
            if ha is not None and hb is not None and ha.kind == 'set' and hb.kind == 'set' and ha.exact and hb.exact:
                oid = self.fresh(node)
                if op == 'BitAnd':
                    ms = tuple(m for m in ha.members if m in hb.members)
                else:
                    ms = tuple(sorted(set(ha.members) | set(hb.members), key=repr))
                return s.hset(oid, Heap('set', members=ms)), ('o', oid)
        return s, ('bop', op, l, r)

    def ev_Compare(self, node, st):
        out = []
        if len(node.ops) > 1:
            # a < b < c  -> and of pairs (no side effects assumed in the middle operand)
            parts = []
            left = node.left
            for o, c in zip(node.ops, node.comparators):
                n = ast.Compare(left=left, ops=[o], comparators=[c])
                ast.copy_location(n, node)
                parts.append(n)
                left = c
            b = ast.BoolOp(op=ast.And(), values=parts)
            ast.copy_location(b, node)
            return [(s, C(v)) for s, v in self.cond(b, st)]
        for s, (l, r) in self.ev_list([node.left, node.comparators[0]], st):
            out.extend(self.compare(s, node.ops[0], l, r, node))
        return out

    def compare(self, st, op, l, r, node):
        o = op.__class__.__name__

        def res(atom, neg):
            d = self.decide(st, atom)
            if d is not None:
                return [(st, C(d != neg))]
            return [(st, ('nott', ('atom', atom)) if neg else ('atom', atom))]
        if o in ('In', 'NotIn'):
            cls = self.class_of(st, r)
            if cls and cls in self.prog.classes:
                f = self.prog.find_method(cls, '__contains__')
                if f is not None:
                    rs = self.call_func(st, f, r, [l], {}, node)
                    if o == 'In':
                        return rs
                    return [(s, ('nott', v) if v[0] != 'c' else C(not v[1])) for s, v in rs]
            X = self.strip_view(st, r)
            if X[0] == 'o' and X[1] in st.heap and st.heap[X[1]].kind in ('list', 'set', 'dict'):
                h = st.heap[X[1]]
                ms = [m[0] for m in h.members] if h.kind == 'dict' else list(h.members)
                if h.exact and all(is_const(m) for m in ms):
                    X = ('t', tuple(sorted(ms, key=repr)))
            return res(('in', l, X), o == 'NotIn')
        if o in ('Eq', 'NotEq', 'Is', 'IsNot'):
            neg = o in ('NotEq', 'IsNot')
            if o in ('Is', 'IsNot') and r in (TRUE, FALSE):
                pass
            # len(x)==0
            for a, b in ((l, r), (r, l)):
                if a[0] == 'len' and is_const(b) and b[1] == 0 and b[2] == 'int':
                    return res(('nonempty', self.strip_view(st, a[1])), not neg)
            # == '' or == []
            if is_str(r) and r[1] == '' and l[0] not in ('c',):
                return res(('truth', l), not neg)
            if is_const(l) and not is_const(r):
                l, r = r, l
            return res(('eq', l, r), neg)
        if o in ('Lt', 'LtE', 'Gt', 'GtE'):
            if l[0] == 'len' and is_const(r) or r[0] == 'len' and is_const(l):
                flip = r[0] == 'len'
                a, b, oo = (r, l, {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}[o]) if flip else (l, r, o)
                n = b[1]
                X = self.strip_view(st, a[1])
                if (oo, n) in (('Gt', 0), ('GtE', 1)):
                    return res(('nonempty', X), False)
                if (oo, n) in (('Lt', 1), ('LtE', 0)):
                    return res(('nonempty', X), True)
                if oo == 'Gt':
                    return res(('lt', C(n), ('len', X)), False)
                if oo == 'LtE':
                    return res(('lt', C(n), ('len', X)), True)
                if oo == 'GtE':
                    return res(('lt', C(n - 1), ('len', X)), False)
                if oo == 'Lt':
                    return res(('lt', C(n - 1), ('len', X)), True)
            if o == 'Lt':
                return res(('lt', l, r), False)
            if o == 'Gt':
                return res(('lt', r, l), False)
            if o == 'LtE':
                return res(('lt', r, l), True)
            return res(('lt', l, r), True)
        return [(st, self.unknown(node))]

    def ev_IfExp(self, node, st):
        out = []
        for s, b in self.cond(node.test, st):
            out.extend(self.ev(node.body if b else node.orelse, s))
        return out

    def ev_Lambda(self, node, st):
        return [(st, ('fn', self.reg(LambdaFunc(self.func().module, self.func().cls, node), dict(st.env))))]

    def ev_NamedExpr(self, node, st):
        return [(s.bind(node.target.id, v), v) for s, v in self.ev(node.value, st)]

    def ev_Starred(self, node, st):
        return self.ev(node.value, st)

    def ev_Yield(self, node, st):
        if node.value is None:
            return [(st, NONE)]
        out = []
        for s, v in self.ev(node.value, st):
            cl = self.client.call(self, s, 'yield', None, [v], {}, node)
            out.append((s.copy(cl=cl), NONE))
        return out

    ev_YieldFrom = ev_Yield

    def ev_Await(self, node, st):
        return self.ev(node.value, st)

    # comprehensions ---------------------------------------------------------------------
    def ev_ListComp(self, node, st):
        return self.comp(node, st, 'list')

    def ev_SetComp(self, node, st):
        return self.comp(node, st, 'set')

    def ev_GeneratorExp(self, node, st):
        return self.comp(node, st, 'gen')

    def ev_DictComp(self, node, st):
        return self.comp(node, st, 'dict')

    def comp(self, node, st, kind):
        """Comprehension: exact when every iterable is known, else one generic element."""
        saved_env = st.env
        results = []      # (state, [element values], exact, generic term)

        def rec(i, s, acc):
            """acc: (exact, elts list, generic list)"""
            if i == len(node.generators):
                outs = []
                if kind == 'dict':
                    for s2, (k, v) in self.ev_list([node.key, node.value], s):
                        outs.append((s2, ('t', (k, v))))
                else:
                    outs = self.ev(node.elt, s)
                return [(s2, [v], True) for s2, v in outs]
            g = node.generators[i]
            res = []
            for s1, X in self.ev(g.iter, s):
                kindx, elems = self.elements(s1, X, g.iter)
                if kindx == 'exact':
                    cur = [(s1, [], True)]
                    for e in elems:
                        nxt = []
                        for s2, acc2, ex in cur:
                            for s3 in self.assign_target(g.target, e, s2):
                                states = [(s3, True)]
                                for c in g.ifs:
                                    states = [(s5, b) for s4, ok in states for s5, b in (self.cond(c, s4) if ok else [(s4, False)])]
                                for s4, ok in states:
                                    if not ok:
                                        nxt.append((s4, acc2, ex))
                                    else:
                                        for s5, vals, ex2 in rec(i + 1, s4, None):
                                            nxt.append((s5, acc2 + vals, ex and ex2))
                        cur = self.dedup_acc(nxt)
                    res.extend(cur)
                else:
                    el = elems
                    base = self.strip_view(s1, X)
                    inherited = base[3] if base[0] == 'comp' else ()
                    s0 = self.known_of(s1, base)
                    if s0 is None:
                        continue
                    pushed = []
                    leafs = el_leafs(el)
                    hit = False
                    outs_false = []
                    for s3 in self.assign_target(g.target, el, s0):
                        pre = s3.facts
                        states = [(s3, True)]
                        self._logging += 1
                        for c in g.ifs:
                            states = [(s5, b) for s4, ok in states for s5, b in (self.cond(c, s4) if ok else [(s4, False)])]
                        self._logging -= 1
                        for s4, ok in states:
                            if ok:
                                hit = True
                                conds = tuple(sorted(((a[1] if a[0] == 'log' else a, v) for a, v in s4.facts.items()
                                                      if a not in pre and any(mentions(a, l) for l in leafs)), key=repr))
                                conds += tuple(c for c in inherited if c not in conds)
                                s4 = s4.copy(facts={a: v for a, v in s4.facts.items() if a[0] != 'log'})
                                for s5, vals, ex2 in rec(i + 1, s4, None):
                                    pushed.append((s5, [('gen', v, base, conds) for v in vals], False))
                            else:
                                outs_false.append((s4, [], False))
                    # the generic element may or may not exist; facts about it do not survive
                    if self.pure(node):
                        # no effects: one joined result
                        conds_sets = [x for _, vs, _ in pushed for x in vs]
                        # every element went through: what holds for all of them is known afterwards
                        every = [x[0] for x in pushed + outs_false]
                        sJ = s1
                        if every and len({x.cl for x in every}) == 1:
                            sJ = s1.copy(cl=every[0].cl)
                        res.append((sJ, list(dict.fromkeys(conds_sets)), not conds_sets))
                    else:
                        ne = ('nonempty', base)
                        if self.decide(s1, ne) is not True:
                            sF = self.learn(s1, ne, False)
                            if sF is not None:
                                res.append((sF, [], False))
                        for s5, vals, ex in pushed:
                            res.append((self.drop_el(s5, el), vals, False))
                        for s5, vals, ex in outs_false:
                            if True:
                                res.append((self.drop_el(s5, el), vals, False))
            return res

        for s, vals, exact in rec(0, st, None):
            s = s.copy(env=saved_env)
            results.append(self.build(s, kind, vals, exact, node))
        # pure comprehension: collapse identical
        seen, out = set(), []
        for s, v in results:
            k = (s.key(), v)
            if k not in seen:
                seen.add(k)
                out.append((s, v))
        return out

    def known_of(self, st, base):
        """an element of a filtered collection satisfies the filter"""
        if base[0] == 'comp':
            for a, v in base[3]:
                if st is not None and self.decide(st, a) is None and not self.client.owns(self, st, a):
                    st = self.learn(st, a, v)
        return st

    def drop_el(self, st, el):
        leafs = set()

        def collect(t):
            if isinstance(t, tuple) and t:
                if t[0] == 'el':
                    leafs.add(t)
                else:
                    for x in t:
                        collect(x)
        collect(el)
        for l in leafs:
            st = st.kill(l)
        return st

    def dedup_acc(self, items):
        seen, out = set(), []
        for s, acc, ex in items:
            k = (s.key(), tuple(acc), ex)
            if k not in seen:
                seen.add(k)
                out.append((s, acc, ex))
        return out

    def pure(self, node):
        """No calls other than well-known pure ones inside."""
        for n in ast.walk(node):
            if isinstance(n, ast.Call):
                f = n.func
                nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
                if nm not in PURE:
                    return False
        return True

    def build(self, st, kind, vals, exact, node):
        if exact:
            if kind == 'dict':
                ms = tuple((v[1][0], v[1][1]) for v in vals)
                h = Heap('dict', members=ms)
            elif kind == 'set':
                h = Heap('set', members=tuple(sorted(set(vals), key=repr)))
            else:
                h = Heap('list', members=tuple(vals))
            oid = self.fresh(node)
            return st.hset(oid, h), ('o', oid)
        gens = list(dict.fromkeys(vals))
        if len(gens) == 1 and gens[0][0] == 'gen':
            _, elt, base, conds = gens[0]
            t = ('comp', elt, base, conds)
            if kind == 'gen':
                return st, t
            if kind == 'dict' and elt[0] == 't':
                oid = self.fresh(node)
                return st.hset(oid, Heap('dict', members=((elt[1][0], elt[1][1]),), exact=False,
                                         attrs={'#conds': conds})), ('o', oid)
            if kind == 'set':
                oid = self.fresh(node)
                return st.hset(oid, Heap('set', exact=False, origin=t)), ('o', oid)
            return st, t
        flat = tuple(dict.fromkeys(g[1] if g[0] == 'gen' else g for g in gens))
        oid = self.fresh(node)
        if kind == 'dict':
            ms = tuple((v[1][0], v[1][1]) for v in flat if v[0] == 't')
            return st.hset(oid, Heap('dict', members=ms, exact=False)), ('o', oid)
        return st.hset(oid, Heap('set' if kind == 'set' else 'list', members=flat, exact=False)), ('o', oid)

    # iteration ---------------------------------------------------------------------------
    def elements(self, st, X, node):
        """-> ('exact', [terms]) or ('generic', element term)"""
        if X[0] == 'c' and isinstance(X[1], (str, tuple, list)):
            if len(X[1]) <= 80:
                return 'exact', [C(x) for x in X[1]]
            return 'generic', ('el', X)
        if X[0] == 't':
            return 'exact', list(X[1])
        if X[0] == 'o':
            h = st.heap.get(X[1])
            if h is not None and h.kind in ('list', 'set') and h.exact and len(h.members) <= 80:
                return 'exact', list(h.members)
            if h is not None and h.kind == 'dict' and h.exact and len(h.members) <= 80:
                return 'exact', [k for k, _ in h.members]
            if h is not None and h.kind in ('list', 'set', 'dict'):
                if h.members and h.origin is None:
                    ms = [k for k, _ in h.members] if h.kind == 'dict' else list(h.members)
                    if len(ms) == 1:
                        return 'generic', ms[0]
                    return 'generic', ('el', ('t', tuple(ms)))
                if h.origin is not None:
                    return self.elements(st, h.origin, node)
        if X[0] == 'comp':
            return 'generic', X[1]
        if X[0] in ('keys', 'lst', 'rev'):
            return self.elements(st, X[1], node)
        if X[0] == 'values':
            b = X[1]
            if b[0] == 'o' and b[1] in st.heap and st.heap[b[1]].kind == 'dict':
                h = st.heap[b[1]]
                if h.exact:
                    return 'exact', [v for _, v in h.members]
                if h.origin is not None:
                    b = h.origin
                elif len(h.members) == 1:
                    return 'generic', h.members[0][1]
            return 'generic', ('ix', b, ('el', b))
        if X[0] == 'items':
            b = X[1]
            if b[0] == 'o' and b[1] in st.heap and st.heap[b[1]].kind == 'dict':
                h = st.heap[b[1]]
                if h.exact:
                    return 'exact', [('t', (k, v)) for k, v in h.members]
                if h.origin is not None:
                    b = h.origin
                elif len(h.members) == 1:
                    return 'generic', ('t', h.members[0])
            return 'generic', ('t', (('el', b), ('ix', b, ('el', b))))
        if X[0] == 'zip':
            parts = [self.elements(st, x, node) for x in X[1]]
            if parts and all(k == 'exact' for k, _ in parts):
                return 'exact', [('t', tuple(p)) for p in zip(*[e for _, e in parts])]
            els = []
            for (k, e), x in zip(parts, X[1]):
                els.append(e if k == 'generic' else ('el', x))
            return 'generic', ('t', tuple(els))
        if X[0] == 'enum':
            k, e = self.elements(st, X[1], node)
            if k == 'exact':
                return 'exact', [('t', (C(i), x)) for i, x in enumerate(e)]
            return 'generic', ('t', (('el', ('range', X[1])), e))
        if X[0] == 'slice':
            k, e = self.elements(st, X[1], node)
            return 'generic', e if k == 'generic' else ('el', X[1])
        if X[0] == 'cat':
            return 'generic', ('el', X)
        return 'generic', ('el', X)

    # calls -----------------------------------------------------------------------------------
    def ev_Call(self, node, st):
        out = []
        f = node.func
        # super()
        if isinstance(f, ast.Name) and f.id == 'super' and 'super' not in st.env:
            selfv = None
            clsname = None
            fn = self.func()
            if fn.cls is not None and fn.params():
                selfv = st.env.get(fn.params()[0])
                clsname = fn.cls.name
            if node.args and isinstance(node.args[0], ast.Name):
                clsname = node.args[0].id
                if len(node.args) > 1:
                    r = self.ev(node.args[1], st)
                    selfv = r[0][1]
            objcls = self.class_of(st, selfv) if selfv else clsname
            return [(st, ('sup', selfv, objcls or clsname, clsname))]
        self.stats['calls'] += 1
        if isinstance(f, ast.Attribute):
            # receiver first
            for s, recv in self.ev(f.value, st):
                for s2, args, kw in self.args(node, s):
                    out.extend(self.call_method(s2, recv, f.attr, args, kw, node))
            return self.dedup_v(out)
        for s, fv in self.ev(f, st):
            for s2, args, kw in self.args(node, s):
                out.extend(self.call_value(s2, fv, args, kw, node))
        return self.dedup_v(out)

    def dedup_v(self, items):
        if len(items) <= 1:
            return items
        seen, out = set(), []
        for s, v in items:
            k = (s.key(), v)
            if k not in seen:
                seen.add(k)
                out.append((s, v))
        if len(out) > MAX_STATES:
            groups = {}
            for s, v in out:
                groups.setdefault(v, []).append(s)
            out = [(s, v) for v, ss in groups.items() for s in (self.merge(ss) if len(ss) > 20 else ss)]
            if len(out) > MAX_STATES:
                self.widened += 1
                ss = self.merge([s for s, _ in out])
                out = [(s, ('un', 'merged')) for s in ss]
        return out

    def args(self, node, st):
        res = []
        names = [k.arg for k in node.keywords]
        for s, vs in self.ev_list(list(node.args) + [k.value for k in node.keywords], st):
            # ev_list expands starred; keywords are the tail
            nk = len(names)
            pos = vs[:len(vs) - nk] if nk else vs
            kws = vs[len(vs) - nk:] if nk else []
            kw = {}
            for n, v in zip(names, kws):
                if n is None:
                    if v[0] == 'o' and v[1] in s.heap and s.heap[v[1]].kind == 'dict':
                        for kk, vv in s.heap[v[1]].members:
                            if is_str(kk):
                                kw[kk[1]] = vv
                        if not s.heap[v[1]].exact:
                            kw['**'] = v
                    else:
                        kw['**'] = v
                else:
                    kw[n] = v
            res.append((s, list(pos), kw))
        return res

    def call_value(self, st, fv, args, kw, node):
        k = fv[0]
        if k == 'fn':
            f, env = self.funcs[fv[1]]
            return self.call_func(st, f, None, args, kw, node, env)
        if k == 'bm':
            f, env = self.funcs[fv[2]]
            return self.call_func(st, f, fv[1], args, kw, node)
        if k == 'bi':
            return self.call_builtin(st, fv[1], args, kw, node)
        if k == 'cls':
            return self.construct(st, fv[1], args, kw, node)
        if k == 'ext':
            return self.call_ext(st, fv[1], args, kw, node)
        if k == 'at' and fv[1][0] == 'o' or k == 'at':
            return self.opaque(st, fv, None, args, kw, node)
        return self.opaque(st, fv, None, args, kw, node)

    def call_ext(self, st, name, args, kw, node):
        tail = name.split('.')[-1]
        if tail == 'deepcopy' and args:
            return [(st, ('deep', args[0]))]
        if tail == 'copy' and args and name.startswith('copy'):
            s, v = self.shallow(st, args[0], None, node)
            return [(s, v)]
        return self.opaque(st, ('ext', name), None, args, kw, node)

    def opaque(self, st, fv, recv, args, kw, node):
        self.stats['opaque'] += 1
        name = fv if isinstance(fv, str) else (show(fv) if fv[0] != 'ext' else fv[1])
        cl = self.client.call(self, st, fv, recv, args, kw, node)
        st = st.copy(cl=cl)
        for e in self.client.opaque_raises(self, st, fv, node):
            self.throw(st, e, node)
        if any(True for _ in self.handlers):
            for e in self.all_handler_names():
                self.maybe_throw(st, e, 'call', fv if not isinstance(fv, str) else ('p', fv), node)
        alla = tuple(args) + tuple(kw[k] for k in sorted(kw))
        if recv is not None:
            alla = (recv,) + alla
        return [(st, self.limit(('call', fv if isinstance(fv, str) else fv, alla), node))]

    def limit(self, t, node):
        if term_depth(t) > 14:
            return self.unknown(node)
        return t

    def all_handler_names(self):
        if not self.handlers:
            return []
        res = []
        for h in self.handlers[-1]:
            if h is None:
                res.append('*')
            else:
                res.extend(sorted(h))
        return list(dict.fromkeys(res))[:3]

    def construct(self, st, cname, args, kw, node):
        if cname in self.prog.classes:
            bases = self.prog.base_names(cname)
            if bases & {'Exception', 'AttributeError', 'BaseException', 'KeyError', 'ValueError'}:
                return [(st, ('exc', cname))]
            oid = self.fresh(node, 'new')
            kind = 'obj'
            h = Heap('obj', cls=cname)
            st2 = st.hset(oid, h)
            o = ('o', oid)
            r = self.client.intrinsic(self, st2, ('new', cname), o, args, kw, node)
            if r is not None:
                return r
            f = self.prog.find_method(cname, '__init__')
            if f is None:
                if 'list' in bases or 'dict' in bases:
                    base = 'list' if 'list' in bases else 'dict'
                    if args:
                        s, v = self.shallow(st, args[0], base, node)
                        return [(s, v)]
                    return [(st.hset(oid, Heap(base)), o)]
                return [(st2, o)]
            return [(s, o) for s, _ in self.call_func(st2, f, o, args, kw, node)]
        return self.call_builtin(st, cname, args, kw, node)

    def bind_args(self, st, f, recv, args, kw, node, env0):
        """-> State with callee environment, or None when arguments do not fit"""
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        vals = ([recv] if recv is not None else []) + list(args)
        env = dict(env0 or {})
        defaults = a.defaults
        dmap = {}
        for p, d in zip(params[len(params) - len(defaults):], defaults):
            dmap[p] = d
        star = None
        if any(v[0] == 'star' for v in vals):
            i = [v[0] for v in vals].index('star')
            star = vals[i]
            vals = vals[:i]
        extra = vals[len(params):]
        for p, v in zip(params, vals):
            env[p] = v
        rest = params[len(vals):]
        kw = dict(kw)
        starstar = kw.pop('**', None)
        for p in rest:
            if p in kw:
                env[p] = kw.pop(p)
            elif star is not None:
                env[p] = ('el', star[1])
            elif p in dmap:
                env[p] = self.default(dmap[p], f)
                if env[p][0] == 'mutdef':
                    oid = self.fresh(dmap[p], 'default')
                    st = st.hset(oid, Heap(env[p][1]))
                    env[p] = ('o', oid)
            elif starstar is not None:
                env[p] = ('ix', starstar, C(p))
            else:
                env[p] = ('un', 'missing:' + p)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif d is not None:
                env[x.arg] = self.default(d, f)
            else:
                env[x.arg] = ('un', 'missing:' + x.arg)
        if a.vararg:
            env[a.vararg.arg] = star[1] if star is not None and not extra else ('t', tuple(extra))
        if a.kwarg:
            oid = self.fresh(f.node, 'kw' + str(id(node)))
            st = st.hset(oid, Heap('dict', members=tuple((C(k), v) for k, v in kw.items()), exact=starstar is None,
                                   origin=starstar))
            env[a.kwarg.arg] = ('o', oid)
        return st.copy(env=env)

    def default(self, d, f):
        if isinstance(d, ast.Constant):
            return C(d.value)
        if isinstance(d, ast.UnaryOp) and isinstance(d.op, ast.USub) and isinstance(d.operand, ast.Constant):
            return C(-d.operand.value)
        if isinstance(d, ast.Tuple) and not d.elts:
            return ('t', ())
        if isinstance(d, ast.List) and not d.elts:
            return ('mutdef', 'list')
        if isinstance(d, ast.Dict) and not d.keys:
            return ('mutdef', 'dict')
        if isinstance(d, ast.Name):
            if d.id in f.module.classes:
                return ('cls', d.id)
            if d.id in f.module.functions:
                return ('fn', self.reg(f.module.functions[d.id]))
        return ('p', 'default:' + ast.unparse(d))

    def call_func(self, st, f, recv, args, kw, node, closure=None):
        r = self.client.intrinsic(self, st, f, recv, args, kw, node)
        if r is not None:
            return r
        depth = len(self.stack)
        # staticmethod / property decorators
        decos = [d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '') for d in getattr(f.node, 'decorator_list', [])]
        if 'staticmethod' in decos:
            recv = None
        if depth >= self.max_depth or any(g is f or g.node is f.node for g, _ in self.stack) \
                or not self.client.inline(self, f, depth) or isinstance(f.node, ast.AsyncFunctionDef):
            return self.opaque(st, 'repo:' + f.qual, recv, args, kw, node)
        isgen = _is_generator(f.node)
        self.stats['inlined'] += 1
        self.analysed.add(f.qual)
        caller_env = st.env
        s0 = self.bind_args(st, f, recv, args, kw, node, closure)
        mark, sink = len(self.sink), self.sink
        self.stack.append((f, node))
        try:
            if isinstance(f.node, ast.Lambda):
                res = self.ev(f.node.body, s0)
            else:
                out = self.block(f.node.body, [s0])
                res = [(s, NONE) for s in out.normal] + out.ret
                if isgen:
                    res = [(s, ('call', 'gen:' + f.qual, tuple(args))) for s, _ in res]
        finally:
            self.stack.pop()
        if self.sink is sink and len(sink) > mark:
            seen, tail = set(), []
            for s, exc, where in sink[mark:]:
                s = self.leave(s, caller_env, None)
                k = (s.key(), exc, where)
                if k not in seen:
                    seen.add(k)
                    tail.append((s, exc, where))
            sink[mark:] = tail
        out = self.dedup_v([(self.leave(s, caller_env, v), v) for s, v in res])
        if len(out) > FRAME_STATES:
            groups = {}
            for s, v in out:
                k = (v, frozenset((a, b.key()) for a, b in s.heap.items()), s.cl, s.exc)
                g = groups.get(k)
                groups[k] = (s, v) if g is None else (
                    g[0].copy(facts={a: x for a, x in g[0].facts.items() if s.facts.get(a) == x}), v)
            out = list(groups.values())
        return out

    def leave(self, s, env, val):
        """State after a callee frame: its facts about opaque intermediate results are forgotten."""
        facts = {a: v for a, v in s.facts.items() if not opaque_term(a) or self.client.keep(a)}
        if len(facts) != len(s.facts):
            live = set()
            for v in env.values():
                opaque_leaves(v, live)
            if val is not None:
                opaque_leaves(val, live)
            if live:
                for a, v in s.facts.items():
                    if a not in facts and any(mentions(a, x) for x in live):
                        facts[a] = v
        heap = s.heap
        depth = len(self.stack)
        temp = {o for o in heap if self.oid_depth.get(o, 0) > depth}
        if temp:
            live, todo = set(), []

            def visit(t):
                if isinstance(t, tuple):
                    if len(t) == 2 and t[0] == 'o':
                        if t[1] in temp and t[1] not in live:
                            live.add(t[1])
                            todo.append(t[1])
                        return
                    for x in t:
                        if isinstance(x, tuple):
                            visit(x)
            if val is not None:
                visit(val)
            for o, h in heap.items():
                if o not in temp:
                    visit(h.members)
                    for v in h.attrs.values():
                        visit(v)
                    if h.origin is not None:
                        visit(h.origin)
            for t in self.client.roots(s.cl):
                visit(t)
            for a, v in facts.items():
                if a[0] in ('@', '#'):
                    visit(a)
                    visit(v)
            while todo:
                h = heap[todo.pop()]
                visit(h.members)
                for v in h.attrs.values():
                    visit(v)
                if h.origin is not None:
                    visit(h.origin)
            dead = temp - live
            if dead:
                heap = {o: h for o, h in heap.items() if o not in dead}
                facts = {a: v for a, v in facts.items() if not mentions_obj(a, dead)}
        return State(env, heap, facts, s.cl, s.exc)

    def call_method(self, st, recv, name, args, kw, node):
        # resolve attribute first
        out = []
        for s, fv in self.getattr(st, recv, name, node):
            if fv[0] in ('fn', 'bm', 'cls', 'ext', 'bi'):
                out.extend(self.call_value(s, fv, args, kw, node))
            elif fv[0] == 'at':
                out.extend(self.builtin_method(s, recv, name, args, kw, node))
            else:
                out.extend(self.call_value(s, fv, args, kw, node))
        return out

    def mut(self, st, target, op, args, node):
        """Report a mutation of container `target` and update facts / fresh content."""
        cl = self.client.mutate(self, st, target, op, args, node)
        st = st.copy(cl=cl)
        if target[0] == 'o':
            h = st.heap.get(target[1])
            if h is not None and h.kind in ('list', 'set', 'dict'):
                return self.mut_heap(st, target, h, op, args, node)
        X = target
        if self.client.tracked(X):
            return st.kill(X)
        if op in ('add', 'insert'):
            v = args[-1]
            st = st.kill(('nonempty', X)).fact(('in', v, X), True).fact(('nonempty', X), True)
        elif op == 'setitem':
            st = self.kill_ix(st, X)
            st = st.kill(('nonempty', X)).fact(('in', args[0], X), True).fact(('nonempty', X), True)
            if args[1][0] not in ('un', 'w'):
                st = st.fact(('#', X, args[0]), args[1])
        elif op in ('remove', 'discard', 'delitem'):
            st = self.kill_ix(st, X)
            st = st.kill(('nonempty', X)).fact(('in', args[0], X), False)
        elif op in ('sort', 'reverse'):
            pass
        elif op == 'clear':
            st = st.kill(X)
        else:
            st = st.kill(X)
        return st

    def kill_ix(self, st, X):
        d = {k: v for k, v in st.facts.items() if not (k[0] == '#' and k[1] == X)}
        return st.copy(facts=d) if len(d) != len(st.facts) else st

    def mut_heap(self, st, target, h, op, args, node):
        oid = target[1]
        ms = h.members
        st = st.kill(target)
        if h.kind in ('list', 'set') and op in ('add', 'insert'):
            v = args[-1]
            if op == 'insert' and h.exact and is_const(args[0]):
                l = list(ms)
                l.insert(args[0][1], v)
                return st.hset(oid, h.with_(members=tuple(l)))
            if h.kind == 'set' or not h.exact:
                if v in ms:
                    return st
                nm = tuple(sorted(set(ms) | {v}, key=repr)) if h.kind == 'set' else ms + (v,)
                return st.hset(oid, h.with_(members=nm))
            if self.in_generic_loop():
                nm = ms if v in ms else ms + (v,)
                return st.hset(oid, h.with_(members=nm, exact=False))
            if len(ms) > 60:
                return st.hset(oid, h.with_(exact=False))
            return st.hset(oid, h.with_(members=ms + (v,)))
        if op in ('remove', 'discard') and h.kind in ('list', 'set'):
            v = args[0]
            if v in ms:
                l = list(ms)
                l.remove(v)
                return st.hset(oid, h.with_(members=tuple(l)))
            return st
        if op in ('difference_update', 'intersection_update', 'update', 'extend') and h.kind in ('list', 'set'):
            k, els = self.elements(st, args[0], node) if args else ('exact', [])
            if k == 'exact' and h.exact:
                if op == 'difference_update':
                    nm = tuple(m for m in ms if m not in els)
                elif op == 'intersection_update':
                    nm = tuple(m for m in ms if m in els)
                elif h.kind == 'set':
                    nm = tuple(sorted(set(ms) | set(els), key=repr))
                else:
                    nm = ms + tuple(els)
                return st.hset(oid, h.with_(members=nm))
            if op in ('update', 'extend'):
                e = els if k == 'generic' else None
                add = (e,) if e is not None else tuple(els)
                nm = ms + tuple(x for x in add if x not in ms)
                return st.hset(oid, h.with_(members=nm, exact=False))
            return st.hset(oid, h.with_(exact=False))
        if h.kind == 'dict' and op == 'setitem':
            nm = tuple((k, v) for k, v in ms if k != args[0]) + ((args[0], args[1]),)
            ex = h.exact and (is_const(args[0]) or not self.in_generic_loop())
            return st.hset(oid, h.with_(members=nm, exact=ex))
        if h.kind == 'dict' and op == 'delitem':
            return st.hset(oid, h.with_(members=tuple((k, v) for k, v in ms if k != args[0])))
        if h.kind == 'dict' and op == 'update' and args:
            x = args[0]
            hx = st.heap.get(x[1]) if x[0] == 'o' else None
            if hx is not None and hx.kind == 'dict':
                keys = {k for k, _ in hx.members}
                nm = tuple((k, v) for k, v in ms if k not in keys) + hx.members
                return st.hset(oid, h.with_(members=nm, exact=h.exact and hx.exact, origin=h.origin or hx.origin))
            return st.hset(oid, h.with_(exact=False, origin=h.origin or (x if x[0] != 'comp' else None),
                                        members=ms + (((x[1][1][0], x[1][1][1]),) if x[0] == 'comp' and x[1][0] == 't' and len(x[1][1]) == 2 else ())))
        if h.kind == 'list' and op == 'setitem':
            if h.exact and is_const(args[0]) and isinstance(args[0][1], int):
                l = list(ms)
                try:
                    l[args[0][1]] = args[1]
                    return st.hset(oid, h.with_(members=tuple(l)))
                except IndexError:
                    return st
            return st.hset(oid, h.with_(exact=False, members=ms + ((args[1],) if args[1] not in ms else ())))
        if op == 'clear':
            return st.hset(oid, Heap(h.kind))
        if op in ('sort', 'reverse'):
            return st
        if op == 'pop':
            if h.kind == 'list' and h.exact and ms:
                i = args[0][1] if args and is_const(args[0]) else (-1 if not args else None)
                if i is not None:
                    l = list(ms)
                    try:
                        l.pop(i)
                        return st.hset(oid, h.with_(members=tuple(l)))
                    except IndexError:
                        return st
            return st.hset(oid, h.with_(exact=False))
        return st.hset(oid, h.with_(exact=False))

    def in_generic_loop(self):
        return self._generic > 0

    _generic = 0
    _logging = 0

    def builtin_method(self, st, recv, name, args, kw, node):
        # mutators
        if name in MUTATORS and not (recv[0] == 'c'):
            isstrlike = recv[0] in ('lower', 'len')
            if not isstrlike:
                return self.do_mutator(st, recv, name, args, kw, node)
        if name == 'lower' and not args:
            return [(st, lower(recv))]
        if is_str(recv) and all(is_const(a) for a in args) and name in STR_METHODS and not kw:
            try:
                r = getattr(recv[1], name)(*[a[1] for a in args])
                if isinstance(r, list):
                    oid = self.fresh(node)
                    return [(st.hset(oid, Heap('list', members=tuple(C(x) for x in r))), ('o', oid))]
                if isinstance(r, (str, int, bool, type(None))):
                    return [(st, C(r))]
            except Exception:
                pass
        if name in ('keys', 'values', 'items') and not args:
            return [(st, (name, recv))]
        if name in ('iterkeys', 'itervalues', 'iteritems') and not args:
            return [(st, (name[4:], recv))]
        if name == 'copy' and not args:
            s, v = self.shallow(st, recv, None if recv[0] == 'o' else self.kind_hint(st, recv), node)
            return [(s, v)]
        if name == 'get' and args:
            h = st.heap.get(recv[1]) if recv[0] == 'o' else None
            default = args[1] if len(args) > 1 else kw.get('default', NONE)
            if h is not None and h.kind == 'dict':
                for kk, vv in h.members:
                    if kk == args[0]:
                        return [(st, vv)]
                if h.exact and is_const(args[0]) and all(is_const(kk) for kk, _ in h.members):
                    return [(st, default)]
            out = []
            X = self.strip_view(st, recv)
            for s, b in self.split(st, ('in', args[0], X)):
                if b:
                    if ('#', X, args[0]) in s.facts:
                        out.append((s, s.facts[('#', X, args[0])]))
                    else:
                        out.append((s, ('ix', X, args[0])))
                else:
                    out.append((s, default))
            return out
        if name in ('index',) and args:
            X = self.strip_view(st, recv)
            d = self.decide(st, ('in', args[0], X))
            if d is not True:
                self.maybe_throw(st, 'ValueError', 'index', ('in', args[0], X), node)
                if d is False and self.caught_somewhere('ValueError'):
                    return []
            return [(st, ('call', 'index', (recv, args[0])))]
        if name in ('union', 'intersection', 'difference', 'issubset', 'isdisjoint', 'count', 'strip', 'split', 'startswith',
                    'endswith', 'find', 'rfind', 'replace', 'join', 'encode', 'decode', 'format', 'upper', 'title', 'rstrip',
                    'lstrip', 'splitlines', 'isdigit', 'expandtabs', 'partition', 'rsplit', 'capitalize', 'isspace', 'islower',
                    'casefold', 'swapcase', 'isupper', 'zfill', 'ljust', 'rjust', 'center'):
            if name in ('startswith', 'endswith') and args:
                return [(st, ('atom', (name, recv, args[0])))]
            if name in ('union', 'intersection', 'difference') and recv[0] == 'o' and args:
                h = st.heap.get(recv[1])
                k, els = self.elements(st, args[0], node)
                if h is not None and h.kind == 'set' and h.exact and k == 'exact':
                    if name == 'union':
                        ms = set(h.members) | set(els)
                    elif name == 'intersection':
                        ms = set(h.members) & set(els)
                    else:
                        ms = set(h.members) - set(els)
                    oid = self.fresh(node)
                    return [(st.hset(oid, Heap('set', members=tuple(sorted(ms, key=repr)))), ('o', oid))]
            if name == 'casefold':
                pass
            cl = self.client.call(self, st, '.' + name, recv, args, kw, node)
            return [(st.copy(cl=cl), self.limit(('call', '.' + name, (recv,) + tuple(args)), node))]
        return self.opaque(st, '.' + name, recv, args, kw, node)

    def kind_hint(self, st, recv):
        return None

    def do_mutator(self, st, recv, name, args, kw, node):
        op = MUTATORS[name]
        X = recv
        if op in ('remove', 'delitem'):
            d = self.decide(st, ('in', args[0], self.strip_view(st, X))) if args else None
            if d is not True:
                exc = 'KeyError' if op == 'delitem' or self.setlike(st, X) else 'ValueError'
                atom = ('in', args[0], self.strip_view(st, X)) if args else None
                sF = self.learn(st, atom, False) if args else st
                if sF is not None:
                    self.maybe_throw(sF, exc, 'remove', ('in', args[0], X), node)
                if d is False and self.caught_somewhere(exc):
                    return []
                if atom is not None:
                    st = self.learn(st, atom, True) if d is None else st
                    if st is None:
                        return []
        if op == 'pop':
            res = NONE
            if X[0] == 'o' and X[1] in st.heap:
                h = st.heap[X[1]]
                if h.kind == 'list' and h.exact and h.members:
                    i = args[0][1] if args and is_const(args[0]) else -1
                    try:
                        res = h.members[i]
                    except Exception:
                        res = self.unknown(node)
                elif h.kind == 'dict' and args:
                    res = dict(h.members).get(args[0], args[1] if len(args) > 1 else self.unknown(node))
                else:
                    k, e = self.elements(st, X, node)
                    res = e if k == 'generic' else self.unknown(node)
            elif args:
                res = ('ix', X, args[0])
            else:
                res = ('el', X)
            if len(args) < 2:
                self.maybe_throw(st, 'KeyError' if args and not is_const(args[0]) else 'IndexError', 'pop', X, node)
            st = self.mut(st, X, 'pop', args, node)
            if X[0] != 'o' and args and not (is_const(args[0]) and isinstance(args[0][1], int)):
                st = st.fact(('in', args[0], X), False)
            return [(st, res)]
        if op == 'setdefault':
            out = []
            for s, b in self.split(st, ('in', args[0], self.strip_view(st, X))):
                if b:
                    out.extend(self.subscript(s, X, args[0], node))
                else:
                    dv = args[1] if len(args) > 1 else NONE
                    out.append((self.mut(s, X, 'setitem', [args[0], dv], node), dv))
            return out
        if op == 'update' and args and args[0][0] == 'o' and X[0] != 'o':
            h = st.heap.get(args[0][1])
            if h is not None and h.kind == 'dict' and h.exact:
                for k, v in h.members:
                    st = self.mut(st, X, 'setitem', [k, v], node)
                return [(st, NONE)]
        if op == 'extend' and args and X[0] != 'o':
            k, els = self.elements(st, args[0], node)
            if k == 'exact':
                for e in els:
                    st = self.mut(st, X, 'add', [e], node)
                return [(st, NONE)]
        st = self.mut(st, X, op, args, node)
        return [(st, NONE)]

    def setlike(self, st, X):
        if X[0] == 'o' and X[1] in st.heap:
            return st.heap[X[1]].kind in ('set', 'dict')
        return self.client.type_of(self, st, X) in ('set', 'dict')

    def call_builtin(self, st, name, args, kw, node):
        a0 = args[0] if args else None
        if name == 'len' and a0 is not None:
            if a0[0] == 'c':
                try:
                    return [(st, C(len(a0[1])))]
                except TypeError:
                    pass
            if a0[0] == 't':
                return [(st, C(len(a0[1])))]
            if a0[0] == 'o':
                h = st.heap.get(a0[1])
                if h is not None and h.kind in ('list', 'set', 'dict') and h.exact:
                    return [(st, C(len(h.members)))]
                if h is not None and h.kind == 'obj':
                    f = self.prog.find_method(h.cls, '__len__')
                    if f is not None:
                        return self.call_func(st, f, a0, [], {}, node)
            return [(st, ('len', self.strip_view(st, a0)))]
        if name == 'isinstance' and len(args) == 2:
            names = self.class_names(st, args[1])
            d = self.isinst(st, a0, names)
            if d is not None:
                return [(st, C(d))]
            return [(st, ('atom', ('inst', a0, frozenset(names))))]
        if name in ('list', 'set', 'dict', 'frozenset', 'tuple', 'sorted', 'StarList', 'StarDict', 'OrderedDict'):
            kind = {'sorted': 'list', 'frozenset': 'set', 'OrderedDict': 'dict'}.get(name, name)
            if not args:
                oid = self.fresh(node)
                if kind == 'tuple':
                    return [(st, ('t', ()))]
                ms = tuple((C(k), v) for k, v in kw.items()) if kind == 'dict' else ()
                return [(st.hset(oid, Heap(kind, members=ms)), ('o', oid))]
            if kind == 'tuple':
                if a0[0] == 't':
                    return [(st, a0)]
                k, els = self.elements(st, a0, node)
                if k == 'exact':
                    return [(st, ('t', tuple(els)))]
                s, v = self.shallow(st, a0, 'list', node)
                return [(s, v)]
            if a0[0] in ('comp', 'zip', 'enum', 'range', 'rev', 'values', 'items', 'keys', 'map'):
                k, els = self.elements(st, a0, node)
                if k == 'exact':
                    oid = self.fresh(node)
                    if kind == 'dict':
                        if all(e[0] == 't' and len(e[1]) == 2 for e in els):
                            return [(st.hset(oid, Heap('dict', members=tuple((e[1][0], e[1][1]) for e in els))), ('o', oid))]
                    else:
                        return [(st.hset(oid, Heap(kind, members=tuple(els))), ('o', oid))]
                if kind == 'list' and a0[0] in ('comp', 'map'):
                    return [(st, a0)]
                if kind == 'dict' and els[0] == 't' and len(els[1]) == 2:
                    oid = self.fresh(node)
                    cs = {'#conds': a0[3]} if a0[0] == 'comp' else None
                    return [(st.hset(oid, Heap('dict', members=((els[1][0], els[1][1]),), exact=False, attrs=cs)), ('o', oid))]
                if kind == 'list' and a0[0] == 'keys':
                    s, v = self.shallow(st, a0[1], 'list', node)
                    return [(s, v)]
                oid = self.fresh(node)
                org = a0 if a0[0] != 'keys' else a0[1]
                return [(st.hset(oid, Heap(kind, exact=False, origin=org)), ('o', oid))]
            s, v = self.shallow(st, a0, kind, node)
            return [(s, v)]
        if name in ('str', 'unicode') and a0 is not None:
            if a0[0] == 'c':
                return [(st, C(str(a0[1])))]
            if a0[0] == 'o' and a0[1] in st.heap and st.heap[a0[1]].kind == 'obj':
                f = self.prog.find_method(st.heap[a0[1]].cls, '__str__')
                if f is not None:
                    return self.call_func(st, f, a0, [], {}, node)
            cls = self.client.type_of(self, st, a0)
            if cls and cls in self.prog.classes:
                f = self.prog.find_method(cls, '__str__')
                if f is not None:
                    return self.call_func(st, f, a0, [], {}, node)
            if a0[0] in ('lower', 'strof') or st.facts.get(('inst', a0, frozenset({'str'}))) is True:
                return [(st, a0)]
            return [(st, ('strof', a0) if not self.stringy(st, a0) else a0)]
        if name in ('any', 'all') and a0 is not None:
            k, els = self.elements(st, a0, node)
            if k == 'exact':
                cur = [st]
                out = []
                for e in els:
                    nxt = []
                    for s in cur:
                        for s2, b in self.branch(s, e):
                            if b == (name == 'any'):
                                out.append((s2, C(b)))
                            else:
                                nxt.append(s2)
                    cur = nxt
                return out + [(s, C(name != 'any')) for s in cur]
            if a0[0] == 'comp':
                elt = a0[1]
                at = self.truth_atom(st, elt) if elt[0] != 'nott' else None
                want = name == 'any'
                if elt[0] == 'nott':
                    inner = self.truth_atom(st, elt[1])
                    cond = (inner, not want)
                else:
                    cond = (at, want)
                if isinstance(cond[0], bool):
                    if cond[0] == cond[1]:
                        t = ('comp', ('el', a0[2]), a0[2], a0[3])
                    else:
                        return [(st, C(not want))]
                else:
                    t = ('comp', ('el', a0[2]), a0[2], tuple(sorted(a0[3] + (cond,), key=repr)))
                return [(st, ('atom', ('nonempty', t)) if want else ('nott', ('atom', ('nonempty', t))))]
            return [(st, ('call', name, (a0,)))]
        if name == 'next' and a0 is not None:
            k, els = self.elements(st, a0, node)
            out = []
            if k == 'generic':
                for s, b in self.split(st, ('nonempty', self.strip_view(st, a0))):
                    if b:
                        out.append((s, self.pick(a0) if a0[0] == 'comp' else els))
                    elif len(args) > 1:
                        out.append((s, args[1]))
                    else:
                        self.throw(s, 'StopIteration', node, implicit=True)
                return out
            if els:
                return [(st, els[0])]
            if len(args) > 1:
                return [(st, args[1])]
            self.throw(st, 'StopIteration', node, implicit=True)
            return []
        if name == 'iter' and a0 is not None:
            return [(st, a0)]
        if name == 'zip':
            return [(st, ('zip', tuple(args)))]
        if name == 'enumerate' and a0 is not None:
            return [(st, ('enum', a0))]
        if name == 'reversed' and a0 is not None:
            return [(st, ('rev', a0))]
        if name == 'range':
            if all(is_const(a) for a in args) and args:
                try:
                    r = range(*[a[1] for a in args])
                    if len(r) <= 64:
                        return [(st, ('t', tuple(C(i) for i in r)))]
                except Exception:
                    pass
            return [(st, ('range',) + tuple(args))]
        if name in ('map', 'filter') and len(args) == 2:
            return self.map_filter(st, name, args, node)
        if name == 'getattr' and len(args) >= 2 and is_str(args[1]):
            return self.getattr(st, a0, args[1][1], node)
        if name == 'setattr' and len(args) == 3:
            if is_str(args[1]):
                return [(s, NONE) for s in self.set_attr(st, a0, args[1][1], args[2], node)]
            cl = self.client.attr_write(self, st, a0, args[1], args[2], node)
            return [(st.copy(cl=cl), NONE)]
        if name == 'hasattr' and len(args) == 2:
            return [(st, ('atom', ('hasattr', a0, args[1])))]
        if name == 'print':
            return [(st, NONE)]
        if name == 'repr':
            return [(st, ('call', 'repr', tuple(args)))]
        if name in ('max', 'min', 'abs', 'sum', 'int', 'float', 'ord', 'chr', 'round', 'bool', 'complex', 'hash', 'id'):
            if name == 'bool' and a0 is not None:
                a = self.truth_atom(st, a0)
                return [(st, C(a) if isinstance(a, bool) else ('atom', a))]
            if args and all(is_const(a) for a in args) and name in ('max', 'min', 'abs', 'int', 'float', 'ord', 'chr'):
                try:
                    return [(st, C(getattr(builtins, name)(*[a[1] for a in args])))]
                except Exception:
                    pass
            for e in ('ValueError', 'TypeError'):
                if name in ('int', 'float', 'complex'):
                    self.maybe_throw(st, e, 'conv', a0 or NONE, node)
            return [(st, self.limit(('call', name, tuple(args)), node))]
        if name == 'type' and a0 is not None:
            return [(st, ('call', 'type', (a0,)))]
        if name in _BUILTIN_BASES or name.endswith('Error') or name in ('Exception', 'StopIteration'):
            return [(st, ('exc', name))]
        return self.opaque(st, name, None, args, kw, node)

    def stringy(self, st, t):
        return t[0] in ('lower',) or (t[0] == 'p') or self.client.type_of(self, st, t) == 'str'

    def map_filter(self, st, name, args, node):
        fv, X = args
        k, els = self.elements(st, X, node)
        if k == 'exact':
            cur = [(st, [])]
            for e in els:
                nxt = []
                for s, acc in cur:
                    for s2, v in self.call_value(s, fv, [e], {}, node):
                        if name == 'map':
                            nxt.append((s2, acc + [v]))
                        else:
                            for s3, b in self.branch(s2, v):
                                nxt.append((s3, acc + [e] if b else acc))
                cur = nxt
            out = []
            for s, acc in cur:
                oid = self.fresh(node)
                out.append((s.hset(oid, Heap('list', members=tuple(acc))), ('o', oid)))
            return out
        out = []
        base = self.strip_view(st, X)
        for s2, v in self.call_value(st, fv, [els], {}, node):
            if name == 'map':
                out.append((s2, ('comp', v, base, ())))
            else:
                a = self.truth_atom(s2, v) if v[0] != 'nott' else self.truth_atom(s2, v[1])
                val = v[0] != 'nott'
                conds = () if isinstance(a, bool) else ((a, val),)
                out.append((s2, ('comp', els, base, conds)))
        return out

    def class_names(self, st, v):
        if v[0] == 't':
            r = []
            for x in v[1]:
                r.extend(self.class_names(st, x))
            return r
        if v[0] == 'cls':
            return [v[1]]
        if v[0] == 'ext':
            return [v[1].split('.')[-1]]
        if v[0] == 'at':
            return [v[2]]
        if v[0] == 'bi':
            return [v[1]]
        return ['?']

    def isinst(self, st, v, names):
        if v[0] == 'c':
            ts = {v[2]}
            if v[2] == 'bool':
                ts.add('int')
            return bool(ts & set(names)) if '?' not in names else None
        if v[0] in ('lower', 'strof'):
            return 'str' in names
        if v[0] == 't':
            return 'tuple' in names
        if v[0] == 'len':
            return 'int' in names
        if v[0] in ('comp',):
            return 'list' in names
        if v[0] == 'o':
            h = st.heap.get(v[1])
            if h is not None and h.kind in ('list', 'dict', 'set'):
                return h.kind in names
            if h is not None and h.kind == 'obj' and h.cls:
                return bool(self.prog.base_names(h.cls) & set(names))
        t = self.client.type_of(self, st, v)
        if t:
            bases = self.prog.base_names(t) if t in self.prog.classes else {t}
            return bool(bases & set(names))
        for a, val in st.facts.items():
            if a[0] == 'inst' and a[1] == v:
                if val and a[2] <= set(names):
                    return True
                if not val and set(names) <= a[2]:
                    return False
                if val and len(a[2]) >= 1 and not (a[2] & set(names)):
                    # different builtin types are disjoint
                    prim = {'str', 'int', 'float', 'list', 'tuple', 'dict', 'set', 'bytes'}
                    if a[2] <= prim and set(names) <= prim:
                        return False
        return None

    # ---- statements -------------------------------------------------------------------------
    def block(self, stmts, states):
        out = Out()
        cur = states
        for n in stmts:
            if not cur:
                break
            nxt = []
            for s in cur:
                o = self.stmt(n, s)
                nxt.extend(o.normal)
                out.ret.extend(o.ret)
                out.brk.extend(o.brk)
                out.cont.extend(o.cont)
            cur = self.dedup([self.prune(n, s) for s in nxt])
        out.normal = cur
        return out

    def prune(self, n, s):
        """drop local variables that cannot be read any more"""
        if not self.stack:
            return s
        lu = self.last_use(self.func())
        if lu is None or getattr(n, 'end_lineno', None) is None:
            return s
        end = (n.end_lineno, n.end_col_offset)
        dead = [k for k in s.env if k in lu and lu[k] <= end and k != 'self']
        if not dead:
            return s
        e = {k: v for k, v in s.env.items() if k not in dead}
        return s.copy(env=e)

    def last_use(self, f):
        if not hasattr(f, '_last_use'):
            res = {}
            if isinstance(f.node, ast.Lambda):
                f._last_use = None
                return None
            last = (f.node.end_lineno + 1, 0)

            def rec(node, loop_end, nested):
                if isinstance(node, (ast.FunctionDef, ast.Lambda)) and node is not f.node:
                    nested = True
                if isinstance(node, (ast.For, ast.While)) and loop_end is None:
                    loop_end = (node.end_lineno, node.end_col_offset)
                if isinstance(node, ast.Name):
                    if isinstance(node.ctx, ast.Load):
                        e = last if nested else (loop_end if loop_end is not None else (node.end_lineno, node.end_col_offset))
                        res[node.id] = max(res.get(node.id, (0, 0)), e)
                    else:
                        res.setdefault(node.id, (0, 0))
                        if nested:
                            res[node.id] = last
                for c in ast.iter_child_nodes(node):
                    rec(c, loop_end, nested)
            rec(f.node, None, False)
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    for x in n.names:
                        res.pop(x, None)
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    res[n.target.id] = max(res.get(n.target.id, (0, 0)), last)
            f._last_use = res
        return f._last_use

    def stmt(self, n, st):
        m = getattr(self, 'st_' + n.__class__.__name__, None)
        if m is None:
            self.stats['unknown_nodes'] += 1
            o = Out()
            o.normal = [st]
            return o
        return m(n, st)

    def N(self, states):
        o = Out()
        o.normal = list(states)
        return o

    def st_Expr(self, n, st):
        return self.N(self.dedup([s for s, _ in self.ev(n.value, st)]))

    def st_Pass(self, n, st):
        return self.N([st])

    st_Global = st_Pass
    st_Nonlocal = st_Pass

    def st_Import(self, n, st):
        for a in n.names:
            nm = a.asname or a.name.split('.')[0]
            base = a.name.split('.')[-1]
            st = st.bind(nm, ('mod', base) if base in self.prog.modules else ('ext', a.name))
        return self.N([st])

    def st_ImportFrom(self, n, st):
        for a in n.names:
            nm = a.asname or a.name
            base = (n.module or '').split('.')[-1]
            v = ('ext', '%s.%s' % (n.module, a.name))
            if base in self.prog.modules:
                tm = self.prog.modules[base]
                if a.name in tm.functions:
                    v = ('fn', self.reg(tm.functions[a.name]))
                elif a.name in tm.classes:
                    v = ('cls', a.name)
            elif a.name in self.prog.modules:
                v = ('mod', a.name)
            st = st.bind(nm, v)
        return self.N([st])

    def st_FunctionDef(self, n, st):
        f = NestedFunc(self.func().module, self.func().cls, n)
        i = self.reg(f, dict(st.env))
        return self.N([st.bind(n.name, ('fn', i))])

    def st_ClassDef(self, n, st):
        return self.N([st.bind(n.name, ('cls', n.name))])

    def st_Return(self, n, st):
        o = Out()
        if n.value is None:
            o.ret = [(st, NONE)]
        else:
            for s, v in self.ev(n.value, st):
                o.ret.extend(self.settle(s, v))
        return o

    def settle(self, s, v):
        """a test of a tracked table is decided when it is evaluated, not when the result is used"""
        a = v
        while a[0] == 'nott':
            a = a[1]
        if a[0] == 'atom' and self.client.owns(self, s, a[1]):
            return [(s2, C(b)) for s2, b in self.branch(s, v)]
        return [(s, v)]

    def st_Assign(self, n, st):
        states = []
        for s, v in [y for x in self.ev(n.value, st) for y in self.settle(*x)]:
            cur = [s]
            for t in n.targets:
                cur = [s3 for s2 in cur for s3 in self.assign_target(t, v, s2)]
            states.extend(cur)
        return self.N(self.dedup(states))

    def st_AnnAssign(self, n, st):
        if n.value is None:
            return self.N([st])
        return self.N([s2 for s, v in self.ev(n.value, st) for s2 in self.assign_target(n.target, v, s)])

    def st_AugAssign(self, n, st):
        states = []
        op = n.op.__class__.__name__
        load = _as_load(n.target)
        for s, l in self.ev(load, st):
            for s2, r in self.ev(n.value, s):
                # in-place extension of a list
                if op == 'Add' and self.listy(s2, l):
                    for s3, _ in self.do_mutator(s2, l, 'extend', [r], {}, n):
                        states.append(s3)
                    continue
                if op in ('BitOr', 'BitAnd', 'Sub') and self.setlike(s2, l):
                    nm = {'BitOr': 'update', 'BitAnd': 'intersection_update', 'Sub': 'difference_update'}[op]
                    for s3, _ in self.do_mutator(s2, l, nm, [r], {}, n):
                        states.append(s3)
                    continue
                s3, v = self.binop(s2, op, l, r, n)
                states.extend(self.assign_target(n.target, self.limit(v, n), s3))
        return self.N(self.dedup(states))

    def listy(self, st, v):
        if v[0] == 'o':
            h = st.heap.get(v[1])
            return h is not None and h.kind == 'list'
        return self.client.type_of(self, st, v) == 'list'

    def assign_target(self, t, v, st):
        if isinstance(t, ast.Name):
            return [st.bind(t.id, v)]
        if isinstance(t, (ast.Tuple, ast.List)):
            vals = None
            if v[0] == 't' and len(v[1]) == len(t.elts):
                vals = list(v[1])
            elif v[0] == 'o' and v[1] in st.heap and st.heap[v[1]].kind == 'list' and st.heap[v[1]].exact \
                    and len(st.heap[v[1]].members) == len(t.elts):
                vals = list(st.heap[v[1]].members)
            else:
                vals = [('ix', v, C(i)) for i in range(len(t.elts))]
                vals = [st.facts.get(('#', v, C(i)), x) for i, x in enumerate(vals)]
            cur = [st]
            for e, x in zip(t.elts, vals):
                cur = [s2 for s in cur for s2 in self.assign_target(e, x, s)]
            return cur
        if isinstance(t, ast.Starred):
            return self.assign_target(t.value, ('lst', v), st)
        if isinstance(t, ast.Attribute):
            out = []
            for s, b in self.ev(t.value, st):
                out.extend(self.set_attr(s, b, t.attr, v, t))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, b in self.ev(t.value, st):
                if isinstance(t.slice, ast.Slice):
                    parts = [x for x in (t.slice.lower, t.slice.upper, t.slice.step) if x is not None]
                    for s2, vs in self.ev_list(parts, s):
                        full = not parts
                        k, els = self.elements(s2, v, t)
                        if full:
                            s2 = self.mut(s2, b, 'replace', [v], t)
                        elif len(vs) == 2 and vs[0] == vs[1] and k == 'exact':
                            for e in els:
                                s2 = self.mut(s2, b, 'insert', [vs[0], e], t)
                        else:
                            s2 = self.mut(s2, b, 'setslice', vs + [v], t)
                        out.append(s2)
                    continue
                for s2, k in self.ev(t.slice, s):
                    cls = self.class_of(s2, b)
                    if cls and cls in self.prog.classes:
                        f = self.prog.find_method(cls, '__setitem__')
                        if f is not None:
                            out.extend(s3 for s3, _ in self.call_func(s2, f, b, [k, v], {}, t))
                            continue
                    out.append(self.mut(s2, b, 'setitem', [k, v], t))
            return out
        return [st]

    def set_attr(self, st, b, attr, v, node):
        cls = self.class_of(st, b)
        if cls and cls in self.prog.classes:
            f = self.prog.find_method(cls, '__setattr__')
            if f is not None and not any(g is f for g, _ in self.stack):
                res = self.call_func(st, f, b, [C(attr), v], {}, node)
                return [self.raw_set(s, b, attr, v, node) for s, _ in res]
        return [self.raw_set(st, b, attr, v, node)]

    def raw_set(self, st, b, attr, v, node):
        cl = self.client.attr_write(self, st, b, attr, v, node)
        st = st.copy(cl=cl)
        if b[0] == 'o':
            h = st.heap.get(b[1])
            if h is not None and h.kind == 'obj':
                a = dict(h.attrs)
                a[attr] = v
                if self.client.same_table(self, st, b, attr, v):
                    del a[attr]
                return st.kill(('at', b, attr)).hset(b[1], h.with_(attrs=a))
        if self.client.same_table(self, st, b, attr, v):
            return st.kill(('at', b, attr))
        return st.kill(('at', b, attr)).fact(('@', b, attr), v)

    def st_Delete(self, n, st):
        cur = [st]
        for t in n.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Name):
                    e = dict(s.env)
                    e.pop(t.id, None)
                    nxt.append(s.copy(env=e))
                elif isinstance(t, ast.Subscript):
                    for s1, b in self.ev(t.value, s):
                        if isinstance(t.slice, ast.Slice):
                            nxt.append(self.mut(s1, b, 'delslice', [], n))
                            continue
                        for s2, k in self.ev(t.slice, s1):
                            cls = self.class_of(s2, b)
                            if cls and cls in self.prog.classes:
                                f = self.prog.find_method(cls, '__delitem__')
                                if f is not None:
                                    nxt.extend(s3 for s3, _ in self.call_func(s2, f, b, [k], {}, n))
                                    continue
                            X = self.strip_view(s2, b)
                            d = self.decide(s2, ('in', k, X))
                            if d is not True:
                                sF = self.learn(s2, ('in', k, X), False)
                                if sF is not None:
                                    self.maybe_throw(sF, 'KeyError', 'del', ('ix', b, k), n)
                                if d is False and self.caught_somewhere('KeyError'):
                                    continue
                                if d is None:
                                    s2 = self.learn(s2, ('in', k, X), True)
                                    if s2 is None:
                                        continue
                            nxt.append(self.mut(s2, b, 'delitem', [k], n))
                else:
                    nxt.append(s)
            cur = nxt
        return self.N(self.dedup(cur))

    def st_If(self, n, st):
        o = Out()
        tb, fb = [], []
        for s, b in self.cond(n.test, st):
            (tb if b else fb).append(s)
        for body, ss in ((n.body, tb), (n.orelse, fb)):
            if ss:
                r = self.block(body, self.dedup(ss)) if body else self.N(self.dedup(ss))
                o.normal.extend(r.normal)
                o.ret.extend(r.ret)
                o.brk.extend(r.brk)
                o.cont.extend(r.cont)
        o.normal = self.dedup(o.normal)
        return o

    def st_Assert(self, n, st):
        states = []
        for s, b in self.cond(n.test, st):
            if b:
                states.append(s)
            else:
                self.throw(s, 'AssertionError', n)
        return self.N(states)

    def st_Raise(self, n, st):
        if n.exc is None:
            exc = st.exc[-1] if st.exc else '*'
            self.throw(st, exc, n)
            return Out()
        for s, v in self.ev(n.exc, st):
            if v[0] == 'exc':
                name = v[1]
            elif v[0] == 'cls':
                name = v[1]
            elif v[0] == 't' and v[1] and v[1][0][0] in ('cls', 'exc'):
                name = 'TypeError'
            elif v[0] == 'ext':
                name = v[1].split('.')[-1]
            elif v[0] == 'excvar':
                name = v[1]
            elif v[0] == 'call' and isinstance(v[1], tuple) and v[1][0] in ('at', 'ext'):
                name = v[1][2] if v[1][0] == 'at' else v[1][1].split('.')[-1]
            else:
                name = '*'
            self.throw(s, name, n)
        return Out()

    def st_Try(self, n, st):
        o = Out()
        hsets = []
        for h in n.handlers:
            if h.type is None:
                hsets.append(None)
            else:
                names = set()
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                for t in ts:
                    names.add(t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else '*')
                if 'BaseException' in names:
                    hsets.append(None)
                else:
                    hsets.append(names)
        saved = self.sink
        self.sink = []
        if n.handlers:
            self.handlers.append(hsets)
        elif n.finalbody:
            self.handlers.append([None])   # every implicit exception matters for finally
        try:
            r = self.block(n.body, [st])
        finally:
            self.handlers.pop() if (n.handlers or n.finalbody) else None
        raised = self.sink
        self.sink = []
        res = Out()
        res.ret, res.brk, res.cont = r.ret, r.brk, r.cont
        if n.orelse and r.normal:
            r2 = self.block(n.orelse, r.normal)
            res.normal = r2.normal
            res.ret = res.ret + r2.ret
            res.brk = res.brk + r2.brk
            res.cont = res.cont + r2.cont
        else:
            res.normal = r.normal
        escaped = []
        # group raised states per handler
        per = [[] for _ in n.handlers]
        seen = set()
        for s, exc, where in raised:
            k = (s.key(), exc)
            if k in seen:
                continue
            seen.add(k)
            handled = False
            for i, hs in enumerate(hsets):
                c = self.catches(hs, exc)
                if c:
                    per[i].append((s, exc))
                    handled = True
                    break
                if c is None:
                    per[i].append((s, exc))
            if not handled:
                escaped.append((s, exc, where))
        for i, h in enumerate(n.handlers):
            groups = {}
            for s, exc in per[i]:
                # names bound inside the callee frames are gone: env is already the frame's
                s2 = s.copy(env=s.env, exc=s.exc + (exc,))
                if h.name:
                    s2 = s2.bind(h.name, ('excvar', exc))
                groups.setdefault(s2.key(), s2)
            if groups:
                rh = self.block(h.body, self.dedup(list(groups.values())))
                pop = lambda s: s.copy(exc=s.exc[:-1])
                res.normal = res.normal + [pop(s) for s in rh.normal]
                res.ret = res.ret + [(pop(s), v) for s, v in rh.ret]
                res.brk = res.brk + [pop(s) for s in rh.brk]
                res.cont = res.cont + [pop(s) for s in rh.cont]
        # exceptions raised in handlers / orelse
        escaped = escaped + self.sink
        self.sink = saved
        if n.finalbody:
            def fin(states):
                return self.block(n.finalbody, self.dedup(states))
            f = fin(res.normal) if res.normal else Out()
            o.normal.extend(f.normal)
            o.ret.extend(f.ret)
            for kind in ('brk', 'cont'):
                ss = getattr(res, kind)
                if ss:
                    f = fin(ss)
                    getattr(o, kind).extend(f.normal)
                    o.ret.extend(f.ret)
            for s, v in res.ret:
                f = fin([s])
                o.ret.extend((s2, v) for s2 in f.normal)
                o.ret.extend(f.ret)
            for s, exc, where in escaped:
                f = fin([s])
                for s2 in f.normal:
                    self.sink.append((s2, exc, where))
                o.ret.extend(f.ret)
        else:
            o.normal, o.ret, o.brk, o.cont = res.normal, res.ret, res.brk, res.cont
            self.sink.extend(escaped)
        o.normal = self.dedup(o.normal)
        return o

    st_TryStar = st_Try

    def st_With(self, n, st):
        cur = [st]
        for item in n.items:
            nxt = []
            for s in cur:
                for s2, v in self.ev(item.context_expr, s):
                    if item.optional_vars is not None:
                        nxt.extend(self.assign_target(item.optional_vars, v, s2))
                    else:
                        nxt.append(s2)
            cur = nxt
        return self.block(n.body, self.dedup(cur))

    def st_Break(self, n, st):
        o = Out()
        o.brk = [st]
        return o

    def st_Continue(self, n, st):
        o = Out()
        o.cont = [st]
        return o

    def st_For(self, n, st):
        o = Out()
        for s, X in self.ev(n.iter, st):
            cls = self.class_of(s, X)
            kind, els = self.elements(s, X, n.iter)
            if cls and cls in self.prog.classes and X[0] == 'o':
                kind, els = 'generic', ('el', X)
            if kind == 'exact':
                cur = [s]
                after = []
                for e in els:
                    nxt = []
                    for s1 in cur:
                        for s2 in self.assign_target(n.target, e, s1):
                            r = self.block(n.body, [s2])
                            nxt.extend(r.normal + r.cont)
                            o.ret.extend(r.ret)
                            after.extend(r.brk)
                    cur = self.dedup(nxt)
                self.loop_else(n, cur, o)
                o.normal.extend(after)
            else:
                self.generic_loop(n, s, X, els, o)
        o.normal = self.dedup(o.normal)
        return o

    def loop_else(self, n, states, o):
        if n.orelse and states:
            r = self.block(n.orelse, states)
            o.normal.extend(r.normal)
            o.ret.extend(r.ret)
            o.brk.extend(r.brk)
            o.cont.extend(r.cont)
        else:
            o.normal.extend(states)

    def generic_loop(self, n, s, X, el, o):
        ne = ('nonempty', self.strip_view(s, X))
        d = self.decide(s, ne)
        exits = []
        frontier = []
        if d is not False:
            sT = self.learn(s, ne, True)
            frontier = [sT] if sT is not None else []
        if d is not True:
            sF = self.learn(s, ne, False)
            if sF is not None:
                exits.append(sF)
        seen = set()
        saved = self._generic
        self._generic = saved + 1
        for rnd in range(5):
            body = []
            for s1 in frontier:
                if rnd:
                    s1 = self.drop_el(s1, el)
                    s1 = s1.copy(cl=self.client.next_round(self, s1, el, s.cl))
                k = s1.key()
                if k in seen:
                    continue
                seen.add(k)
                body.extend(self.assign_target(n.target, el, s1))
            if not body:
                break
            r = self.block(n.body, self.dedup(body))
            leafs = [l for l in el_leafs(el)]
            for l in leafs:
                pk = ('pick', l, ('loop', getattr(n, 'lineno', 0)))
                r.ret = [(self.rename(s9, l, pk), subst_term(v9, l, pk)) for s9, v9 in r.ret]
                r.brk = [self.rename(s9, l, pk) for s9 in r.brk]
            o.ret.extend(r.ret)
            o.normal.extend(r.brk)
            outs = self.dedup(r.normal + r.cont)
            exits.extend(outs)
            frontier = [self.widen(s, x, n, rnd) for x in outs]
        self._generic = saved
        exits = [x.copy(cl=self.client.loop_done(self, x, el)) for x in exits]
        o.normal = [x.copy(cl=self.client.loop_done(self, x, el)) for x in o.normal]
        self.loop_else(n, self.dedup(exits), o)

    def rename(self, s, a, b):
        env = {k: subst_term(v, a, b) for k, v in s.env.items()}
        facts = {subst_term(k, a, b): (subst_term(v, a, b) if isinstance(v, tuple) else v) for k, v in s.facts.items()}
        heap = {}
        for k, h in s.heap.items():
            if mentions(h.members, a) or any(mentions(v, a) for v in h.attrs.values()):
                h = h.with_(members=subst_term(h.members, a, b), attrs={x: subst_term(v, a, b) for x, v in h.attrs.items()})
            heap[k] = h
        return State(env, heap, facts, self.client.rename(self, s.cl, a, b), s.exc)

    def widen(self, base, s, n, rnd):
        if rnd < 1:
            return s
        env = dict(s.env)
        ch = False
        for k, v in s.env.items():
            if base.env.get(k) != v and term_depth(v) > term_depth(base.env.get(k, ())) + (2 if rnd < 2 else 0) and v[0] not in ('o', 'c'):
                env[k] = ('w', n.lineno, k)
                if is_lower(v) and is_lower(base.env.get(k, v)):
                    env[k] = ('lower', env[k])
                ch = True
            elif v[0] == 'c' and base.env.get(k) != v and rnd >= 2 and k in base.env:
                env[k] = ('w', n.lineno, k)
                ch = True
        return s.copy(env=env) if ch else s

    st_AsyncFor = st_For

    def st_While(self, n, st):
        o = Out()
        frontier = [st]
        exits = []
        seen = set()
        saved = self._generic
        # a while loop over known data may be unrolled a few times exactly
        for rnd in range(40):
            body = []
            decided = True
            for s in frontier:
                k = s.key()
                if k in seen:
                    continue
                seen.add(k)
                cs = self.cond(n.test, s)
                if len(cs) > 1:
                    decided = False
                for s2, b in cs:
                    (body if b else exits).append(s2)
            if not body:
                break
            if rnd > 4 and not decided:
                break
            if not decided:
                self._generic = saved + 1
            r = self.block(n.body, self.dedup(body))
            self._generic = saved
            o.ret.extend(r.ret)
            o.normal.extend(r.brk)
            outs = self.dedup(r.normal + r.cont)
            if decided and rnd < 30:
                frontier = outs
            else:
                # facts used by the test speak about the previous iteration
                frontier = [self.widen(st, self.forget_test(x, n.test), n, rnd) for x in outs]
        self._generic = saved
        self.loop_else(n, self.dedup(exits), o)
        o.normal = self.dedup(o.normal)
        return o

    def forget_test(self, s, test):
        # opaque conditions may change between iterations
        d = {k: v for k, v in s.facts.items() if not (k[0] in ('truth',) and k[1][0] in ('call', 'un'))}
        return s.copy(facts=d)

    # ---- entry ----------------------------------------------------------------------------------
    def run(self, func, recv_cls=None, args=None, st=None):
        """Analyse one function as an entry point.  -> (returns [(state, val)], raises [(state, exc, where)])"""
        self.sink = []
        self.handlers = []
        self.top_raised = set()
        self._generic = 0
        env, heap = {}, {}
        params = func.params()
        facts = {}
        if func.cls is not None or recv_cls:
            heap['self'] = Heap('obj', cls=recv_cls or func.cls.name)
            if params:
                env[params[0]] = ('o', 'self')
                params = params[1:]
        for p in params:
            env[p] = (args or {}).get(p, ('p', p))
        a = func.node.args
        if a.vararg:
            env[a.vararg.arg] = ('p', '*' + a.vararg.arg)
        if a.kwarg:
            env[a.kwarg.arg] = ('p', '**' + a.kwarg.arg)
        for x in a.kwonlyargs:
            env[x.arg] = ('p', x.arg)
        s0 = State(env, heap, facts, self.client.init())
        if st is not None:
            s0 = st(s0)
        self.stack = [(func, func.node)]
        self.analysed.add(func.qual)
        out = self.block(func.node.body, [s0])
        rets = [(s, NONE) for s in out.normal] + out.ret
        raises = self.sink
        self.stats['paths'] += len(rets) + len(raises)
        return rets, raises


class NestedFunc:
    def __init__(self, module, cls, node):
        self.module, self.cls, self.node, self.name = module, cls, node, node.name

    @property
    def qual(self):
        return 'local:' + self.name

    def loc(self, node=None):
        return self.module.loc((node or self.node).lineno)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]


class LambdaFunc(NestedFunc):
    def __init__(self, module, cls, node):
        self.module, self.cls, self.node, self.name = module, cls, node, '<lambda>'


STR_METHODS = {'lower', 'upper', 'strip', 'split', 'startswith', 'endswith', 'replace', 'find', 'rfind', 'index', 'count',
               'lstrip', 'rstrip', 'isdigit', 'join', 'title', 'format', 'casefold'}
PURE = {'len', 'lower', 'isinstance', 'str', 'unicode', 'list', 'set', 'dict', 'tuple', 'sorted', 'keys', 'values', 'items',
        'get', 'ord', 'range', 'zip', 'enumerate', 'copy', 'upper', 'strip', 'split', 'startswith', 'endswith', 'max', 'min',
        'int', 'float', 'repr', 'index', 'count', 'replace', 'join', 'any', 'all', 'type', 'getattr', 'map', 'filter', 'PC'}


def _as_load(t):
    import copy
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, 'ctx'):
            n.ctx = ast.Load()
    return t


def _is_generator(node):
    r = getattr(node, '_isgen', None)
    if r is None:
        r = node._isgen = not isinstance(node, ast.Lambda) and any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))
    return r


def walk_own(fn):
    """walk without entering nested functions"""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))

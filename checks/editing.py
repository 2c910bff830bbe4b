"""Editing: histories of operations of a data block and its loops, interpreted with anonymous names and values, and compared after every
operation with a model written from the documentation."""
import itertools

from sa import mini
from sa.mini import Inst, Native, Raise, Unsupported
from sa.program import AnalysisBroken
from . import reading
from .reading import ADict, AList, FileInterp, Name, Tok, tree
from .scanner import exc_name


class Text(Tok):
    """a text of which only its identity is known"""

    def __init__(self, i):
        Tok.__init__(self, 'v', i)

    def convert(self, it, t, a, kw):
        if t is str:
            return self
        raise Unsupported('%s of a value' % t)

    def key(self):
        return ('text', self.i)


class Row(mini.Abs):
    """a packet made by the caller"""
    kind = 'packet'

    def __init__(self, values):
        self.values = values

    def getattr(self, it, name):
        if name == '__getattribute__':
            return Native(name, lambda n: self.of(it, n))
        return self.of(it, name)

    def of(self, it, n):
        if n in self.values:
            return self.values[n]
        raise Raise(Inst(AttributeError, {'args': (n,)}))


class EditInterp(FileInterp):
    def __init__(self, dec, trees, steps=400000):
        FileInterp.__init__(self, dec, trees[:1], steps)
        for t in trees[1:]:     # modules that know the first one as StarFile
            g = self.globals
            self.globals = mini.Env(g)
            self.globals.vars['StarFile'] = Inst('module', dict(g.vars))
            self.load(t)
            for n, v in self.globals.vars.items():
                g.vars.setdefault(n, v)
            self.globals = g
            self.classes = {n: v for n, v in g.vars.items() if isinstance(v, mini.ClassVal)}
        for v in self.classes.values():
            if v.name == 'StarBlock':
                v.methods['check_data_name'] = Native('check_data_name', lambda me, *a, **k: None)
                v.methods['check_item_value'] = Native('check_item_value', lambda me, *a, **k: None)

    def imported(self, module, name):
        if name == 'Number':
            return (int, float)
        return FileInterp.imported(self, module, name)

    def b_isinstance(self, x, c):
        c = c if isinstance(c, tuple) else (c,)
        return FileInterp.b_isinstance(self, x, tuple(k for y in c for k in (y if isinstance(y, tuple) else (y,))))

    def setattr(self, o, name, v):
        if isinstance(o, AList):
            o.__dict__.setdefault('of', {})[name] = v
            return
        FileInterp.setattr(self, o, name, v)

    def b_setattr(self, o, name, v):
        self.setattr(o, name, v)

    def getattr(self, o, name, node=None):
        if isinstance(o, AList) and name in o.__dict__.get('of', {}):
            return o.of[name]
        if isinstance(o, AList) and name == '__getattribute__':
            return Native(name, lambda n: self.getattr(o, n))
        if isinstance(o, AList) and isinstance(name, Name):
            r = o.cls.lookup('__getattr__') if o.cls is not None else None
            if r:
                return self.call(mini.Bound(r[0], o), [name])
            raise Raise(Inst(AttributeError, {'args': (name,)}))
        if isinstance(o, AList) and name == '__dict__':
            return o.__dict__.setdefault('of', {})
        return FileInterp.getattr(self, o, name, node)

    def b_getattr(self, o, name, *d):
        if isinstance(o, AList):
            return self.getattr(o, name)
        return FileInterp.b_getattr(self, o, name, *d)

    def call_type(self, t, args, kw):
        if t is str and len(args) == 1 and isinstance(args[0], Text):
            return args[0]
        return FileInterp.call_type(self, t, args, kw)


def value(it, v):
    """a value as the caller passes it"""
    if isinstance(v, tuple) and v[0] == 'list':
        x = AList(value(it, e) for e in v[1])
        x.cls = it.classes['StarList']
        return x
    if isinstance(v, tuple) and v[0] == 'table':
        x = ADict((k, value(it, e)) for k, e in v[1])
        x.cls = it.classes['StarDict']
        return x
    if isinstance(v, tuple) and v[0] == 'column':
        return [value(it, e) for e in v[1]]
    return v


def is_column(v):
    return isinstance(v, tuple) and v[0] == 'column'


# ---- the model

class No(Exception):
    """the operation is to be refused"""


class Model:
    def __init__(self, elements=()):
        self.e = [list(x) for x in elements]       # ['item', name, value] | ['loop', number, [[name, column], ...]]
        self.loose = False                          # order not documented

    def copy(self):
        m = Model()
        m.e = [[x[0], x[1], [[c[0], list(c[1])] for c in x[2]] if x[0] == 'loop' else x[2]] for x in self.e]
        m.loose = self.loose
        return m

    def find(self, n):
        for x in self.e:
            if x[0] == 'item' and x[1].lower() == n.lower():
                return x, None
            if x[0] == 'loop':
                for c in x[2]:
                    if c[0].lower() == n.lower():
                        return x, c
        return None, None

    def get(self, n):
        x, c = self.find(n)
        if x is None:
            raise No
        return ('column', list(c[1])) if c else x[2]

    def names(self):
        return [n for x in self.e for n in ([x[1]] if x[0] == 'item' else [c[0] for c in x[2]])]

    def set(self, n, v):
        x, c = self.find(n)
        if c is not None:
            if not is_column(v) or len(v[1]) != len(c[1]):
                raise Unsupported('a column of another length')
            c[0], c[1] = n, list(v[1])
        elif x is not None:
            x[1], x[2] = n, v
        else:
            self.e.append(['item', n, v])

    def drop(self, n):
        x, c = self.find(n)
        if c is not None:
            x[2].remove(c)
            if not x[2]:
                self.e.remove(x)
        elif x is not None:
            self.e.remove(x)

    def number(self):
        return max([x[1] for x in self.e if x[0] == 'loop'], default=0) + 1

    def delete(self, n):
        self.drop(n)

    def createloop(self, ns, order=-1):
        if not ns or len({n.lower() for n in ns}) < len(ns):
            raise No
        got = [self.get(n) for n in ns]
        spelt = [(self.find(n)[1] or self.find(n)[0][1:2])[0] for n in ns]
        cols = [v for v in got if is_column(v)]
        if len(cols) == len(got):
            if len({len(v[1]) for v in cols}) > 1:
                raise No
        elif cols:
            raise No
        else:
            got = [('column', [v]) for v in got]
        for n in ns:
            self.drop(n)
        new = ['loop', self.number(), [[s, list(v[1])] for s, v in zip(spelt, got)]]
        if order >= 0:
            self.e.insert(order, new)
        else:
            self.e.append(new)

    def addloopname(self, old, new):
        x, c = self.find(old)
        if c is None:
            raise No
        y, d = self.find(new)
        if y is None:
            raise No
        if d is not None and y is x:
            return
        v = self.get(new)
        if not is_column(v):
            raise No
        if len(v[1]) != len(c[1]):
            raise No
        spelt = d[0] if d else y[1]
        self.drop(new)
        x[2].append([spelt, list(v[1])])

    def addtoloop(self, old, data):
        for n, v in data:
            self.set(n, v)
        for n, v in data:
            self.addloopname(old, n)

    def loopset(self, old, n, v):
        x, c = self.find(old)
        if c is None or not is_column(v) or len(v[1]) != len(c[1]):
            raise No
        self.set(n, v)
        self.addloopname(old, n)

    def move(self, n, pos):
        x, c = self.find(n)
        if x is None:
            raise No
        at = x[2] if c else self.e
        e = c or x
        at.remove(e)
        at.insert(pos, e)

    def moveloop(self, n, pos):
        x, c = self.find(n)
        if c is None:
            raise No
        self.e.remove(x)
        self.e.insert(pos, x)

    def addrow(self, n, row):
        x, c = self.find(n)
        if c is None or any(k[0].lower() not in row for k in x[2]):
            raise No
        for k in x[2]:
            k[1].append(row[k[0].lower()])

    def droprow(self, n, v):
        x, c = self.find(n)
        if x is not None and c is None:
            raise Unsupported('not in a loop')
        if c is None or not any(e is v for e in c[1]):
            raise No
        at = [e is v for e in c[1]].index(True)
        for k in x[2]:
            del k[1][at]

    def merge(self, other, mode):
        if mode == 'strict' and {n.lower() for n in self.names()} & {n.lower() for n in other.names()}:
            raise No
        for x in other.e:
            if x[0] == 'loop':
                for n, col in x[2]:
                    self.drop(n)
                self.e.append(['loop', self.number(), [list(c) for c in x[2]]])
            else:
                if self.find(x[1])[1] is not None:
                    self.drop(x[1])
                self.set(x[1], x[2])
        self.loose = True

    def want(self):
        return [('item', x[1], x[2]) if x[0] == 'item' else
                ('loop', [c[0] for c in x[2]], [v for row in zip(*[c[1] for c in x[2]]) for v in row]) for x in self.e]


# ---- the same operations on the object

def loop(it, b, n):
    return it.call(it.getattr(b, 'GetLoop'), [n])


def build(it, elements, cls='StarBlock'):
    b = it.call(it.globals.vars[cls], [])
    for x in elements:
        for n, v in ([(x[1], x[2])] if x[0] == 'item' else [(c[0], ('column', c[1])) for c in x[2]]):
            it.call(it.getattr(b, '__setitem__'), [n, value(it, v)])
        if x[0] == 'loop':
            it.call(it.getattr(b, 'CreateLoop'), [[c[0] for c in x[2]]])
    return b


def apply(it, b, op):
    k, a = op[0], op[1:]
    m = lambda name, *x, **kw: it.call(it.getattr(b, name), list(x), kw)
    if k == 'set':
        m('__setitem__', a[0], value(it, a[1]))
    elif k == 'add':
        m('AddItem', a[0], value(it, a[1]))
    elif k == 'update':
        m('update', dict((n, value(it, v)) for n, v in a[0]))
    elif k == 'delete':
        m('__delitem__', a[0])
    elif k == 'remove':
        m('RemoveItem', a[0])
    elif k == 'createloop':
        m('CreateLoop', list(a[0]), **({'order': a[1]} if len(a) > 1 else {}))
    elif k == 'addloopname':
        m('AddLoopName', *a)
    elif k == 'addtoloop':
        m('AddToLoop', a[0], dict((n, value(it, v)) for n, v in a[1]))
    elif k == 'loopset':
        it.call(it.getattr(loop(it, b, a[0]), '__setitem__'), [a[1], value(it, a[2])])
    elif k == 'move':
        m('ChangeItemOrder', *a)
    elif k == 'loopmove':
        it.call(it.getattr(loop(it, b, a[0]), 'ChangeItemOrder'), list(a))
    elif k == 'moveloop':
        m('ChangeItemOrder', m('FindLoop', a[0]), a[1])
    elif k == 'addrow':
        it.call(it.getattr(loop(it, b, a[0]), 'AddPacket'), [Row(dict(a[1]))])
    elif k == 'copyrow':
        lp = loop(it, b, a[0])
        it.call(it.getattr(lp, 'AddPacket'), [it.call(it.getattr(lp, '__getitem__'), [a[1]])])
    elif k == 'droprow':
        m('RemoveKeyedPacket', *a)
    elif k == 'merge':
        m('merge', build(it, a[0]), a[1])
    elif k == 'copy':
        return m('copy')
    elif k == 'clear':
        m('clear')
    elif k == 'construct':
        return it.call(it.globals.vars[b.cls.name], [b])
    else:
        raise AnalysisBroken('no operation %s' % k)
    return b


def expect(model, op):
    """-> (the model afterwards, False) or (None, True) if it is to be refused; raises Unsupported if nothing is documented"""
    m = model.copy()
    k, a = op[0], op[1:]
    try:
        if k in ('set', 'add'):
            m.set(*a)
        elif k == 'update':
            for n, v in a[0]:
                m.set(n, v)
        elif k == 'delete' or k == 'remove':
            m.delete(a[0])
        elif k == 'addrow':
            m.addrow(a[0], {n.lower(): v for n, v in a[1]})
        elif k == 'copyrow':
            x, c = m.find(a[0])
            if c is None or a[1] >= len(c[1]):
                raise No
            m.addrow(a[0], {c[0].lower(): c[1][a[1]] for c in x[2]})
        elif k == 'merge':
            m.merge(Model(a[0]), a[1])
        elif k == 'loopmove':
            if m.find(a[0])[1] is None:
                raise No
            m.move(*a)
        elif k in ('copy', 'construct'):
            pass
        elif k == 'clear':
            m = Model()
        else:
            getattr(m, k)(*a)
    except No:
        return None, True
    return m, False


def flat(want):
    """items and columns whatever their order"""
    out = {}
    for w in want:
        if w[0] == 'item':
            out[w[1]] = (None, reading_value(w[2]))
        else:
            k = len(w[1])
            for i, n in enumerate(w[1]):
                out[n] = (tuple(w[1]), tuple(reading_value(v) for v in w[2][i::k]))
    return out


def reading_value(v):
    return repr(v) if not isinstance(v, tuple) else tuple(reading_value(x) for x in v)


def same(want, got):
    if is_column(want):
        return isinstance(got, list) and not isinstance(got, AList) and len(got) == len(want[1]) and all(
            same(x, y) for x, y in zip(want[1], got))
    if isinstance(want, tuple) and want[0] == 'list':
        return isinstance(got, AList) and got.cls.name == 'StarList' and len(got) == len(want[1]) and all(
            same(x, y) for x, y in zip(want[1], got))
    if isinstance(want, tuple) and want[0] == 'table':
        return isinstance(got, ADict) and len(got) == len(want[1]) and all(
            a is c and same(b, d) for (a, b), (c, d) in zip(want[1], got.items()))
    if isinstance(want, (int, float)):
        return type(want) is type(got) and want == got
    return want is got


def differs(it, b, model):
    """None or how the block differs from the model"""
    order = list(it.call(it.getattr(b, 'GetItemOrder'), []))
    want = model.e
    if len(order) != len(want):
        return '%d items and loops instead of %d' % (len(order), len(want))
    loops = it.getattr(b, 'loops')
    if model.loose:
        here = []
        for w in want:
            for o in order:
                if (w[0] == 'item' and o == w[1].lower()) or (
                        w[0] == 'loop' and isinstance(o, int) and list(loops[o]) == [c[0].lower() for c in w[2]]):
                    here.append(o)
                    break
            else:
                return '%s is not there' % (w[1] if w[0] == 'item' else 'loop of %s' % [c[0] for c in w[2]],)
        order = here
    n = 0
    spelt = it.getattr(b, 'true_case')
    for o, w in zip(order, want):
        if w[0] == 'item':
            if o != w[1].lower():
                return '%r where %r is expected' % (o if not isinstance(o, int) else 'loop of %s' % loops[o], w[1])
            cols = [(w[1], w[2])]
        else:
            if not isinstance(o, int):
                return '%r where the loop of %s is expected' % (o, [c[0] for c in w[2]])
            if list(loops[o]) != [c[0].lower() for c in w[2]]:
                return 'loop of %s instead of %s' % (list(loops[o]), [c[0] for c in w[2]])
            cols = [(c[0], ('column', c[1])) for c in w[2]]
        for name, v in cols:
            n += 1
            try:
                got = it.call(it.getattr(b, '__getitem__'), [name])
            except Raise as r:
                return '%r cannot be read: %s' % (name, exc_name(r.exc))
            if not same(v, got):
                return '%r has another value' % (name,)
            if spelt.get(name.lower()) != name:
                return '%r is spelt %r' % (name, spelt.get(name.lower()))
    if len(it.call(it.getattr(b, 'keys'), [])) != n:
        return 'other names'
    return None


# ---- histories

def T(n, cache={}):
    return cache.setdefault(n, Text(n))


A, B, C, D, E, F = [Name(c) for c in 'abcdef']
STARTS = [
    ('an empty block', []),
    ('a, loop b c, d', [['item', A, T('a')], ['loop', 1, [[B, [T('b1'), T('b2')]], [C, [T('c1'), T('c2')]]]], ['item', D, T('d')]]),
    ('loop A, loop b c, a column', [['loop', 1, [[Name('a', 1), [T('a1'), T('a2')]]]],
                                    ['loop', 2, [[B, [T('b1'), T('b2')]], [Name('c', 1), [1, 2.5]]]],
                                    ['item', D, ('column', [T('d1'), T('d2')])]]),
    ('numbers and lists', [['item', A, 5], ['item', B, ('list', (T('b'), ('list', ())))], ['item', C, ('table', ((T('k'), T('c')),))],
                           ['loop', 1, [[D, [('list', (T('d'), 1)), ('list', ())]], [E, [0, 2]]]]]),
]


def menu(deep):
    U = {n: Name(n.root, 1) for n in (A, B, C, D, E, F)}
    one, two, three = (lambda s: ('column', [T(s + '1')])), (lambda s: ('column', [T(s + '1'), T(s + '2')])), (
        lambda s: ('column', [T(s + '1'), T(s + '2'), T(s + '3')]))
    yield ('set', A, T('x'))
    yield ('set', U[A], T('y'))
    yield ('set', U[D], 7)
    yield ('set', D, 0)
    yield ('set', E, ('list', (T('l'),)))
    yield ('set', E, two('e'))
    yield ('set', F, ('column', [1, 2]))
    yield ('set', U[F], three('f'))
    yield ('set', U[B], two('g'))
    yield ('set', C, ('column', [3, T('h')]))
    yield ('set', E, ('column', [('list', (T('i'),)), ('list', ())]))
    yield ('add', F, T('z'))
    yield ('update', ((A, T('u')), (U[F], 1.5)))
    for n in (A, U[B], C, U[D], E):
        yield ('delete', n)
    yield ('remove', U[A])
    yield ('createloop', (A, D))
    yield ('createloop', (U[E],))
    yield ('createloop', (E, U[F]))
    yield ('createloop', (B, D))
    yield ('createloop', (U[D], C, A), 0)
    yield ('createloop', (A,), 1)
    yield ('createloop', (D,), 1)
    yield ('createloop', (E, D), 0)
    yield ('createloop', (A, U[A]))
    yield ('createloop', ())
    for a, b in ((B, E), (U[B], U[D]), (C, U[B]), (U[A], B), (A, C), (F, A), (B, F)):
        yield ('addloopname', a, b)
    yield ('addtoloop', B, ((E, two('p')), (U[C], two('q'))))
    yield ('addtoloop', U[A], ((D, two('r')),))
    yield ('loopset', U[B], E, two('s'))
    yield ('loopset', B, U[C], two('t'))
    yield ('loopset', B, D, ('column', [8, 9]))
    yield ('loopset', C, E, three('w'))
    for n, p in ((A, 1), (U[D], 0), (B, 1), (U[C], 0), (E, 0)):
        yield ('move', n, p)
    yield ('loopmove', C, 0)
    yield ('loopmove', U[B], 1)
    for n, p in ((B, 0), (U[A], 1), (D, 2), (C, 2)):
        yield ('moveloop', n, p)
    full = tuple((n, T('row' + n.root)) for n in (A, B, C, D, E, F))
    yield ('addrow', B, full)
    yield ('addrow', U[A], full)
    yield ('addrow', D, tuple((n, 3) for n, v in full))
    yield ('addrow', E, full[:2])
    yield ('copyrow', B, 0)
    yield ('copyrow', U[A], 1)
    yield ('copyrow', D, 0)
    yield ('droprow', B, T('b1'))
    yield ('droprow', U[C], T('c2'))
    yield ('droprow', U[A], T('a2'))
    yield ('droprow', A, T('nothing'))
    X, Y = Name('x'), Name('y')
    yield ('merge', (('item', X, T('m')), ('loop', 1, [[Y, [T('y1'), T('y2'), T('y3')]]])), 'strict')
    yield ('merge', (('item', X, T('m')), ('item', U[A], T('n'))), 'strict')
    yield ('merge', (('item', U[A], T('n')), ('item', X, ('list', (T('o'),)))), 'replace')
    yield ('merge', (('loop', 1, [[B, [T('n1')]], [X, [T('n2')]]]), ('item', D, T('k'))), 'replace')
    yield ('merge', (('loop', 1, [[D, [T('n1'), T('n3')]]]), ('item', U[B], T('k'))), 'replace')
    yield ('clear',)
    yield ('copy',)
    yield ('construct',)


def show(op):
    def v(x):
        if isinstance(x, tuple):
            return '(%s)' % ', '.join(v(y) for y in x)
        return repr(x)
    return '%s%s' % (op[0], v(op[1:]))


def histories(deep):
    ops = list(menu(deep))
    for label, start in STARTS:
        for n in range(0, 2):
            for h in itertools.product(ops, repeat=n):
                yield label, start, h
    few = [o for i, o in enumerate(ops)]
    for label, start in STARTS:
        for h in itertools.product(few, ops):
            yield label, start, h


def follow(start, ops, cls='StarBlock', which=('StarFile',)):
    """-> (number of operations followed, None or (rule, text))"""
    it = EditInterp(mini.Decisions(), [tree(w) for w in which])
    model = Model(start).copy()
    b = build(it, start, cls)
    d = differs(it, b, model)
    if d:
        return 0, ('built', d), None, None, None
    for i, op in enumerate(ops):
        try:
            m, no = expect(model, op)
        except Unsupported:
            return i, None, it, b, None      # outside what is documented
        try:
            r = apply(it, b, op)
        except Raise as x:
            if no:
                d = differs(it, b, model)
                if d and op[0] not in ('update', 'addtoloop'):
                    return i, ('refused', 'after %s was refused: %s' % (show(op), d)), it, b, model
                if d:
                    return i, None, it, b, None
                continue
            return i, ('refused', '%s is refused: %s' % (show(op), exc_name(x.exc))), it, b, model
        if no:
            return i, ('accepted', '%s is not refused' % show(op)), it, b, model
        model, b = m, r
        d = differs(it, b, model)
        if d:
            return i, ('effect', 'after %s: %s' % (show(op), d)), it, b, model
    return len(ops), None, it, b, model


# ---- collections of blocks

class Files:
    """blocks in the order in which they were put in: [name, parent entry or None, text of its only item]"""

    def __init__(self, standard, e=()):
        self.standard = standard
        self.e = list(e)

    def copy(self):
        m = Files(self.standard)
        at = {id(x): [x[0], None, x[2]] for x in self.e}
        for x in self.e:
            at[id(x)][1] = at[id(x[1])] if x[1] is not None else None
        m.e = [at[id(x)] for x in self.e]
        return m

    def find(self, n):
        for x in self.e:
            if x[0].lower() == n.lower():
                return x
        return None

    def new(self, n, v, parent=None):
        p = None
        if parent is not None:
            p = self.find(parent)
            if p is None:
                raise No
        old = self.find(n)
        if old is not None:
            if self.standard is not None:
                if (old[1] is None) != (p is None):
                    raise Unsupported('a frame called like a block')
                raise No
            if p is not None and any(p is y for y in self.family(old)):
                raise No
            self.remove(n)
        self.e.append([n, p, v])

    def family(self, x):
        out = [x]
        while True:
            more = [y for y in self.e if y[1] is not None and any(y[1] is z for z in out) and not any(y is z for z in out)]
            if not more:
                return out
            out += more

    def remove(self, n):
        x = self.find(n)
        if x is None:
            raise No
        gone = self.family(x)
        self.e = [y for y in self.e if not any(y is z for z in gone)]

    def rename(self, a, b):
        x = self.find(a)
        if x is None or self.find(b) is not None:
            raise No
        x[0] = b

    def set_parent(self, p, c):
        x, y = self.find(p), self.find(c)
        if x is None or y is None:
            raise No
        if any(x is z for z in self.family(y)):
            raise Unsupported('a block inside itself')
        y[1] = x

    def merge(self, other, parent=None):
        p = None
        if parent is not None:
            p = self.find(parent)
        o = other.copy()
        for x in o.e:
            y = self.find(x[0])
            if y is not None:
                if self.standard is None:
                    raise Unsupported('merging replaces')
                if y[1] is None and x[1] is None and p is None:
                    raise No
                raise Unsupported('equal names')
        for x in o.e:
            if x[1] is None:
                x[1] = p
            self.e.append(x)

    def tree(self):
        def of(p):
            return [(x[0], [('item', ITEM, x[2])], of(x)) for x in self.e if x[1] is p]
        return of(None)


ITEM = Name('i')


def a_block(it, v):
    b = it.call(it.globals.vars['StarBlock'], [])
    it.call(it.getattr(b, '__setitem__'), [ITEM, v])
    return b


def fill(it, f, entries):
    for x in entries:
        it.call(it.getattr(f, 'NewBlock'), [x[0], a_block(it, x[2])], {'parent': x[1][0]} if x[1] is not None else {})
    return f


def change(it, f, op):
    k, a = op[0], op[1:]
    m = lambda name, *x, **kw: it.call(it.getattr(f, name), list(x), kw)
    if k == 'new':
        m('NewBlock', a[0], a_block(it, a[1]), **({'parent': a[2]} if len(a) > 2 else {}))
    elif k == 'put':
        m('__setitem__', a[0], a_block(it, a[1]))
    elif k == 'remove':
        m('__delitem__', a[0])
    elif k in ('rename', 'set_parent'):
        m(k, *a)
    elif k == 'clear':
        m('clear')
    elif k == 'update':
        m('update', dict((n, a_block(it, v)) for n, v in a[0]))
    elif k == 'merge':
        other = fill(it, it.call(it.globals.vars['StarFile'], [], {'standard': 'CIF'}), a[0])
        m('merge_fast', other, **({'parent': m('__getitem__', a[1])} if len(a) > 1 else {}))
    elif k == 'copy':
        return m('copy')
    elif k == 'construct':
        return it.call(it.globals.vars['StarFile'], [], {'datasource': f, 'standard': it.getattr(f, 'standard')})
    elif k == 'scope':
        it.setattr(f, 'scoping', a[0])
    return f


def changed(model, op):
    m = model.copy()
    k, a = op[0], op[1:]
    try:
        if k in ('new', 'put'):
            m.new(*a)
        elif k == 'merge':
            m.merge(Files('CIF', a[0]), *a[1:])
        elif k in ('copy', 'construct', 'scope'):
            pass
        elif k == 'clear':
            m.e = []
        elif k == 'update':
            for n, v in a[0]:
                m.new(n, v)
        else:
            getattr(m, k)(*a)
    except No:
        return None, True
    return m, False


def file_differs(it, f, model):
    order = list(it.getattr(f, 'block_input_order'))
    table = it.getattr(f, 'child_table')
    if len(order) != len(model.e) or len(table) != len(model.e):
        return '%d blocks instead of %d' % (len(order), len(model.e))
    for k, x in zip(order, model.e):
        if k != x[0].lower() or table[k].block_id != x[0]:
            return 'block %r where %r is expected' % (table[k].block_id, x[0])
        if table[k].parent != (x[1][0].lower() if x[1] is not None else None):
            return 'block %r stands in %r' % (x[0], table[k].parent)
        try:
            b = it.getitem(f, x[0])
            v = it.call(it.getattr(b, '__getitem__'), [ITEM])
        except Raise as r:
            return 'block %r cannot be read: %s' % (x[0], exc_name(r.exc))
        if v is not x[2]:
            return 'block %r has the contents of another one' % (x[0],)
        if it.call(it.getattr(f, 'get_parent'), [x[0]]) != (x[1][0].lower() if x[1] is not None else None):
            return 'the parent of %r is another block' % (x[0],)
        kids = it.call(it.getattr(f, 'get_immediate_children'), [x[0]])
        if [c[1].block_id for c in kids] != [y[0] for y in model.e if y[1] is x]:
            return 'the frames in %r are not those put there, in that order' % (x[0],)
        if set(it.call(it.getattr(f, 'get_child_list'), [x[0]])) != {y[0].lower() for y in model.family(x)[1:]}:
            return 'the frames below %r are other ones' % (x[0],)
    every = it.getattr(f, 'scoping') == 'dictionary'
    see = [x[0].lower() for x in model.e if every or x[1] is None]
    keys = list(it.call(it.getattr(f, 'keys'), []))
    if len(keys) != len(see) or set(keys) != set(see):
        return 'other blocks are to be seen: %s, not %s' % (keys, see)
    roots = it.call(it.getattr(f, 'get_roots'), [])
    if {r[1].block_id for r in roots} != {x[0] for x in model.e if x[1] is None} or len(roots) != len([x for x in model.e if x[1] is None]):
        return 'the top blocks are other ones'
    return None


def file_starts():
    P, Q, R, S = Name('p'), Name('q', 1), Name('r'), Name('s', 1)
    yield 'no blocks', []
    p, q = [P, None, T('1')], [Q, None, T('2')]
    r = [R, p, T('3')]
    s = [S, p, T('4')]
    yield 'p(r S) Q', [p, r, q, s]
    r2 = [R, p, T('3')]
    yield 'p(r(S)) Q', [p, r2, [S, r2, T('4')], q]


def file_menu():
    P, Q, R, S, X, Y = [Name(c) for c in 'pqrsxy']
    U = lambda n: Name(n.root, 1)
    yield ('new', X, T('x'))
    yield ('new', U(P), T('x2'))
    yield ('put', U(X), T('x3'))
    yield ('put', Q, T('x4'))
    yield ('new', Y, T('y'), U(P))
    yield ('new', U(Y), T('y2'), R)
    yield ('new', R, T('y3'), U(P))
    yield ('new', S, T('y4'), Q)
    yield ('new', Y, T('y5'), X)
    for n in (U(P), Q, R, S, X):
        yield ('remove', n)
    yield ('rename', P, U(X))
    yield ('rename', U(R), Y)
    yield ('rename', S, X)
    yield ('rename', Q, U(R))
    yield ('rename', P, U(P))
    yield ('set_parent', U(P), Q)
    yield ('set_parent', Q, U(R))
    yield ('set_parent', S, P)
    yield ('set_parent', R, U(S))
    yield ('set_parent', P, X)
    x = [U(X), None, T('mx')]
    yield ('merge', (x, [Y, x, T('my')]))
    yield ('merge', (x, [Y, None, T('my')]), Q)
    yield ('merge', ([P, None, T('mp')],))
    yield ('clear',)
    yield ('update', ((X, T('u1')), (U(Y), T('u2'))))
    yield ('update', ((U(X), T('u3')),))
    yield ('copy',)
    yield ('construct',)
    yield ('scope', 'dictionary')
    yield ('scope', 'instance')


def file_histories(deep):
    ops = list(file_menu())
    for standard in ('CIF', None, 'Dic'):
        for label, start in file_starts():
            for n in range(0, 3 if standard == 'CIF' or deep else 2):
                for h in itertools.product(ops, repeat=n):
                    yield standard, label, start, h


def follow_file(standard, start, ops):
    it = EditInterp(mini.Decisions(), [tree('StarFile')])
    model = Files(standard, start).copy()
    f = fill(it, it.call(it.globals.vars['StarFile'], [], {'standard': standard}), start)
    d = file_differs(it, f, model)
    if d:
        return 0, ('built', d), it, f, None
    for i, op in enumerate(ops):
        try:
            m, no = changed(model, op)
        except Unsupported:
            return i, None, it, f, None
        if op[0] == 'merge' and len(op) > 2 and model.find(op[2]) is None:
            return i, None, it, f, None
        try:
            r = change(it, f, op)
        except Raise as x:
            if not no:
                return i, ('refused', '%s is refused: %s' % (show(op), exc_name(x.exc))), it, f, model
            d = file_differs(it, f, model)
            if d:
                return i, ('refused', 'after %s was refused: %s' % (show(op), d)), it, f, model
            continue
        if no:
            return i, ('accepted', '%s is not refused' % show(op)), it, f, model
        model, f = m, r
        if op[0] in ('copy', 'construct'):
            if op[0] == 'construct':
                it.setattr(f, 'scoping', 'instance')
        d = file_differs(it, f, model)
        if d:
            return i, ('effect', 'after %s: %s' % (show(op), d)), it, f, model
    return len(ops), None, it, f, model

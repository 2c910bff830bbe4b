"""Questions: everything that only asks is called on blocks, loops and collections of several forms, and after single operations; the
answer is compared with the model, the object with what it was before, and lists given out with the ones kept."""
import os
from multiprocessing import Pool

from sa import mini
from sa.mini import Inst, Native, Raise, Unsupported
from sa.program import AnalysisBroken
from . import editing, reading, writing
from .c15 import parts
from .editing import T, is_column, same
from .reading import AList, Name
from .scanner import exc_name

PARTS = 16
A, B, C, D, E, F = editing.A, editing.B, editing.C, editing.D, editing.E, editing.F
NAMES = (A, B, C, D, E, F)
K = Name('key')
L = Name('lock')


def upper(n):
    return Name(n.root, 1)


STARTS = editing.STARTS + [
    ('keys', [['item', A, T('a')], ['loop', 1, [[B, [K, upper(K), L]], [C, [T('c1'), T('c2'), T('c1')]], [D, [L, L, K]]]],
              ['item', Name('f', 1), T('f')]]),
    ('numbers as keys', [['loop', 1, [[B, [1, 2, 1]], [Name('c', 1), [T('c1'), T('c1'), T('c2')]]]], ['loop', 2, [[A, [T('a1')]]]]]),
]

# an answer is compared as: ('=', value) ('names', set) ('row', {name: value}) ('rows', [..]) ('raises', classes) ('any',) ('loop', number)


def cell(n, v):
    return v


def columns(m, n):
    """the columns of the loop that holds n"""
    x, c = m.find(n)
    return x[2] if c is not None else None


def rows(cols):
    return [{c[0].lower(): c[1][i] for c in cols} for i in range(len(cols[0][1]))]


def block_questions(m, everything):
    """-> label, f(it, b), the answer"""
    names = m.names()
    low = [n.lower() for n in names]
    call = lambda name, *a: (lambda it, b: it.call(it.getattr(b, name), list(a)))
    yield 'keys()', call('keys'), ('names', low)
    yield 'values()', call('values'), ('values', [m.get(n) for n in names])
    yield 'items()', call('items'), ('items', [(n.lower(), m.get(n)) for n in names])
    yield 'len', call('__len__'), ('=', len(names))
    yield 'truth', call('__nonzero__'), ('=', 1 if names else 0)
    if not m.loose:
        yield 'GetItemOrder()', call('GetItemOrder'), ('order', [x[1].lower() if x[0] == 'item' else [c[0].lower() for c in x[2]] for x in m.e])
    yield 'str', call('__str__'), ('any',)
    yield 'in, of a number', (lambda it, b: it.contains(b, 1)), ('=', False)
    for n in NAMES:
        for q in (n, upper(n)):
            x, c = m.find(q)
            yes = x is not None
            yield '%r in' % q, (lambda it, b, q=q: it.contains(b, q)), ('=', yes)
            yield 'has_key(%r)' % q, call('has_key', q), ('=', yes)
            yield 'has_key_or_alias(%r)' % q, call('has_key_or_alias', q), ('=', yes)
            v = ('=', m.get(q)) if yes else ('raises', (KeyError,))
            yield '[%r]' % q, call('__getitem__', q), v
            yield 'GetItemValue(%r)' % q, call('GetItemValue', q), v
            yield 'GetFullItemValue(%r)' % q, call('GetFullItemValue', q), ('pair', m.get(q)) if yes else ('raises', (KeyError,))
            yield 'get(%r)' % q, call('get', q), ('=', m.get(q) if yes else None)
            yield 'get(%r, default)' % q, call('get', q, T('default')), ('=', m.get(q) if yes else T('default'))
            if not m.loose or c is not None or not yes:
                yield 'GetItemPosition(%r)' % q, call('GetItemPosition', q), (
                ('position', x, [k[0] for k in x[2]].index(c[0]) if c is not None else m.e.index(x)) if yes else ('raises', (ValueError,)))
            yield 'FindLoop(%r)' % q, call('FindLoop', q), ('loop', x) if c is not None else ('=', -1)
            yield 'GetLoopNames(%r)' % q, call('GetLoopNames', q), (
                ('=', ('column', [k[0].lower() for k in x[2]])) if c is not None else ('raises', (KeyError,)))
            if c is None:
                yield 'GetLoop(%r)' % q, call('GetLoop', q), ('raises', (KeyError,))
                yield 'GetKeyedPacket(%r)' % q, call('GetKeyedPacket', q, T('a')), ('raises', (KeyError,))
                yield 'GetCompoundKeyedPacket(%r)' % q, call('GetCompoundKeyedPacket', {q: (T('a'), False)}), ('raises', (KeyError,))
                continue
            loop = lambda name, *a, q=q: (lambda it, b: it.call(it.getattr(it.call(it.getattr(b, 'GetLoop'), [q]), name), list(a)))
            cols = x[2]
            yield 'GetLoop(%r).keys()' % q, loop('keys'), ('=', ('column', [k[0].lower() for k in cols]))
            yield 'GetLoop(%r).values()' % q, loop('values'), ('=', ('column', [('column', k[1]) for k in cols]))
            yield 'GetLoop(%r).items()' % q, loop('items'), ('items', [(k[0].lower(), ('column', k[1])) for k in cols])
            yield 'GetLoop(%r).GetItemOrder()' % q, loop('GetItemOrder'), ('=', ('column', [k[0].lower() for k in cols]))
            yield 'GetLoop(%r) at its packets' % q, (lambda it, b, q=q: list(it.iterate(it.call(it.getattr(b, 'GetLoop'), [q])))), ('rows', cols)
            for p in NAMES:
                for o in (p, upper(p)):
                    mine = [k for k in cols if k[0].lower() == o.lower()]
                    yield '%r in GetLoop(%r)' % (o, q), (lambda it, b, o=o, q=q: it.contains(it.call(it.getattr(b, 'GetLoop'), [q]), o)), (
                        '=', bool(mine))
                    yield 'GetLoop(%r).has_key(%r)' % (q, o), loop('has_key', o), ('=', bool(mine))
                    yield 'GetLoop(%r)[%r]' % (q, o), loop('__getitem__', o), (
                        ('=', ('column', mine[0][1])) if mine else ('raises', (KeyError,)))
                    beside = columns(m, o)
                    yield 'GetLoop(%r).GetLoopNames(%r)' % (q, o), loop('GetLoopNames', o), (
                        ('=', ('column', [k[0].lower() for k in beside])) if beside else ('raises', (KeyError,)))
            n_rows = len(cols[0][1])
            for i in range(n_rows + 1):
                want = ('row', cols, i) if i < n_rows else ('raises', (IndexError,))
                yield 'GetLoop(%r).GetPacket(%s)' % (q, i), loop('GetPacket', i), want
                yield 'GetLoop(%r)[%s]' % (q, i), loop('__getitem__', i), want
            values = list(c[1]) + [T('none')]
            for v in values:
                for nc in (False, True):
                    if isinstance(v, tuple) or nc and not all(isinstance(z, Name) for z in c[1] + [v]):
                        continue
                    fits = [i for i, z in enumerate(c[1]) if (z.lower() == v.lower() if nc else equal(z, v))]
                    want = ('row', cols, fits[0]) if len(fits) == 1 else ('raises', (ValueError,))
                    yield 'GetKeyedPacket(%r, %r%s)' % (q, v, ', no_case' if nc else ''), call('GetKeyedPacket', q, editing_value(v), *([True] if nc else [])), want
                    yield 'GetCompoundKeyedPacket(%r: %r)' % (q, (v, nc)), call('GetCompoundKeyedPacket', {q: (editing_value(v), nc)}), want
                    for k in cols:
                        if k is c or not everything:
                            continue
                        for w in k[1][:2] + [T('none')]:
                            for nw in (False, True):
                                if isinstance(w, tuple) or nw and not all(isinstance(z, Name) for z in k[1] + [w]):
                                    continue
                                fits = [i for i, z in enumerate(c[1]) if (z.lower() == v.lower() if nc else equal(z, v)) and (
                                    k[1][i].lower() == w.lower() if nw else equal(k[1][i], w))]
                                want = ('row', cols, fits[0]) if len(fits) == 1 else ('raises', (ValueError,))
                                yield 'GetCompoundKeyedPacket(%r: %r, %r: %r)' % (q, (v, nc), k[0], (w, nw)), call(
                                    'GetCompoundKeyedPacket', {q: (editing_value(v), nc), k[0]: (editing_value(w), nw)}), want
    for x in m.e:
        if x[0] == 'loop' and not m.loose:
            yield 'GetItemPosition of the loop of %s' % [k[0] for k in x[2]], (
                lambda it, b, x=x: it.call(it.getattr(b, 'GetItemPosition'), [it.call(it.getattr(b, 'FindLoop'), [x[2][0][0]])])), (
                '=', (-1, m.e.index(x)))
            break


def editing_value(v):
    return v


def equal(a, b):
    return a is b or a == b


def file_questions(m, scoping):
    call = lambda name, *a, **kw: (lambda it, f: it.call(it.getattr(f, name), list(a), kw))
    every = scoping == 'dictionary'
    see = [x for x in m.e if every or x[1] is None]
    low = lambda xs: [x[0].lower() for x in xs]
    yield 'keys()', call('keys'), ('names', low(see))
    yield 'len', call('__len__'), ('=', len(see))
    yield 'items()', call('items'), ('blocks', see)
    yield 'iteration', (lambda it, f: [(None, b) for b in it.iterate(f)]), ('its blocks', see)
    yield 'first_block()', call('first_block'), ('one of', see) if see else ('=', None)
    yield 'get_all', call('get_all', editing.ITEM), ('all', [x[2] for x in see])
    yield 'get_all of nothing', call('get_all', Name('nothing')), ('all', [])
    yield 'get_roots()', call('get_roots'), ('handles', [x for x in m.e if x[1] is None])
    yield 'str', call('__str__'), ('any',)
    yield 'WriteOut()', call('WriteOut'), ('any',)
    yield 'in, of a number', (lambda it, b: it.contains(b, 1)), ('=', False)
    for r in 'pqrsxy':
        for n in (Name(r), Name(r, 1)):
            x = m.find(n)
            seen = x is not None and any(x is y for y in see)
            yield '%r in' % n, (lambda it, f, n=n: it.contains(f, n)), ('=', seen)
            yield 'has_key(%r)' % n, call('has_key', n), ('=', seen)
            yield '[%r]' % n, call('__getitem__', n), ('block', x) if x is not None else ('raises', (KeyError,))
            yield 'get(%r)' % n, call('get', n), ('block', x) if seen else ('=', None)
            yield 'get(%r, default)' % n, call('get', n, T('default')), ('block', x) if seen else ('=', T('default'))
            if x is None:
                yield 'get_parent(%r)' % n, call('get_parent', n), ('refuses',)
                continue
            yield 'get_parent(%r)' % n, call('get_parent', n), ('=', x[1][0].lower() if x[1] is not None else None)
            fam = m.family(x)
            below = [y for y in m.e if any(y is z for z in fam) and y is not x]
            yield 'get_immediate_children(%r)' % n, call('get_immediate_children', n), ('handles in order', [y for y in m.e if y[1] is x])
            yield 'get_child_list(%r)' % n, call('get_child_list', n), ('names', low(below))
            for o in m.e:
                yield 'is_child_of_parent(%r, %r)' % (n, o[0]), call('is_child_of_parent', n, o[0]), ('=', any(o is y for y in below))
            yield 'get_children(%r)' % n, call('get_children', n), ('collection', below, x)
            yield 'get_children(%r, include_parent)' % n, call('get_children', n, include_parent=True), (
                'collection', [y for y in m.e if any(y is z for z in fam)], x[1])
            for o in m.e:
                chosen = [y for y in m.e if y is x or y is o]
                yield 'makebc(%r, %r)' % (n, o[0]), call('makebc', [n, o[0]]), ('collection', chosen, None)
            yield 'checknamelengths', (lambda it, f, n=n: it.call(it.getattr(f, 'checknamelengths'), [it.getitem(f, n)], {'maxlength': -1})), ('=', None)


def sub(m, entries):
    """the model of a collection of these blocks"""
    out = editing.Files('CIF')
    at = {id(x): [x[0], None, x[2]] for x in entries}
    for x in entries:
        y = at[id(x)]
        if x[1] is not None and id(x[1]) in at:
            y[1] = at[id(x[1])]
        out.e.append(y)
    return out


def judge(it, o, kind, want, got, m):
    """None or what is wrong with an answer"""
    k = want[0]
    if k == 'any':
        return None
    if k == '=':
        w = want[1]
        if w is None or isinstance(w, (bool, tuple)) and not (isinstance(w, tuple) and w and w[0] in ('column', 'list', 'table')):
            ok = got == w and type(got) is type(w) if not isinstance(w, bool) else bool(got) is w
        elif isinstance(w, Name):
            ok = got == w
        else:
            ok = answers(w, got)
        return None if ok else 'the answer is %s, not %s' % (say(got), say(w))
    if k == 'names':
        got = list(got)
        return None if len(got) == len(want[1]) and all(any(g == w for g in got) for w in want[1]) else 'the answer is %s, not %s' % (got, want[1])
    if k == 'values':
        left = list(got)
        if len(left) != len(want[1]):
            return '%d values instead of %d' % (len(left), len(want[1]))
        for w in want[1]:
            at = [i for i, g in enumerate(left) if answers(w, g)]
            if not at:
                return 'the value %s is missing' % say(w)
            del left[at[0]]
        return None
    if k == 'items':
        got = list(got)
        if len(got) != len(want[1]):
            return '%d pairs instead of %d' % (len(got), len(want[1]))
        for n, w in want[1]:
            if not any(g[0] == n and answers(w, g[1]) for g in got):
                return '%r and its value are not there' % (n,)
        return None
    if k == 'order':
        loops = it.getattr(o, 'loops')
        here = [list(loops[x]) if isinstance(x, int) else x for x in got]
        return None if here == want[1] else 'the order is %s, not %s' % (here, want[1])
    if k == 'pair':
        return None if isinstance(got, tuple) and len(got) == 2 and answers(want[1], got[0]) else 'the answer is %s' % say(got)
    if k == 'position':
        x = want[1]
        if x[0] == 'item':
            return None if got == (-1, want[2]) else 'the answer is %s' % (got,)
        loops = it.getattr(o, 'loops')
        return None if isinstance(got, tuple) and got[0] in loops and list(loops[got[0]]) == [c[0].lower() for c in x[2]] and got[1] == want[2] else (
            'the answer is %s' % (got,))
    if k == 'loop':
        loops = it.getattr(o, 'loops')
        return None if got in loops and list(loops[got]) == [c[0].lower() for c in want[1][2]] else 'the answer is %s' % (got,)
    if k in ('row', 'rows'):
        cols = want[1]
        for i, g in ([(want[2], got)] if k == 'row' else list(enumerate(got))):
            if not isinstance(g, AList) or g.cls.name != 'StarPacket' or i >= len(cols[0][1]) or len(g) != len(cols):
                return 'packet %d is %s' % (i, say(g))
            for j, c in enumerate(cols):
                if not answers(c[1][i], g[j]):
                    return 'packet %d has the value %s of %r, not %s' % (i, say(g[j]), c[0], say(c[1][i]))
                for n in (c[0].lower(), Name(c[0].root, 1)):
                    try:
                        v = it.b_getattr(g, n)
                    except Raise as r:
                        return 'packet %d has no attribute %r' % (i, n)
                    if not answers(c[1][i], v):
                        return 'packet %d has the value %s of attribute %r' % (i, say(v), n)
        if k == 'rows' and len(got) != len(cols[0][1]):
            return '%d packets instead of %d' % (len(got), len(cols[0][1]))
        return None
    if k in ('block', 'one of', 'blocks', 'its blocks'):
        def is_block(b, x):
            return it.call(it.getattr(b, '__getitem__'), [editing.ITEM]) is x[2]
        if k == 'block':
            return None if isinstance(got, Inst) and is_block(got, want[1]) else 'another block is given'
        if k == 'one of':
            return None if isinstance(got, Inst) and any(is_block(got, x) for x in want[1]) else 'another block is given'
        if len(got) != len(want[1]):
            return '%d blocks instead of %d' % (len(got), len(want[1]))
        for x in want[1]:
            if not any(is_block(b, x) and (n is None or n == x[0].lower()) for n, b in got):
                return 'the block %r is not there' % (x[0],)
        return None
    if k == 'all':
        return None if isinstance(got, list) and len(got) == len(want[1]) and all(any(g is w for g in got) for w in want[1]) else 'the answer is %s' % say(got)
    if k in ('handles', 'handles in order'):
        here = [(h[0], h[1].block_id) for h in got]
        there = [(x[0].lower(), x[0]) for x in want[1]]
        if k == 'handles':
            here, there = sorted(here, key=repr), sorted(there, key=repr)
        return None if here == there else 'the answer is %s, not %s' % (here, there)
    if k == 'collection':
        return editing.file_differs(it, got, sub(m, want[1]))
    raise AnalysisBroken('no answer %s' % k)


def answers(w, g):
    if isinstance(w, Name):
        return isinstance(g, Name) and g == w
    if is_column(w):
        return isinstance(g, list) and len(g) == len(w[1]) and all(answers(a, b) for a, b in zip(w[1], g))
    return same(w, g)


def say(v):
    if isinstance(v, tuple) and v and v[0] == 'column':
        return repr(v[1])
    return repr(v)


FORMAT = writing.FORMAT
LISTS = ('keys()', 'GetItemOrder()', 'GetLoopNames', 'items()', 'values()', 'get_roots()', 'get_immediate_children', 'get_child_list', 'get_all')


def gives_away(o, got, label):
    """lists of names given out that are the ones kept"""
    if not isinstance(got, (list, dict, set)) or isinstance(got, AList):
        return None
    if not any(w in label for w in LISTS) or 'GetLoop(' in label and '.values()' in label:
        return None
    kept = parts(o, 'the object', {})
    if id(got) in kept:
        return kept[id(got)][1]
    return None


def ask(it, o, kind, qs, m):
    out, n = [], 0
    before = writing.freeze(o, FORMAT)
    for label, f, want in qs:
        n += 1
        try:
            got = f(it, o)
        except Raise as r:
            if want[0] == 'refuses' or want[0] == 'raises' and isinstance(r.exc, Inst) and isinstance(r.exc.cls, type) and issubclass(r.exc.cls, want[1]):
                got = None
            else:
                out.append(('answer', label, 'it raises %s' % exc_name(r.exc)))
                got = None
        else:
            if want[0] in ('raises', 'refuses'):
                out.append(('answer', label, 'it is not refused, the answer is %s' % say(got)))
            else:
                d = judge(it, o, kind, want, got, m)
                if d:
                    out.append(('answer', label, d))
            p = gives_away(o, got, label)
            if p:
                out.append(('given out', label, 'the list kept as %s is given out' % p))
        now = writing.freeze(o, FORMAT)
        if now != before:
            out.append(('changed', label, 'it changes %s' % (writing.difference(before, now, 'the object'),)))
            return out, n
    return out, n


WHICH = {'StarBlock': ('StarFile',), 'CifBlock': ('StarFile', 'CifFile_module')}


def cases(kind, deep):
    if kind == 'file':
        for st, label, start, h in editing.file_histories(deep):
            if len(h) < 2 or deep and st == 'CIF':
                yield 'standard %s: %s' % (st, label), h, start, st
        return
    ops = list(editing.menu(deep))
    for label, start in STARTS:
        for h in [()] + [(o,) for i, o in enumerate(ops) if deep or kind == 'StarBlock' or i % 5 == 0]:
            yield label, h, start, None


def one_case(kind, h, start, st, deep):
    if kind == 'file':
        n, bad, it, o, m = editing.follow_file(st, start, h)
        if bad or m is None or n < len(h):
            return None
        writing.prepare(it)
        return ask(it, o, kind, file_questions(m, it.getattr(o, 'scoping')), m)
    n, bad, it, o, m = editing.follow(start, h, kind, WHICH[kind])
    if bad or m is None or n < len(h):
        return None
    writing.prepare(it)
    it.steps = 10 ** 9
    return ask(it, o, kind, block_questions(m, not h or deep), m)


def one(job):
    kind, k, deep, rules = job
    out, n, miss = [], 0, []
    for i, (label, h, start, st) in enumerate(cases(kind, deep)):
        if i % PARTS != k:
            continue
        what = '%s%s' % (label, ''.join('; ' + editing.show(o) for o in h))
        try:
            r = one_case(kind, h, start, st, deep)
        except (AnalysisBroken, Unsupported) as e:
            miss.append('%s: %s' % (what, e))
            continue
        if r is None:
            continue
        n += r[1]
        for rule, q, text in r[0]:
            if rule in rules and sum(x[0] == rule and x[1] == q.split('(')[0] for x in out) < 1:
                out.append((rule, q.split('(')[0], '%s: %s: %s' % (what, q, text)))
    return kind, out, n, miss


def follow(ctx, rules):
    deep = ctx.tier == 'thorough'
    miss = []
    with Pool(min(8, os.cpu_count() or 1)) as pool:
        for kind, out, n, m in pool.imap_unordered(one, [(kind, k, deep, rules) for kind in ('StarBlock', 'CifBlock', 'file') for k in range(PARTS)]):
            ctx.count('questions to a %s' % kind, n)
            miss += m
            for rule, q, text in out:
                ctx.violation(rule, '%s, %s' % (kind, q), text, reading.SF)
    total = sum(v for k, v in ctx.coverage.items() if k.startswith('questions'))
    if miss:
        ctx.coverage['not_followed'] = len(miss)
        ctx.coverage['not_analysed'] = miss[:4]
    if len(miss) * 20 > total and not ctx.found:
        raise AnalysisBroken('%d forms could not be followed: %s' % (len(miss), miss[0]))
    ctx.floor('questions', total, 5000)

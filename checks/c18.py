"""Structure written: WriteOut is interpreted over collections that were read (all families of C14) or put together by operations
(histories of C19), with and without a template; the text, cut into tokens, is read again by the actions of the grammar and compared
with what the object held. The layers beneath: scanners, parsers, the generator."""
import os
from multiprocessing import Pool

from sa import mini
from sa.mini import Raise, Unsupported
from sa.program import AnalysisBroken
from . import c05, c08, c09, c10, c12, editing, gramset, reading, writing
from .reading import FileInterp, Name, tree

GRAMMARS = ('1.0', '1.1', '2.0', 'STAR2')
OTHER = {'1.0': ('2.0',), '1.1': ('STAR2',), '2.0': ('STAR2',), 'STAR2': ()}
PARTS = 4
W = {}


def jobs(deep):
    for g in GRAMMARS:
        for fam, fs in reading.files(g, deep):
            for k in range(PARTS):
                for how in ('plain', 'Dic', 'template', 'order') + tuple('to ' + o for o in OTHER[g]):
                    if fam == 'values' and how in ('Dic', 'order') and not deep:
                        continue
                    yield g, fam, how, k, deep
    for g in ('2.0', 'STAR2', '1.1'):
        for k in range(PARTS):
            yield g, 'edits', 'plain', k, deep
            yield g, 'blocks', 'plain', k, deep
    yield '2.0', 'unequal columns', 'plain', 0, deep
    for g in ('2.0', 'STAR2'):
        yield g, 'dictionaries', 'Dic', 0, deep


def headings(f):
    def of(es):
        return [x for e in es if e[0] == 'f' for x in [e[1]] + of(e[2])]
    return [x for h, es in f for x in [h] + of(es)]


def attempt(g, how, blocks):
    standard = 'Dic' if how == 'Dic' else 'CIF'
    it = FileInterp(mini.Decisions(), [tree('StarFile')])
    try:
        f = writing.loaded(it, W['grams'][g], blocks, g, standard)
    except (reading.Refused, Raise):
        return None         # C14
    kw, sort, to = {}, None, g
    if how == 'template':
        names = writing.item_names(blocks)
        names = (names[::-1] + [Name('nowhere')] if len(blocks) % 2 else names[1::2])
        it.setattr(f, 'master_template', writing.hints(names, len(names) % 2))
        sort = writing.by_template(names)
    elif how == 'order':
        hs = headings(blocks)
        if len({h.lower().id for h in hs}) < len(hs):
            return None
        kw = {'blockorder': hs[::-1]}
        sort = writing.by_blocks(hs[::-1], g == 'STAR2')
    elif how.startswith('to '):
        to = how[3:]
        it.call(it.getattr(f, 'set_grammar'), [to])
    return writing.written(it, W['grams'][to], f, to, standard, kw, sort)


def expressible(g, b):
    """no lists or tables for grammars without them, and no columns that are not in a loop"""
    def plain(v):
        return not isinstance(v, (tuple, list)) or (g in ('2.0', 'STAR2') and v[0] != 'column' and all(
            plain(e) if not (isinstance(e, tuple) and len(e) == 2 and v[0] == 'table') else plain(e[1]) for e in v[1]))
    return all(plain(v) for x in b.e for v in ([x[2]] if x[0] == 'item' else [v for c in x[2] for v in c[1]]))


def put(it, g, pairs):
    f = it.call(it.globals.vars['StarFile'], [], {'standard': 'CIF'})
    for n, b in pairs:
        it.call(it.getattr(f, '__setitem__'), [n, b])
    it.call(it.getattr(f, 'set_grammar'), [g])
    return f


def scenarios(g, family, deep):
    """-> label, function that gives [(rule, text)] or None"""
    if family == 'edits':
        hs = list(editing.histories(deep))
        step = 1 if deep else 11
        for i, (label, start, h) in enumerate(hs):
            if len(h) < 2 or i % step == 0:
                yield '%s, then %s' % (label, '; '.join(editing.show(o) for o in h)), (lambda start=start, h=h: edited(g, start, h))
    elif family == 'blocks':
        hs = [x for x in editing.file_histories(deep) if x[0] == 'CIF']
        step = 1 if deep else 3
        for i, (st, label, start, h) in enumerate(hs):
            if len(h) < 2 or i % step == 0:
                yield '%s, then %s' % (label, '; '.join(editing.show(o) for o in h)), (lambda start=start, h=h: collected(g, start, h))
    elif family == 'unequal columns':
        for a, b in (([], []), ([1], [1, 2]), ([1, 2], [1]), ([], [1]), ([1, 2], editing.T('xy')), (editing.T('x'), [1])):
            yield 'columns %s and %s' % (a, b), (lambda a=a, b=b: unequal(g, a, b))
    elif family == 'dictionaries':
        word = '_dictionary_valid.application'
        other = [Name(c) for c in 'abcd']
        for n in range(4):
            for at in range(n + 1):
                for looped in (False, True):
                    for want in ([], [word], other[:n], other[:n][::-1] + [word], [word] + other[:n], other[:1] + [word] + other[1:n]):
                        for frame in (False, True):
                            yield 'a dictionary with %s items, the %s %s, template %s' % (n, word, 'in a loop' if looped else at, want), (
                                lambda n=n, at=at, looped=looped, want=want, frame=frame: dictionary(g, other[:n], at, word, looped, want, frame))


def edited(g, start, h):
    n, bad, it, b, model = editing.follow(start, h)
    if bad or model is None or not expressible(g, model):
        return None
    f = put(it, g, [(Name('h', 1), b)])
    return writing.written(it, W['grams'][g], f, g, 'CIF')


def collected(g, start, h):
    n, bad, it, f, model = editing.follow_file('CIF', start, h)
    if bad or model is None:
        return None
    it.setattr(f, 'scoping', 'dictionary')
    it.call(it.getattr(f, 'set_grammar'), [g])
    return writing.written(it, W['grams'][g], f, g, 'CIF')


def unequal(g, x, y):
    it = editing.EditInterp(mini.Decisions(), [tree('StarFile')])
    b = it.call(it.globals.vars['StarBlock'], [])
    A, B = editing.A, editing.B
    for n in (A, B):
        it.setitem(b, n, [editing.T('u'), editing.T('v'), editing.T('w')])
    it.call(it.getattr(b, 'CreateLoop'), [[A, B]])
    for n, v in ((A, x), (B, y)):
        if v == []:
            for i in range(3):
                it.getattr(b, 'block')[n][0].pop()
        else:
            it.setitem(b, n, list(v) if isinstance(v, list) else v)
    f = put(it, g, [(Name('h', 1), b)])
    if x == y == []:
        return writing.written(it, W['grams'][g], f, g, 'CIF')
    writing.prepare(it)
    try:
        it.call(it.getattr(f, 'WriteOut'), [])
    except Raise:
        return []
    return [('cut', 'a loop whose columns are not of one length is written without a complaint')]


def dictionary(g, names, at, word, looped, want, frame):
    it = editing.EditInterp(mini.Decisions(), [tree('StarFile')])
    b = it.call(it.globals.vars['StarBlock'], [])
    order = list(names)
    order.insert(at, word)
    for n in order:
        it.setitem(b, n, editing.T('of %r' % n))
    if looped:
        it.call(it.getattr(b, 'CreateLoop'), [order[at:at + 2]])
    f = it.call(it.globals.vars['StarFile'], [], {'standard': 'Dic'})
    it.setitem(f, Name('h', 1), b)
    if frame:
        s = it.call(it.globals.vars['StarBlock'], [])
        it.setitem(s, Name('s'), editing.T('s'))
        it.call(it.getattr(f, 'NewBlock'), [Name('k'), s], {'parent': Name('h')})
    it.call(it.getattr(f, 'set_grammar'), [g])
    it.setattr(f, 'master_template', writing.hints(want, looped))
    return writing.written(it, W['grams'][g], f, g, 'Dic', {}, writing.by_template(want))


def one(job):
    g, family, how, k, deep = job
    out, done, miss = [], 0, []

    def note(label, f):
        nonlocal done
        try:
            bad = f()
        except (AnalysisBroken, Unsupported) as e:
            miss.append('%s, %s: %s' % (g, label() if callable(label) else label, e))
            return
        if bad is None:
            return
        done += 1
        for rule, text in bad:
            if rule in W['rules'] and sum(r == rule for r, _ in out) < 2:
                out.append((rule, '%s: %s' % (label() if callable(label) else label, text)))
    if family in ('edits', 'blocks', 'unequal columns', 'dictionaries'):
        for i, (label, f) in enumerate(scenarios(g, family, deep)):
            if family in ('edits', 'blocks') and i % PARTS != k:
                continue
            note(label, f)
    else:
        for fam, fs in reading.files(g, deep):
            if fam != family:
                continue
            for i, b in enumerate(fs):
                if i % PARTS == k:
                    note(lambda b=b: reading.text_of(b), lambda b=b: attempt(g, how, b))
    return job, out, done, miss


def follow(ctx, rules, families=None):
    deep = ctx.tier == 'thorough'
    W['grams'] = {g: gramset.Gram(g) for g in GRAMMARS}
    W['rules'] = rules
    miss = []
    todo = [j for j in jobs(deep) if families is None or families(j)]
    with Pool(min(8, os.cpu_count() or 1)) as pool:
        for (g, fam, how, k, d), out, done, m in pool.imap_unordered(one, todo):
            ctx.count('collections written', done)
            miss += m
            for rule, text in out:
                ctx.violation(rule, 'grammar %s, %s' % (g, fam) + ('' if how == 'plain' else ', ' + how), text, reading.SF)
    if miss:
        ctx.coverage['not_followed'] = len(miss)
        ctx.coverage['not_analysed'] = miss[:4]
    total = ctx.coverage.get('collections written', 0)
    if len(miss) > total // 4 and not ctx.found:
        raise AnalysisBroken('%d of %d collections could not be followed: %s' % (len(miss), total, miss[0]))
    ctx.floor('collections written', total, 1000)


def run(ctx):
    follow(ctx, ('refused', 'text', 'contents', 'cut'))
    said = ['a value or key is written as one token that is read back as it (decided by C11)',
            'white space asked for is written between tokens (decided by C11)',
            'names are legal; nothing else of them is known but whether they are equal']
    for layer in (c05, c08, c09, c10, c12):
        layer.run(ctx)
        said += [a for a in ctx.assumptions if a not in said]
    ctx.assumptions = said

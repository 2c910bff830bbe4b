"""Editing: every operation that edits a block, a loop or a collection is interpreted, in histories of up to two operations (three:
thorough) from blocks and files of several forms, with anonymous names and values; after each the object is compared with a model
written from the documentation."""
import itertools
import os
from multiprocessing import Pool

from sa.mini import Unsupported
from sa.program import AnalysisBroken
from . import editing, reading

PARTS = 16


def cases(kind, deep):
    if kind == 'file':
        for st, label, start, h in editing.file_histories(deep):
            yield 'standard %s: %s' % (st, label), h, (lambda st=st, start=start, h=h: editing.follow_file(st, start, h)[:2])
        return
    cls, which = {'StarBlock': ('StarBlock', ('StarFile',)), 'CifBlock': ('CifBlock', ('StarFile', 'CifFile_module'))}[kind]
    hs = editing.histories(deep)
    if deep and kind == 'StarBlock':
        ops = list(editing.menu(deep))
        three = ((label, start, h) for label, start in editing.STARTS for i, h in enumerate(itertools.product(ops, repeat=3)) if i % 61 == 7)
        hs = itertools.chain(hs, three)
    for i, (label, start, h) in enumerate(hs):
        if kind == 'CifBlock' and len(h) > 1 and i % 7 and not deep:
            continue
        yield label, h, (lambda start=start, h=h: editing.follow(start, h, cls, which)[:2])


def one(job):
    kind, k, deep = job
    out, n, miss = [], 0, []
    for i, (label, h, f) in enumerate(cases(kind, deep)):
        if i % PARTS != k:
            continue
        what = lambda: '%s: %s' % (label, '; '.join(editing.show(o) for o in h))
        try:
            done, bad = f()
        except (AnalysisBroken, Unsupported) as e:
            miss.append('%s: %s' % (what(), e))
            continue
        n += 1
        if bad and sum(r == bad[0] for r, _, _ in out) < 4:
            at = h[done][0] if h and done < len(h) else 'nothing'
            out.append((bad[0], at, '%s: %s' % (what(), bad[1])))
    return job, out, n, miss


def run(ctx):
    deep = ctx.tier == 'thorough'
    miss = []
    with Pool(min(8, os.cpu_count() or 1)) as pool:
        for (kind, k, d), out, n, m in pool.imap_unordered(one, [(kind, k, deep) for kind in ('StarBlock', 'CifBlock', 'file')
                                                                 for k in range(PARTS)]):
            ctx.count('histories of a %s' % kind, n)
            miss += m
            for rule, at, text in out:
                ctx.violation(rule, '%s, %s' % (kind, at), text, reading.SF)
    total = sum(v for k, v in ctx.coverage.items() if k.startswith('histories'))
    if miss:
        ctx.coverage['not_followed'] = len(miss)
        ctx.coverage['not_analysed'] = miss[:4]
    if len(miss) > total // 4 and not ctx.found:
        raise AnalysisBroken('%d of %d histories could not be followed: %s' % (len(miss), total, miss[0]))
    ctx.floor('histories', total, 3000)
    ctx.assumptions = ['names and values are legal (decided by C11) and nothing else of them is known but whether they are equal',
                       'no dictionary is assigned to the block']

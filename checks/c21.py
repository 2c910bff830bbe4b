"""dREL methods as Python: the translator is interpreted over families of trees with named operands; what it writes is parsed, interpreted
over terms and compared, on every path, with what the tree says.  The layers beneath: lexer and parser of dREL."""
import os
import sys
from multiprocessing import Pool

from sa.mini import Raise, Unsupported
from sa.program import AnalysisBroken
from . import c06, c07, translate
from .reading import tree

FAMILIES = ('expressions', 'placed', 'structures', 'rows', 'keyed', 'category methods', 'functions')
PARTS = {'expressions': 32, 'placed': 16, 'structures': 16, 'rows': 2}
T = []


def trees(family, deep):
    """-> (tree, world, how to follow it)"""
    w = translate.World()
    if family == 'rows':
        for n, optional in translate.rows(deep):
            yield n, translate.World(optional=optional), {'rows': (0, 2)}
    elif family == 'category methods':
        for n in translate.category_methods(deep):
            yield n, translate.World(target='tc'), {'rows': (0, 2), 'category': True}
    else:
        for n in {'expressions': translate.expressions, 'placed': translate.placed, 'structures': translate.structures, 'keyed': translate.keyed,
                  'functions': translate.functions}[family](deep):
            yield n, w, {'rows': (0, 2) if family == 'structures' else (2,)}


def one(job):
    family, k, deep = job
    sys.setrecursionlimit(20000)
    out, done, paths, miss = [], 0, 0, []
    for i, (n, w, how) in enumerate(trees(family, deep)):
        if i % PARTS.get(family, 1) != k:
            continue
        try:
            bad, p = translate.follow_function(T[0], n, w) if family == 'functions' else translate.follow(T[0], n, w, **how)
        except (AnalysisBroken, Unsupported) as e:
            miss.append('%s: %s' % (translate.brief(n), e))
            continue
        done += 1
        paths += p
        for rule, text in bad:
            if sum(r == rule for r, _ in out) < 2:
                out.append((rule, text))
    return job, out, done, paths, miss


def run(ctx):
    deep = ctx.tier == 'thorough'
    T[:] = [tree(translate.CODE)]
    jobs = [(f, k, deep) for f in FAMILIES for k in range(PARTS.get(f, 1))]
    miss, per = [], {}
    with Pool(min(8, os.cpu_count() or 1)) as pool:
        for (family, k, d), out, done, paths, m in pool.imap_unordered(one, jobs):
            ctx.count('trees', done)
            ctx.count('paths', paths)
            per[family] = per.get(family, 0) + done
            miss += m
            for rule, text in out:
                ctx.violation(rule, 'dREL ' + family, text, translate.SRC)
    for f in FAMILIES:
        ctx.sample('%s: %d trees' % (f, per.get(f, 0)))
    if miss:
        ctx.coverage['not_followed'] = len(miss)
        ctx.coverage['not_analysed'] = sorted(miss)[:4]
    total = ctx.coverage.get('trees', 0)
    if len(miss) > total // 4 and not ctx.found:
        raise AnalysisBroken('%d of %d trees could not be followed: %s' % (len(miss), total, miss[0]))
    ctx.floor('trees', total, 20000)
    said = ['the functions of numpy, math and drel_runtime do what their names say',
            'evaluating a step twice does no harm (functions of dREL have no effects)']
    for layer in (c06, c07):
        layer.run(ctx)
        said += [a for a in ctx.assumptions if a not in said]
    ctx.assumptions = said

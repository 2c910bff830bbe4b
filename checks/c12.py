"""Interpretation of the reader of grammar files over sequences of its tokens, comparison of its token patterns with written
ones (exact), and interpretation of the program yapps2.py with stand-ins for files."""
import os
from multiprocessing import Pool

from . import yapps
from sa import mini, relang
from sa.program import AnalysisBroken

W = {}


def one(job):
    path, prefix, limit = job
    n, out = 0, []
    try:
        for bad in mini.explore(lambda d: yapps.reading(W[path], prefix, limit, d)):
            n += 1
            out += [b for b in bad if len(out) < 3]
    except AnalysisBroken as e:
        return out, n, str(e)
    return out, n, None


def run(ctx):
    deep = ctx.tier == 'thorough'
    jobs = []
    for path in (yapps.READER, yapps.DIR + 'yapps_grammar.py'):
        W[path] = yapps.source(path)
        try:
            bad, n = yapps.patterns(W[path])
        except relang.Unsupported as e:
            raise AnalysisBroken('patterns of %s: %s' % (path, e))
        ctx.count('patterns', n)
        for rule, text in bad:
            ctx.violation(rule, path, text, path)
        for p, limit in yapps.PREFIXES:
            limit += deep
            if path != yapps.READER:
                limit -= 1
            for i, (k, t) in enumerate(yapps.KINDS):
                start = yapps.words(p)
                start.append((k, t % len(start) if '%' in t else t))
                jobs.append((path, start, limit - 1))
    miss = []
    with Pool(min(8, os.cpu_count() or 1)) as pool:
        for job, (bad, n, m) in zip(jobs, pool.imap(one, jobs, 1)):
            ctx.count('token sequences', n)
            if m:
                miss.append(m)
            for rule, text in bad:
                ctx.violation(rule, job[0], text, job[0])
    bad, n = yapps.driving(yapps.source(yapps.DRIVER))
    ctx.count('runs of yapps2.py', n)
    for rule, text in bad:
        ctx.violation(rule, yapps.DRIVER, text, yapps.DRIVER)
    if miss:
        ctx.coverage['not_analysed'] = miss[:3]
        if len(miss) > len(jobs) // 2 and not ctx.found:
            raise AnalysisBroken(miss[0])
    ctx.floor('starts', len(jobs), 100)

"""Interpretation of the error reports of the parser runtime over texts whose characters are known only by their place:
for every length of line before and after the place, every kind of line end around it, the display must point at it."""
import os
from multiprocessing import Pool

from . import reports
from .scanner import exc_name
from sa import mini
from sa.program import AnalysisBroken

W = {}


def one(job):
    left, deep = job
    try:
        for r in mini.explore(lambda d: reports.pointer(W['tree'], left, deep, d)):
            return r + (None,)
    except AnalysisBroken as e:
        return [], 0, str(e)


def run(ctx):
    deep = ctx.tier == 'thorough'
    W['tree'] = reports.runtime_tree()
    jobs = [(l, deep) for l in reports.lengths(deep)[0]]
    miss = []
    seen = set()
    with Pool(min(8, os.cpu_count() or 1)) as pool:
        for bad, n, m in pool.imap(one, jobs, 1):
            ctx.count('surroundings of a place', n)
            if m:
                miss.append('print_line_with_pointer: ' + m)
            for rule, text in bad:
                if len(seen) < 4:
                    seen.add(text)
                    ctx.violation(rule, 'print_line_with_pointer', text, reports.RT)
    for name, f in (('messages', reports.messages), ('tokens of the compiled scanner', reports.compiled), ('lines and columns', reports.places)):
        try:
            for bad in mini.explore(lambda d: f(W['tree'], d)):
                ctx.count('paths')
                for rule, text in bad:
                    ctx.violation(rule, name, text, reports.RT)
        except AnalysisBroken as e:
            miss.append('%s: %s' % (name, e))
        except mini.Raise as r:
            ctx.violation('message', name, 'raises %s where a report is made' % exc_name(r.exc), reports.RT)
        except mini.Endless as e:
            ctx.violation('endless', name, 'does not come to an end', reports.RT)
    if miss:
        ctx.coverage['not_analysed'] = miss[:4]
        if len(miss) > 2 and not ctx.found:
            raise AnalysisBroken(miss[0])
    ctx.assumptions = ['characters other than line ends are treated alike (the functions ask for line ends only)']
    ctx.floor('lengths', len(jobs), 20)

"""Interpretation of the parser generator over grammar trees: the text it writes is parsed and followed over every sequence
of tokens, and compared with an LL(1) reference (sets computed apart)."""
import os
from multiprocessing import Pool

from . import yapps
from sa import mini
from sa.program import AnalysisBroken

W = {}


def one(job):
    g, limit = job
    try:
        return yapps.compare(W['tree'], g, limit) + (None,)
    except AnalysisBroken as e:
        return [], 0, 'not analysed', '%s: %s' % (g, e)


def run(ctx):
    W['tree'] = yapps.source(yapps.TREE)
    thorough = os.environ.get('VERIF_TIER') == 'thorough' or getattr(ctx, 'tier', '') == 'thorough'
    jobs = [(g, 5 if thorough else 4) for g in yapps.everything(thorough)]
    status, miss, endless = {}, [], 0
    with Pool(min(8, os.cpu_count() or 1)) as pool:
        for (g, _), (bad, n, st, m) in zip(jobs, pool.imap(one, jobs, 25)):
            ctx.count('texts', n)
            status[st] = status.get(st, 0) + 1
            if m:
                miss.append(m)
            for rule, text in bad:
                ctx.violation(rule, 'Generator', text, yapps.TREE)
            endless += sum(rule == 'ENDLESS' for rule, _ in bad)
            if endless > 20:
                break
    bad, n = yapps.written(W['tree'])
    for rule, text in bad:
        ctx.violation(rule, 'Generator.generate_output', text, yapps.TREE)
    ctx.count('modules written', n)
    for k, v in status.items():
        ctx.count('grammars: ' + {'ok': 'compared', 'choice': 'ambiguous choice', 'repetition': 'ambiguous repetition'}.get(k, k), v)
    if miss:
        ctx.coverage['not_analysed'] = miss[:3]
    if len(miss) > len(jobs) // 2 and not ctx.found:
        raise AnalysisBroken('%d of %d grammars could not be followed: %s' % (len(miss), len(jobs), miss[0]))
    ctx.assumptions = ['the runtime classes (Scanner, Parser, Context) are represented by their documented behaviour (decided '
                       'by C05)', 'tokens of the grammar do not overlap']
    ctx.floor('grammars', len(jobs), 1000)

"""Abstract interpretation of every operation that edits a data block: for an arbitrary data name the
possible combinations of value / printed spelling / place in the print order / loop membership are
tracked along every path, starting from all consistent ones; at every exit of the operation each name
it touched, and each loop, has to be consistent again."""
from . import interp, ledger


def one(prog, job):
    kind, cls, name = job
    res = ledger.interpret(prog, kind, cls, name)
    if res is None:
        return None
    c, it, r, e, f = res
    out = {}
    for s, v in r:
        for rule, where, text in c.verdict(s.cl):
            out.setdefault((rule, text), 'normal return')
    if name not in ('update', 'AddLoopItem', 'AddToLoop', 'merge'):
        for s, exc, w in e:
            for rule, where, text in c.verdict(s.cl):
                out.setdefault((rule, text), '%s at %s' % (exc, w[0]))
    return [(k, t, ex) for (k, t), ex in out.items()], len(r), len(e), f.loc(), sorted(it.analysed), it.widened


def run(ctx):
    jobs = [('block', 'StarBlock', m) for m in ledger.BLOCK_OPS] + [('block', 'LoopBlock', m) for m in ledger.LOOP_OPS] + \
           [('block', 'CifBlock', m) for m in ledger.CIF_OPS]
    jobs.sort(key=lambda j: j[2] != 'merge')
    res = interp.run(ledger.SOURCES, [(one, j) for j in jobs])
    funcs = set()
    for (kind, cls, name), r, why in res:
        if r is None:
            continue
        bad, nr, ne, loc, an, wid = r
        ctx.count('paths', nr + ne)
        funcs.update(an)
        ctx.sample('%s.%s: %d returning and %d raising path classes' % (cls, name, nr, ne))
        for rule, text, ex in bad:
            ctx.violation(rule, '%s.%s' % (cls, name), '%s (at %s)' % (text, ex), loc)
    ctx.coverage['functions'] = len(funcs)
    ctx.assumptions = ['names passed as itemname/key/... are text', 'CreateLoop is called with its length check on',
                       'on entry the block is consistent']
    interp.settle(ctx, res, 20)

"""Abstract interpretation of every operation that edits a collection of blocks (a file or dictionary):
for an arbitrary block name its presence in the block table, the set of known names, the parent table,
the visible names and the output order is tracked along every path; at every exit the five agree."""
from . import interp, ledger


def one(prog, job):
    kind, cls, name = job
    res = ledger.interpret(prog, kind, cls, name)
    if res is None:
        return None
    c, it, r, e, f = res
    out = {}
    for s, v in r:
        for rule, where, text in c.verdict(s.cl):
            out.setdefault((rule, text), 'normal return')
    if name not in ('update', 'merge_fast'):
        for s, exc, w in e:
            for rule, where, text in c.verdict(s.cl):
                out.setdefault((rule, text), '%s at %s' % (exc, w[0]))
    return [(k, t, ex) for (k, t), ex in out.items()], len(r), len(e), f.loc(), sorted(it.analysed), it.widened


def run(ctx):
    jobs = [('coll', 'BlockCollection', m) for m in ledger.COLL_OPS]
    jobs += [('coll', 'CifFile', m) for m in ('NewBlock', '__setitem__')]
    jobs.sort(key=lambda j: j[2] != 'merge_fast')
    res = interp.run(ledger.SOURCES, [(one, j) for j in jobs], 720 if ctx.tier == 'thorough' else 90)
    funcs = set()
    for (kind, cls, name), r, why in res:
        if r is None:
            continue
        bad, nr, ne, loc, an, wid = r
        ctx.count('paths', nr + ne)
        funcs.update(an)
        ctx.sample('%s.%s: %d returning and %d raising path classes' % (cls, name, nr, ne))
        for rule, text, ex in bad:
            ctx.violation(rule, '%s.%s' % (cls, name), '%s (at %s)' % (text, ex), loc)
    ctx.coverage['functions'] = len(funcs)
    ctx.assumptions = ['on entry the collection is consistent', 'a deletion inside another operation behaves as the '
                       'deletion operation analysed on its own']
    interp.settle(ctx, res, 8)

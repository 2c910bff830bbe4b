"""Abstract interpretation of the operations that take data names or block names: wherever a table that is
keyed by lower-case names is read, tested or written, the key may not be the caller's text as given."""
from . import interp, ledger

SKIP = {'__init__', '__str__', 'merge', 'merge_fast', 'SetTemplate', 'GetMultiKeyedSemanticPacket', 'GetKeyedSemanticPacket',
        'recursive_iter', 'load_iter', 'printsection', 'create_ordering'}
PLAIN = {'__getitem__', '__setitem__', '__delitem__', '__contains__'}


def entries(prog):
    out = []
    for kind, cls in (('block', 'StarBlock'), ('block', 'LoopBlock'), ('coll', 'BlockCollection')):
        seen = set()
        for c in prog.mro(cls):
            for m, f in c.methods.items():
                if m in seen or m in SKIP or (m.startswith('_') and m not in PLAIN) or m.startswith('format_'):
                    continue
                seen.add(m)
                if len(f.params()) > 1 or f.node.args.vararg or f.node.args.kwarg:
                    out.append((kind, cls, m))
    return out


def one(prog, job):
    kind, cls, name = job
    res = ledger.interpret(prog, kind, cls, name, compat=False)
    if res is None:
        return None
    c, it, r, e, f = res
    from sa.absint import show
    out, n = {}, set()
    for q, chain, key, cont, loc in c.case:
        n.add((q, show(cont)))
        if ledger.raw_text(key) and not ledger.lowered(key):
            out.setdefault((q, show(cont)), (chain, show(key), loc))
    return [(k, v) for k, v in out.items()], len(n), f.loc(), sorted(it.analysed)


def run(ctx):
    from sa import program
    prog = program.Program(ledger.SOURCES)
    jobs = entries(prog)
    res = interp.run(ledger.SOURCES, [(one, j) for j in jobs], limit=100)
    funcs = set()
    for (kind, cls, name), r, why in res:
        if r is None:
            continue
        bad, n, loc, an = r
        ctx.count('table_accesses', n)
        funcs.update(an)
        if n:
            ctx.sample('%s.%s: %d accesses' % (cls, name, n), 60)
        for (q, cont), (chain, key, at) in bad:
            ctx.violation('raw-key', '%s.%s|%s|%s' % (cls, name, q, cont),
                          '%s looks up %s in %s without putting it in lower case (%s)' % (q, key, cont, chain), at or loc)
    ctx.coverage['functions'] = len(funcs)
    ctx.floor('table_accesses', ctx.coverage.get('table_accesses', 0), 40)
    ctx.assumptions = ['the tables of a block and of a collection are keyed by lower-case names']
    interp.settle(ctx, res, 40)

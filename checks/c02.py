"""Abstract interpretation of the editing operations: on every path that leaves an operation with an
exception, nothing may have been stored in (or removed from) the tables of the object before."""
from . import interp, ledger

OPS = [('block', 'StarBlock', m) for m in ('AddItem', '__setitem__', '__delitem__', 'RemoveItem', 'ChangeItemOrder',
                                           'CreateLoop', 'AddLoopName')] + \
      [('block', 'CifBlock', m) for m in ('AddItem', '__setitem__', 'CreateLoop', 'AddLoopName')] + \
      [('coll', 'BlockCollection', m) for m in ('NewBlock', '__setitem__', '__delitem__', 'rename', 'set_parent')] + \
      [('coll', 'CifFile', m) for m in ('NewBlock', '__setitem__')]


def one(prog, job):
    kind, cls, name = job
    res = ledger.interpret(prog, kind, cls, name, compat=False)
    if res is None:
        return None
    c, it, r, e, f = res
    out = {}
    for s, exc, w in e:
        if s.cl.dirty is not None:
            loc, fn, what = s.cl.dirty
            out.setdefault((exc, fn, what), (w[0], w[1], loc))
    return [(k, v) for k, v in out.items()], len(r), len(e), f.loc(), sorted(it.analysed)


def run(ctx):
    res = interp.run(ledger.SOURCES, [(one, j) for j in OPS])
    funcs = set()
    for (kind, cls, name), r, why in res:
        if r is None:
            continue
        bad, nr, ne, loc, an = r
        ctx.count('raising_paths', ne)
        funcs.update(an)
        ctx.sample('%s.%s: %d ways to be refused, %d to succeed' % (cls, name, ne, nr))
        for (exc, fn, what), (at, chain, first) in bad:
            ctx.violation('dirty-refusal', '%s.%s|%s' % (cls, name, what),
                          '%s is raised (%s) after %s has changed %s at %s' % (exc, chain, fn, what, first), at)
    ctx.coverage['functions'] = len(funcs)
    ctx.assumptions = ['names are text', 'compatibility mode of blocks is off',
                       'a deletion inside another operation behaves as the deletion operation analysed on its own']
    interp.settle(ctx, res, 14)

"""The dREL grammar, read from the docstrings of drel_ast_yacc.py and turned into an LALR(1) automaton with PLY's way of
settling conflicts, is walked side by side with a reference grammar (no automaton is run on real text); the actions are
interpreted over symbolic tokens and the trees compared with the templates of the reference."""
from sa import mini
from sa.mini import Raise, Inst, Opaque
from . import drel, drel_ref, drellex, drelparse


def run(ctx):
    lx = drel.Lexer(drel.tree_of(drel.LEX))
    tree = drel.tree_of(drel.YACC)
    g, it = drel.grammar(tree, lx.tokens)
    ref = drelparse.ref_grammar()
    kinds = drel_ref.TERMINALS + list(drel_ref.LITERALS)
    for p in g.prods[1:]:
        for s in p.right:
            if len(s) == 1 and s not in lx.literals and s not in g.by_left:
                ctx.violation('unknown-token', p.func.node.name, 'uses %r, which the lexer never reports' % s, at(p))
    diffs, reached, pairs = drelparse.cover(ref, g, kinds)
    ctx.count('productions', len(g.prods) - 1)
    ctx.count('automaton_states', len(g.states))
    ctx.count('configurations', pairs)
    for seq, t, want, have in diffs[:20]:
        where = blame(g, seq)
        ctx.violation('language', where or 'grammar', '%s %s%s' % (
            drelparse.spell(seq), '<end>' if t == '$end' else drelparse.spell((t,)),
            ': is a sentence (or the start of one) and refused' if want else ': accepted, and not dREL'), drel.YACC)
    if not diffs:
        trees(ctx, ref, g, it, 4 if ctx.tier == 'thorough' else 3)
    errors(ctx, it)
    ctx.assumptions = ['PLY builds the tables it documents: LALR(1), shift before reduce, earlier rule before later, precedence table']


def at(p):
    return '%s:%s' % (drel.YACC, p.line)


def blame(g, seq):
    """the function whose rule is being read behind a token sequence"""
    st = drelparse.Stack(g)
    for t in seq:
        n = st.feed(t)
        if n is None or n == 'accept':
            break
        st = n
    kernel = sorted(g.states[st.states[-1]])
    for p, d in kernel:
        if g.prods[p].func:
            return g.prods[p].func.node.name
    return None


def trees(ctx, ref, g, it, depth):
    S = set(drelparse.sentences(ref, depth))
    S |= set(drelparse.sentences(g, min(depth, 3)))
    S |= set(expressions())
    R = drelparse.Reducer(ref, drelparse.ref_act, True)
    Y = drelparse.Reducer(g, drel.act(it), False)
    n = 0
    used = set()
    for s in sorted(S, key=lambda s: (len(s), s)):
        a = R.tree(s)
        if a[0] == 'error':
            continue
        want = drelparse.plain(drelparse.untok(a[1]))

        def go(d):
            it.dec = d
            try:
                r = Y.tree(s)
            except Raise as e:
                return ('fails with %s' % e.exc.cls, Y.used[-1])
            used.update(p.number for p in Y.used)
            if r[0] == 'error':
                return ('refused', None)
            have = drelparse.plain(r[1])
            if have != want:
                return ('builds %s, should be %s' % differ(have, want), None)
            return None
        n += 1
        for bad in mini.explore(go, limit=5000, seconds=60):
            if bad:
                text, p = bad
                p = p or culprit(g, it, Y.used, want)
                ctx.violation('tree', p.func.node.name if p else 'grammar', '%s %s' % (drelparse.spell(s), text[:400]),
                              at(p) if p else drel.YACC)
                break
        if len(ctx.found) > 12:
            break
    ctx.count('trees', n)
    ctx.floor('productions_used', len(used), 100)
    if len(used) < len(g.prods) - 1 and len(ctx.found) == 0:
        ctx.sample('not used: ' + '; '.join(repr(p) for p in g.prods[1:] if p.number not in used))


def differ(a, b):
    """the innermost place at which two trees differ"""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        d = [i for i in range(len(a)) if a[i] != b[i]]
        if len(d) == 1:
            return differ(a[d[0]], b[d[0]])
    return str(a)[:180], str(b)[:180]


def culprit(g, it, used, want):
    """the first production whose value does not occur in the wanted tree is the likely one; only for the report"""
    return used[-1] if used and len(used) < 3 else max(used, key=lambda p: (len(p.right) > 1, len(p.right))) if used else None


def expressions():
    """every pair and triple of operators"""
    ops = ['OR', 'AND', '<', 'NEQ', 'IN', '+', '-', '*', '/', '^', '&', '|', 'POWER']
    pre = ['NOT', '-', '+']
    out = []

    def s(*x):
        out.append(tuple(x) + ('NEWLINE',))
    for a in ops:
        for p in pre:
            s('ID', a, p, 'ID')
            s(p, 'ID', a, 'ID')
        for b in ops:
            s('ID', a, 'ID', b, 'ID')
            s('ID', '=', 'ID', a, 'ID', b, 'ID', a, 'ID')
            for c in ('OR', 'AND', '<', '+', '*', 'POWER'):
                s('ID', a, 'ID', b, 'ID', c, 'ID')
            for p in pre:
                s('ID', a, p, 'ID', b, 'ID')
    for p in pre:
        for q in pre:
            s(p, q, 'ID')
    for t in ('[ ID ]', '. ID', 'REAL', '[ ID : ID ]', '[ : , ID , ID : ID : ID ]', '[ ID , ID : ]'):
        for u in ('[ ID ]', '. ID', '[ : ]'):
            s('ID', *(t.split() + u.split()))
            s('-', 'ID', *(t.split() + u.split() + ['POWER', 'ID']))
    for k in range(1, 10):
        s('ID', 'OPEN_PAREN', *(['ID', ','] * k)[:-1], 'CLOSE_PAREN')
        s('[', *(['ID', ','] * k)[:-1], ']')
        s('OPEN_PAREN', *(['ID', ','] * k)[:-1], 'CLOSE_PAREN')
        s('{', *(['SHORTSTRING', ':', 'ID', ','] * k)[:-1], '}')
        s('ID', 'OPEN_PAREN', *(['.', 'ID', '=', 'ID', ','] * k)[:-1], 'CLOSE_PAREN')
        s('ID', '[', *(['ID', ':', 'ID', ','] * k)[:-1], ']')
        s('FOR', *(['ID', ','] * k)[:-1], 'IN', 'ID', 'ID')
        s('FUNCTION', 'ID', 'OPEN_PAREN', *(['ID', ':', '[', 'ID', ',', 'ID', ']', ','] * k)[:-1], 'CLOSE_PAREN', 'ID')
        s(*(['ID', ';'] * k)[:-1])
        s(*(['ID', 'NEWLINE'] * k)[:-1])
        s('IF', 'OPEN_PAREN', 'ID', 'CLOSE_PAREN', 'ID', 'NEWLINE',
          *['ELSEIF', 'OPEN_PAREN', 'ID', 'CLOSE_PAREN', 'ID', 'NEWLINE'] * k, 'ELSE', 'ID')
        s('DO', 'ID', '=', 'ID', ',', 'ID', '{', *(['ID', 'NEWLINE'] * k), '}')
    return out


class Anything(Opaque):
    def call(self, it, args, kw):
        return Anything('result')

    def getattr(self, it, name):
        return Anything(self.name + '.' + name)

    def truth(self, it):
        return it.choose_bool()

    def binop(self, it, op, other, reflected):
        if it.choose_bool():
            raise Raise(Inst(TypeError, {'args': ()}))
        return Anything('joined')

    def compare(self, it, op, other, reflected):
        if op in ('Is', 'IsNot'):
            return (self is other) == (op == 'Is')
        return it.choose_bool()

    def getitem(self, it, k):
        return Anything('part')

    def length(self, it):
        return Anything('length')

    def convert(self, it, t, args, kw):
        return Anything('converted')


class ErrorToken(Anything):
    def getattr(self, it, name):
        if name == 'lexer':
            return it.globals.vars['lexer']
        return Anything.getattr(self, it, name)


def errors(ctx, it):
    """a syntax error ends the parse with an exception and leaves the lexer ready for the next text"""
    f = it.globals.vars.get('p_error')
    if not isinstance(f, mini.Func):
        ctx.violation('syntax-error', 'p_error', 'no function reports syntax errors: PLY would go on behind them', drel.YACC)
        return
    n = 0
    for tok in (None, ErrorToken('token')):
        for state in ('INITIAL', 'paren'):
            lexer = drellex.LexState(state, ('INITIAL', 'paren'))
            it.globals.vars['lexer'] = lexer
            it.globals.vars['parser'] = Anything('parser')

            def go(d):
                it.dec, it.steps = d, 20000
                lexer.state = state
                try:
                    it.call(f, [tok])
                except Raise as e:
                    return e, lexer.state
                return None, lexer.state
            try:
                for e, st in mini.explore(go, limit=300):
                    n += 1
                    if e is None:
                        ctx.violation('syntax-error', 'p_error', 'returns: PLY goes on behind a syntax error', drel.YACC)
                    elif st != 'INITIAL':
                        ctx.violation('lexer-state', 'p_error', 'leaves the lexer in state %s for the next text' % st, drel.YACC)
            except mini.Unsupported as e:
                ctx.coverage.setdefault('not_analysed', []).append('p_error: %s' % e)
    ctx.count('error_paths', n)

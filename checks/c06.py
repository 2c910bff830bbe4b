"""The dREL lexer, read from drel_lex.py as PLY combines it, is compared state by state with a reference lexer: the regular
languages exactly (which rule wins, where it ends, for every text that can follow), the token functions by abstract
interpretation."""
from sa import mini, relang
from sa.mini import Raise
from sa.program import AnalysisBroken
from . import drel, drel_ref, drellex


def run(ctx):
    tree = drel.tree_of(drel.LEX)
    lx = drel.Lexer(tree)
    if set(lx.states) != set(drel_ref.STATES):
        raise AnalysisBroken('the lexer has other states than INITIAL and paren')
    n = 0
    for state in drel_ref.STATES:
        src = drellex.Source(lx, state)
        d = src.compare()
        n += len(src.alts)
        ctx.count('automaton_states', src.pairs)
        if d:
            text, x, y, rule = d
            ctx.violation('token-language', name(rule) or 'state ' + state,
                          'in state %s the text %r: %s, should be %s (the dot marks the end of the token)' %
                          (state, text, x or 'no token ends there', y or 'no token ending there'), drel.LEX)
        functions(ctx, lx, src)
    ctx.floor('alternatives', n, 60)
    reserved(ctx, lx)
    parens(ctx, lx)
    errors(ctx, lx)
    ctx.assumptions = ['PLY tries functions in the order of their lines, then strings by decreasing length, then literals']


def name(rule):
    if not isinstance(rule, drel.Rule):
        return None
    return rule.func.node.name if rule.func else 't_' + rule.name


def step(lx, src, rule, text, lexer=None):
    """('skip',) | ('token', type, value) | ('raise', exc) of a token function on a concrete text; all paths"""
    out = []
    for r in mini.explore(lambda d: attempt(lx, rule, text, lexer or src.lexer(), d), limit=200):
        out.append(r)
    return out


def attempt(lx, rule, text, lexer, d):
    before = lexer.state
    try:
        t, v = drellex.outcome(lx, rule, text, lexer, d)
    except Raise as e:
        return 'raise', str(e.exc.cls)
    if lexer.skipped:
        return 'moved', None
    return ('skip', None) if t is None else (t, v)


def functions(ctx, lx, src):
    for rule in lx.rules[src.state]:
        if rule.func is None:
            if rule.name not in lx.tokens:
                ctx.violation('token-kind', 't_' + rule.name, 'reports a kind that is not declared in tokens', drel.LEX)
            continue
        # symbolic text: nothing but the text itself or nothing at all may come out
        proved = True
        try:
            for r in step(lx, src, rule, drellex.Sym(rule.name, 1)):
                if r[0] in ('raise', 'moved') or r[0] != 'skip' and (not isinstance(r[1], drellex.Sym) or r[0] != rule.name):
                    proved = False
        except AnalysisBroken:
            proved = False
        ctx.count('token_functions')
        ctx.sample('%s %s %s' % (src.state, rule.func.node.name, 'for every text' if proved else 'for members of its language'))
    kinds = {}
    for kind, pat in drel_ref.STATES[src.state]:
        kinds.setdefault(kind, []).append(pat)
    for kind in kinds:
        members = drellex.texts(kinds[kind])
        more = []
        for w in members[:12] + members[-6:]:
            more += drellex.longer(w) + [w[:i] + c + w[i + 1:] for i in range(len(w)) for c in 'aAfF97zZ_\u00e9']
        m = relang.Match(src.ref)
        for w in members + more:
            st = m.initial()
            for ch in w:
                st = m.step(st, ord(ch))
            if m.tagged(m.step(st, relang.MARK)) != ('exact', kind):
                continue
            want = 'skip' if kind == '#skip' else drel_ref.RESERVED.get(w, kind) if kind == 'ID' else kind
            check(ctx, lx, src, w, want)


def check(ctx, lx, src, w, want):
    rule, n = src.read(w)
    if n != len(w) or not isinstance(rule, drel.Rule):
        if want == 'STRPREFIX':
            return
        if rule == '#skip' and want == 'skip':
            return
        return                                           # reported by the comparison of languages
    ctx.count('texts')
    for t, v in step(lx, src, rule, w):
        loc = '%s:%s' % (drel.LEX, rule.line)
        fn = rule.func.node.name if rule.func else 't_' + rule.name
        if t == 'raise':
            ctx.violation('token-function', fn, 'fails with %s for %r' % (v, w[:60]), loc)
        elif t == 'moved':
            ctx.violation('token-function', fn, 'moves the position of the lexer for %r' % w[:60], loc)
        elif t != want:
            ctx.violation('token-kind', fn, 'makes %s of %r, should be %s' % (t, w[:60], want), loc)
        elif t != 'skip' and not drellex.same_number(want, w, v):
            ctx.violation('token-value', fn, 'gives %r the value %r' % (w[:60], str(v)[:80]), loc)
        elif t != 'skip' and t not in lx.tokens:
            ctx.violation('token-kind', fn, 'reports %s, which is not declared in tokens' % t, loc)


def reserved(ctx, lx):
    words = set(drellex.words())
    g = lx.it.globals.vars
    for v in g.values():
        if isinstance(v, dict) and v and all(isinstance(k, str) for k in v):
            for k in v:
                words |= {k, k.upper(), k.lower(), k.capitalize(), k + 'x'}
    src = drellex.Source(lx, 'INITIAL')
    m = relang.Match(src.ref)
    n = 0
    for w in sorted(words):
        st = m.initial()
        for ch in w:
            st = m.step(st, ord(ch))
        if m.tagged(m.step(st, relang.MARK)) == ('exact', 'ID'):
            check(ctx, lx, src, w, drel_ref.RESERVED.get(w, 'ID'))
            n += 1
    ctx.floor('words', n, 100)


def parens(ctx, lx):
    """every sequence of parentheses: newlines count again exactly when the last one is closed"""
    it = lx.it
    it.dec = mini.Decisions()
    srcs = {s: drellex.Source(lx, s) for s in lx.states}
    todo = [('', drellex.LexState('INITIAL', lx.states))]
    seen = set()
    n = 0
    deep = '(' * 40 + ')' * 40
    for seq in [deep, deep + deep] + list(sequences(10)):
        lexer = drellex.LexState('INITIAL', lx.states)
        depth = 0
        for i, c in enumerate(seq):
            rule, k = srcs[lexer.state].read(c)
            depth += 1 if c == '(' else -1
            if not isinstance(rule, drel.Rule):
                ctx.violation('parentheses', 'state ' + lexer.state, 'no rule for %r after %r' % (c, seq[:i][-60:]), drel.LEX)
                break
            rs = step(lx, srcs[lexer.state], rule, c, lexer)
            n += 1
            if len(rs) != 1 or rs[0][0] != ('OPEN_PAREN' if c == '(' else 'CLOSE_PAREN'):
                ctx.violation('parentheses', rule.func.node.name if rule.func else rule.name,
                              'makes %s of %r after %r' % (rs, c, seq[:i][-60:]), drel.LEX)
                break
            if (lexer.state == 'INITIAL') != (depth == 0):
                ctx.violation('parentheses', rule.func.node.name if rule.func else rule.name,
                              'state %s behind %r' % (lexer.state, seq[:i + 1][-60:]), drel.LEX)
                break
    # every other token leaves the state alone
    for s in lx.states:
        for rule in lx.rules[s]:
            if rule.func is None or rule.name in ('OPEN_PAREN', 'CLOSE_PAREN'):
                continue
            for depth in (1, 2):
                lexer = drellex.LexState('INITIAL', lx.states)
                if s == 'paren':
                    for _ in range(depth):
                        r0, _k = srcs[lexer.state].read('(')
                        if isinstance(r0, drel.Rule):
                            step(lx, srcs[lexer.state], r0, '(', lexer)
                attrs = {k: v for k, v in lexer.attrs.items() if k != 'lineno'}
                before = (lexer.state, list(lexer.stack), attrs)
                try:
                    step(lx, srcs[s], rule, drellex.Sym(rule.name, 1), lexer)
                except AnalysisBroken:
                    for w in drellex.texts([rule.regex], 3)[:3]:
                        step(lx, srcs[s], rule, w, lexer)
                after = (lexer.state, list(lexer.stack), {k: v for k, v in lexer.attrs.items() if k != 'lineno'})
                if before[:2] != after[:2] or before[2] != {k: after[2].get(k) for k in before[2]}:
                    ctx.violation('parentheses', rule.func.node.name, 'changes the state of the lexer', drel.LEX)
                n += 1
    ctx.floor('parenthesis_steps', n, 200)


def sequences(depth):
    out = []

    def go(s, d):
        if s and d == 0:
            out.append(s)
        if len(s) >= depth:
            return
        go(s + '(', d + 1)
        if d:
            go(s + ')', d - 1)
    go('', 0)
    return [s for s in out if len(s) == depth or len(s) <= 4][:80]


def errors(ctx, lx):
    """a character that starts no token is an error, and the lexer is then ready for the next text"""
    for s in lx.states:
        f = lx.error.get(s)
        if f is None:
            continue                                     # PLY raises by itself, but the state stays
        for d in range(2):
            lexer = drellex.LexState(s, lx.states)
            if s == 'paren':
                drellex.enter(lx, lexer)
                if d:
                    drellex.step_in(lx, lexer, '(')
            t = drellex.LexTok('error', '?rest', lexer)

            def go(dec):
                lx.it.dec = dec
                lx.it.steps = 20000
                try:
                    return lx.it.call(f, [t])
                except Raise:
                    return None
            for r in mini.explore(go, limit=50):
                if lexer.skipped:
                    ctx.violation('illegal-character', f.node.name, 'goes on behind a character that starts no token', drel.LEX)
                if lexer.state != 'INITIAL':
                    ctx.violation('lexer-state', f.node.name, 'leaves the lexer in state %s for the next text' % lexer.state,
                                  drel.LEX)
                else:
                    for c in '(())':
                        drellex.step_in(lx, lexer, c)
                    if lexer.state != 'INITIAL':
                        ctx.violation('lexer-state', f.node.name, 'after an error parentheses of the next text do not balance',
                                      drel.LEX)
    if 'paren' not in lx.error:
        ctx.violation('lexer-state', 't_error', 'an error inside parentheses leaves the lexer in state paren', drel.LEX)
    ctx.count('error_functions', len(lx.error))

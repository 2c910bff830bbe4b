"""What dREL text means: the reference the source is compared with.  Written from the dREL definition (and PyCIFRW's
documented extensions), with one template per rule saying which operand goes where."""

# ---- tokens: (kind, pattern) in order of preference; '#skip' is not reported
RESERVED = {w: w.upper() for w in 'and or in not do for loop as with where else next break if switch case function print '
            'repeat default'.split()}
RESERVED.update({w: w.upper() for w in 'Do For Loop With Where Else Next Break If Function Print Repeat'.split()})

COMMON = [
    ('AUGOP', r'\+\+=|\+=|-=|--=|\*=|/='),
    ('OPEN_PAREN', r'\('),
    ('IMAGINARY', r'(?:[0-9]+\.[0-9]*(?:[Ee][+-]?[0-9]+)?|\.[0-9]+(?:[Ee][+-]?[0-9]+)?|[0-9]+)[jJ]'),
    ('REAL', r'(?:[0-9]+\.[0-9]*|\.[0-9]+)(?:[Ee][+-]?[0-9]+)?'),
    ('BININT', r'0[bB][01]+'),
    ('OCTINT', r'0[oO][0-7]+'),
    ('HEXINT', r'0[xX][0-9A-Fa-f]+'),
    ('INTEGER', r'[0-9]+'),
    ('STRPREFIX', r'(?:[rRuU]|[uU][rR])(?=["\'])'),
    ('LONGSTRING', r"'''(?:[^\\]|\\(?:.|\n))*?'''|" + r'"""(?:[^\\]|\\(?:.|\n))*?"""'),
    ('SHORTSTRING', r"'(?:[^\\'\n]|\\.)*'|" + r'"(?:[^\\"\n]|\\.)*"'),
    ('ELSEIF', r'[Ee][Ll][Ss][Ee]\s+[Ii][Ff](?![A-Za-z0-9_$])'),
    ('ID', r'[A-Za-z][A-Za-z0-9_$]*'),
    ('ITEM_TAG', r'_[A-Za-z0-9_]+'),
    ('#skip', r'\\\n'),
    ('NEWLINE', r'\n[\n \t]*'),
    ('#skip', r'#[^\n]*'),
    ('ELLIPSIS', r'\.\.\.'),
    ('POWER', r'\*\*'), ('BADOR', r'\|\|'), ('ISEQUAL', '=='), ('NEQ', '!='), ('GTE', '>='), ('LTE', '<='), ('BADAND', '&&'),
]
LITERALS = '+*-/;[],:^<>{}=.`&|'
# characters passed over before a token is looked for
IGNORED = {'INITIAL': ' \t', 'paren': ' \t\n'}
STATES = {
    'INITIAL': COMMON,
    'paren': [('OPEN_PAREN', r'\('), ('CLOSE_PAREN', r'\)')] + COMMON,
}


# ---- grammar
def lst(*names):
    return list(names)


def stmts(x):
    return ['STATEMENTS', x]


ONE = ['EXPR', ['LITERAL', '1']]
NOTHING = ['EXPR', ['LITERAL', 'None']]


def first(v):
    return v[0]


def binary(v):
    return ['MATHOP', v[1], v[0], v[2]]


RULES = []


def rule(left, *alts):
    for text, f in alts:
        RULES.append((left, text.split(), f))


rule('text', ('mnl stmt', lambda v: v[1]), ('text stmt', lambda v: stmts(v[0][1] + v[1][1])))
rule('stmt', ('simple nls', first), ('simple ; nls', first), ('compound', first))
rule('simple', ('small', lambda v: stmts([v[0]])), ('simple ; small', lambda v: stmts(v[0][1] + [v[2]])))
rule('many', ('stmt', first), ('many stmt', lambda v: stmts(v[0][1] + v[1][1])))
rule('small', ('exprstmt', first), ('PRINT expr', lambda v: ['PRINT', v[1]]), ('BREAK', lambda v: ['BREAK']),
     ('NEXT', lambda v: ['NEXT']))
rule('exprstmt', ('exprs', lambda v: ['EXPRLIST', v[0]]), ('exprs AUGOP exprs', lambda v: ['ASSIGN', v[0], v[1], v[2]]),
     ('exprs = exprs', lambda v: ['ASSIGN', v[0], v[1], v[2]]),
     ('ID OPEN_PAREN dots CLOSE_PAREN', lambda v: ['FANCY_ASSIGN', v[0], v[2]]))
rule('exprs', ('expr', lst), ('exprs , mnl expr', lambda v: v[0] + [v[3]]))
RULES[-2] = ('exprs', ['expr'], lambda v: [v[0]])
rule('expr', ('or_', lambda v: ['EXPR', v[0]]))
rule('or_', ('and_', first), ('or_ OR and_', lambda v: ['MATHOP', 'or', v[0], v[2]]),
     ('or_ BADOR and_', lambda v: ['MATHOP', 'or', v[0], v[2]]))
rule('and_', ('not_', first), ('and_ AND not_', lambda v: ['MATHOP', 'and', v[0], v[2]]),
     ('and_ BADAND not_', lambda v: ['MATHOP', 'and', v[0], v[2]]))
rule('not_', ('comp', first), ('NOT not_', lambda v: ['UNARY', 'not', v[1]]))
rule('comp', ('sum', first), *[('sum %s sum' % o, binary) for o in ('<', '>', 'GTE', 'LTE', 'NEQ', 'ISEQUAL', 'IN')])
rule('comp', ('sum NOT IN sum', lambda v: ['MATHOP', 'not in', v[0], v[3]]))
rule('sum', ('prod', first), ('sum + prod', binary), ('sum - prod', binary))
rule('prod', ('sign', first), *[('prod %s sign' % o, binary) for o in '*/^&|'])
rule('sign', ('pow', first), ('- sign', lambda v: ['SIGN', v[0], v[1]]), ('+ sign', lambda v: ['SIGN', v[0], v[1]]))
rule('pow', ('prim', first), ('prim POWER sign', lambda v: ['MATHOP', '**', v[0], v[2]]))
rule('prim', ('atom', first), ('prim attr', lambda v: ['ATTRIBUTE', v[0], v[1]]),
     ('prim [ expr ]', lambda v: ['SUBSCRIPTION', v[0], v[2]]), ('prim [ slice ]', lambda v: ['SLICE', v[0], [v[2]]]),
     ('prim [ slices ]', lambda v: ['SLICE', v[0], v[2]]),
     ('ID OPEN_PAREN CLOSE_PAREN', lambda v: ['FUNC_CALL', v[0], []]),
     ('ID OPEN_PAREN args CLOSE_PAREN', lambda v: ['FUNC_CALL', v[0], v[2]]))
rule('attr', ('. ID', lambda v: v[1]), ('REAL', lambda v: v[0][1:]))
rule('atom', ('ID', lambda v: ['ATOM', v[0]]), ('ITEM_TAG', lambda v: ['ATOM', ['ITEM_TAG', v[0]]]),
     ('string', lambda v: ['ATOM', ['LITERAL', v[0]]]),
     *[(n, lambda v: ['ATOM', ['LITERAL', v[0]]]) for n in ('INTEGER', 'HEXINT', 'OCTINT', 'BININT', 'REAL', 'IMAGINARY')])
rule('atom', ('OPEN_PAREN exprs CLOSE_PAREN', lambda v: ['ATOM', ['GROUP', v[1]]]),
     ('OPEN_PAREN CLOSE_PAREN', lambda v: ['ATOM', ['GROUP']]),
     ('` exprs `', lambda v: ['ATOM', ['FUNC_CALL', 'str', v[1]]]),
     ('[ mnl expr elems mnl ]', lambda v: ['ATOM', ['LIST', v[2]] + v[3]]), ('[ mnl ]', lambda v: ['ATOM', ['LIST']]),
     ('{ mnl string : expr entries mnl }', lambda v: ['ATOM', ['TABLE', (v[2], v[4])] + v[5]]),
     ('{ mnl }', lambda v: ['ATOM', ['TABLE']]))
rule('string', ('STRPREFIX SHORTSTRING', lambda v: v[0] + v[1]), ('STRPREFIX LONGSTRING', lambda v: v[0] + v[1]),
     ('SHORTSTRING', first), ('LONGSTRING', first))
rule('elems', (', mnl expr', lambda v: [v[2]]), ('elems , mnl expr', lambda v: v[0] + [v[3]]), ('', lambda v: []))
rule('entries', (', mnl string : expr', lambda v: [(v[2], v[4])]),
     ('entries , mnl string : expr', lambda v: v[0] + [(v[3], v[5])]), ('', lambda v: []))
rule('slice', ('short', first), ('short : expr', lambda v: v[0] + [NOTHING] * (2 - len(v[0])) + [v[2]]))
rule('short', (':', lambda v: []), ('expr : expr', lambda v: [v[0], v[2]]), (': expr', lambda v: [NOTHING, v[1]]),
     ('expr :', lambda v: [v[0]]))
rule('slices', ('slitem', lambda v: [v[0]]), ('slices , slitem', lambda v: v[0] + [v[2]]))
rule('slitem', ('expr', first), ('slice', first))
rule('args', ('expr', lambda v: [v[0]]), ('args , expr', lambda v: v[0] + [v[2]]))
rule('dots', ('. ID = expr', lambda v: [[v[1], v[3]]]), ('dots , . ID = expr', lambda v: v[0] + [[v[3], v[5]]]))
rule('ids', ('ID', lambda v: [v[0]]), ('ids , ID', lambda v: v[0] + [v[2]]))
rule('compound', *[(n, lambda v: stmts([v[0]])) for n in ('if_', 'ifelse', 'for_', 'do_', 'loop_', 'with_', 'repeat_', 'def_')])
rule('ifelse', ('if_ ELSE suite', lambda v: v[0] + [v[2]]))
rule('if_', ('IF OPEN_PAREN expr CLOSE_PAREN mnl suite', lambda v: ['IF_EXPR', v[2], v[5], []]),
     ('if_ ELSEIF OPEN_PAREN expr CLOSE_PAREN mnl suite', lambda v: v[0][:3] + [v[0][3] + [[v[3], v[6]]]]))
rule('suite', ('stmt', first), ('{ mnl many } mnl', lambda v: v[2]))
rule('for_', ('FOR ids IN exprs suite', lambda v: ['FOR', v[1], v[3], v[4]]),
     ('FOR [ ids ] IN exprs suite', lambda v: ['FOR', v[2], v[5], v[6]]))
rule('loop_', ('loophead suite', lambda v: ['LOOP'] + v[0] + [v[1]]))
rule('loophead', ('LOOP ID AS ID', lambda v: [v[1], v[3], '', '', '']),
     ('LOOP ID AS ID : ID', lambda v: [v[1], v[3], v[5], '', '']),
     *[('LOOP ID AS ID : ID %s ID' % o, lambda v: [v[1], v[3], v[5], v[6], v[7]])
       for o in ('<', '>', 'GTE', 'LTE', 'NEQ', 'ISEQUAL')])
rule('do_', ('dohead suite', lambda v: v[0] + [v[1]]))
rule('dohead', ('DO ID = expr , expr', lambda v: ['DO', v[1], v[3], v[5], ONE]),
     ('DO ID = expr , expr , expr', lambda v: ['DO', v[1], v[3], v[5], v[7]]))
rule('repeat_', ('REPEAT suite', lambda v: ['REPEAT', v[1]]))
rule('with_', ('withhead mnl suite', lambda v: v[0] + [v[2]]))
rule('withhead', ('WITH ID AS ID', lambda v: ['WITH', v[1], v[3]]))
rule('def_', ('FUNCTION ID OPEN_PAREN params CLOSE_PAREN suite', lambda v: ['FUNCTION', v[1], v[3], v[5]]))
rule('params', ('ID : list', lambda v: [(v[0], v[2])]), ('params , ID : list', lambda v: v[0] + [(v[2], v[4])]))
rule('list', ('[ mnl expr elems mnl ]', lambda v: ['LIST', v[2]] + v[3]), ('[ mnl ]', lambda v: ['LIST']))
rule('mnl', ('nls', lambda v: None), ('', lambda v: None))
rule('nls', ('NEWLINE', lambda v: None), ('nls NEWLINE', lambda v: None))

TERMINALS = ('SHORTSTRING LONGSTRING INTEGER BININT HEXINT OCTINT REAL POWER ISEQUAL NEQ GTE LTE IMAGINARY ID ITEM_TAG '
             'STRPREFIX AND BADAND OR BADOR IN NOT DO FOR LOOP REPEAT AS WITH ELSEIF ELSE BREAK NEXT IF AUGOP PRINT '
             'FUNCTION NEWLINE OPEN_PAREN CLOSE_PAREN').split()
# tokens that carry text of the author; the others stand for themselves
TEXTUAL = ('SHORTSTRING LONGSTRING INTEGER BININT HEXINT OCTINT REAL IMAGINARY ID ITEM_TAG STRPREFIX').split()
FIXED = {'POWER': '**', 'ISEQUAL': '==', 'NEQ': '!=', 'GTE': '>=', 'LTE': '<=', 'BADAND': '&&', 'BADOR': '||', 'IN': 'in',
         'AND': 'and', 'OR': 'or', 'NOT': 'not', 'AUGOP': '+=', 'OPEN_PAREN': '(', 'CLOSE_PAREN': ')', 'NEWLINE': '\n',
         'DO': 'do', 'FOR': 'for', 'LOOP': 'loop', 'REPEAT': 'repeat', 'AS': 'as', 'WITH': 'with', 'ELSEIF': 'else if',
         'ELSE': 'else', 'BREAK': 'break', 'NEXT': 'next', 'IF': 'if', 'PRINT': 'print', 'FUNCTION': 'function'}

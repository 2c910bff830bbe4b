"""Writing: WriteOut and printsection interpreted over collections with anonymous names and values; what is written, as a sequence
of tokens, says what the collection holds, and is read back as it."""
from sa import mini
from sa.mini import Abs, Inst, Native, Raise, Unsupported
from sa.program import AnalysisBroken
from . import reading
from .reading import ADict, AList, FileInterp, Name, Tok
from .scanner import exc_name

CHARSET = {'1.0': 'ascii', '1.1': 'ascii', '2.0': 'unicode', 'STAR2': 'unicode'}


class Val(Abs):
    """the text written for a value (or for a key of a table)"""
    kind = 'written'

    def __init__(self, of, key=False):
        self.of, self.key = of, key

    def truth(self, it):
        return True

    def isinstance(self, it, c):
        return str in (c if isinstance(c, tuple) else (c,))

    def binop(self, it, op, other, reflected):
        if op == 'Add' and isinstance(other, (str, Abs)):
            return mini.Text((other, self) if reflected else (self, other))
        raise Unsupported('%s of a written value' % op)

    def length(self, it):
        raise Unsupported('length of a written value')


class Printer(Abs):
    """CIFStringIO: passes texts on, with white space before them where asked for, and may add more; a delimiter is left out behind
    white space only (decided by C11)"""
    kind = 'CIFStringIO'

    def __init__(self):
        self.parts = []

    def write(self, text, canbreak=False, mustbreak=False, do_tab=True, newindent=False, unindent=False, delimiter=False,
              startcol=-1):
        if mustbreak:
            self.parts.append('\n')
        self.parts.append(text)

    def getattr(self, it, name):
        if name == 'write':
            return Native(name, self.write)
        if name == 'set_tab':
            return Native(name, lambda n: None)
        if name == 'getvalue':
            return Native(name, lambda: mini.Text(tuple(self.parts)))
        if name in ('close', 'flush'):
            return Native(name, lambda: None)
        raise Unsupported('CIFStringIO.%s' % name)


class Out(Printer):
    kind = 'StringIO'

    def write(self, text):
        self.parts.append(text)


class Nonsense(Exception):
    pass


def flat(x):
    if isinstance(x, str):
        yield from x
    elif isinstance(x, mini.Text):
        for p in x.parts:
            yield from flat(p)
    elif isinstance(x, Name):
        yield from x.head
        yield Name(x.root, x.case)
        yield from x.tail
    elif isinstance(x, Val):
        yield x
    else:
        raise Nonsense('%r is written' % (x,))


def tokens(text, gram):
    """the tokens of a written text; a token is followed by white space, a bracket, a comma, or a colon if it is a key"""
    atoms = list(flat(text))
    new = 'triple_quote_data_value' in gram.tokens
    out, i = [], 0
    while i < len(atoms):
        a = atoms[i]
        if a in (' ', '\n', '\t'):
            i += 1
            continue
        if a == '#':
            while i < len(atoms) and atoms[i] != '\n':
                i += 1
            continue
        if new and isinstance(a, str) and a in '[]{}':
            out.append(({'[': 'o_s_b', ']': 'c_s_b', '{': 'o_c_b', '}': 'c_c_b'}[a], a))
            i += 1
            continue
        if ',' in gram.tokens and a == ',':
            out.append((',', ','))
            i += 1
            continue
        j = i
        while j < len(atoms) and atoms[j] not in (' ', '\n', '\t') and not (new and isinstance(atoms[j], str) and atoms[j] in '[]{}') and not (
                ',' in gram.tokens and atoms[j] == ','):
            j += 1
        word, i = atoms[i:j], j
        lead = ''.join(x for x in word[:5] if isinstance(x, str))
        if len(word) == 1 and isinstance(word[0], Name):
            out.append(('data_name', word[0]))
        elif len(word) == 1 and isinstance(word[0], Val) and not word[0].key:
            out.append(('value', word[0].of))
        elif len(word) >= 2 and isinstance(word[0], Val) and word[0].key and word[1] == ':':
            out += [('value', word[0].of), (':', ':')]
            if len(word) == 3 and isinstance(word[2], Val) and not word[2].key:
                out.append(('value', word[2].of))
            elif len(word) > 2:
                raise Nonsense('something stands behind the colon: %r' % (word,))
        elif word == list('loop_'):
            out.append(('LBLOCK', 'loop_'))
        elif word == list('save_'):
            out.append(('save_end', 'save_'))
        elif len(word) == 6 and isinstance(word[5], Name) and lead in ('data_', 'save_'):
            out.append((lead + 'heading', Name(word[5].root, word[5].case, '', lead)))
        elif all(isinstance(x, str) for x in word):
            w = ''.join(word)
            out.append(('data_name', w) if w[0] == '_' else ('value', w))        # a number
        else:
            raise Nonsense('%s is written' % ''.join(x if isinstance(x, str) else repr(x) for x in word))
    return out


def prepare(it):
    g = it.globals.vars
    g['CIFStringIO'] = Native('CIFStringIO', lambda *a, **k: Printer())
    g['StringIO'] = Native('StringIO', lambda *a: Out())
    for n, v in list(g.items()):
        if isinstance(v, mini.ClassVal) and v.name == 'StarBlock':
            v.methods['_formatstring'] = Native('_formatstring', lambda me, t, *a, **k: Val(t))
            v.methods['_format_key'] = Native('_format_key', lambda me, t, *a: Val(t, True))


# ---- what a collection holds

def seen(v):
    if isinstance(v, AList):
        return ('list', tuple(seen(x) for x in v))
    if isinstance(v, ADict):
        return ('table', tuple((k, seen(x)) for k, x in v.items()))
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return ('number', str(v))
    if isinstance(v, reading.Lines):
        return ('text', v.parts)
    return v


def contents(it, b):
    out = []
    for o in list(it.call(it.getattr(b, 'GetItemOrder'), [])):
        case = it.getattr(b, 'true_case')
        if isinstance(o, int):
            names = list(it.getattr(b, 'loops')[o])
            cols = [it.call(it.getattr(b, 'GetItemValue'), [n]) for n in names]
            if any(not isinstance(c, list) for c in cols) or len({len(c) for c in cols}) != 1:
                raise AnalysisBroken('a loop that is none')     # C03
            out.append(('loop', tuple(case[n] for n in names), tuple(seen(x) for row in zip(*cols) for x in row)))
        else:
            v = it.call(it.getattr(b, 'GetItemValue'), [o])
            if isinstance(v, list) and not isinstance(v, AList):
                v = ('list', tuple(seen(x) for x in v))
            out.append(('item', case[o], seen(v)))
    return out


def observe(it, f, nested):
    """[(heading, contents, frames)] as the queries say; frames in frames as such, or (not nested) as frames of the block"""
    table = it.getattr(f, 'child_table')
    order = list(it.getattr(f, 'block_input_order'))

    def of(k):
        kids = [c for c in order if table[c].parent == k]
        return (table[k].block_id, contents(it, it.getitem(f, k)), [of(c) for c in kids])

    def level(frames):
        return [x for f in frames for x in [(f[0], f[1], [])] + level(f[2])]
    tops = [of(k) for k in order if table[k].parent is None]
    if nested:
        return tops
    flat = []
    for k, t in zip([k for k in order if table[k].parent is None], tops):
        below = {id(x[0]): x for x in level(t[2])}
        inorder = [table[c].block_id for c in order if id(table[c].block_id) in below]
        flat.append((t[0], t[1], [below[id(h)] for h in inorder]))
    return flat


FORMAT = {'formatting_hints', 'wraplength', 'maxoutlength', 'string_delimiters', 'list_delimiter', 'output_order', 'output_loops', 'wrapper'}


def freeze(x, skip=(), memo=None):
    memo = {} if memo is None else memo
    if isinstance(x, (Abs, str, int, float, type(None))):
        return x if not isinstance(x, Name) else ('name', x.id, x.case)
    if id(x) in memo:
        return ('seen', memo[id(x)])
    memo[id(x)] = len(memo)
    if isinstance(x, dict):
        return (type(x).__name__,) + tuple((freeze(k), freeze(v, skip, memo)) for k, v in x.items())
    if isinstance(x, (set, frozenset)):
        return ('set', frozenset(freeze(k) for k in x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(v, skip, memo) for v in x)
    if isinstance(x, Inst) and isinstance(x.cls, mini.ClassVal):
        return Obj(x.cls.name, {k: freeze(v, skip, memo) for k, v in x.attrs.items() if k not in skip})
    return id(x)


class Obj:
    def __init__(self, name, attrs):
        self.name, self.attrs = name, attrs

    def __eq__(self, other):        # attributes that were not there before are working data
        return isinstance(other, Obj) and self.name == other.name and all(k in other.attrs and other.attrs[k] == v for k, v in self.attrs.items())

    def __hash__(self):
        return hash(self.name)


def difference(a, b, path='the file'):
    if a == b:
        return None
    if isinstance(a, Obj) and isinstance(b, Obj):
        for k, v in a.attrs.items():
            if k not in b.attrs or b.attrs[k] != v:
                return difference(v, b.attrs.get(k), '%s.%s' % (a.name, k))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a[:1] == b[:1]:
        for x, y in zip(a, b):
            if x != y:
                return difference(x, y, path)
    return path


def loaded(it, gram, blocks, g, standard):
    """a collection with these blocks"""
    fl = reading.File('new' if 'triple_quote_data_value' in gram.tokens else 'old', g == 'STAR2')
    fl.blocks(blocks)
    f = it.call(it.globals.vars['StarFile'], [], {'standard': standard})
    f = reading.Reader(it, gram, fl.toks).rule('input', [f])
    it.call(it.getattr(f, 'set_grammar'), [g])
    return f


def again(it, gram, toks, standard):
    """read the tokens written"""
    new = 'triple_quote_data_value' in gram.tokens
    out = []
    for n, (k, x) in enumerate(toks):
        if k == 'value':
            if isinstance(x, str):
                x = Number(x)
                k = 'data_value_1'
            else:
                t = Tok('q', 1000 + n)
                t.body = x
                k, x = ('single_quote_data_value' if new else 'data_value_1'), t
        out.append((k, x))
    f = it.call(it.globals.vars['StarFile'], [], {'standard': standard})
    rd = reading.Reader(it, gram, out)
    f = rd.rule('input', [f])
    if rd.i < len(out):
        raise reading.Refused('nothing more')
    return f


class Number(Tok):
    def __init__(self, text):
        Tok.__init__(self, 'b', 'number')
        self.text = text


def written(it, gram, f, g, standard, kw={}, sort=None):
    """-> [(rule, what is wrong with the text written from f)]"""
    want = observe(it, f, g == 'STAR2')
    before = freeze(f, FORMAT)
    prepare(it)
    try:
        text = it.call(it.getattr(f, 'WriteOut'), [], kw)
    except Raise as r:
        return [('refused', 'WriteOut raises %s' % exc_name(r.exc))]
    out = []
    d = difference(before, freeze(f, FORMAT))
    if d:
        out.append(('changed', 'WriteOut changes %s' % d))
    try:
        toks = tokens(text, gram)
        f2 = again(it, gram, toks, standard)
    except Nonsense as e:
        return out + [('text', str(e))]
    except reading.Refused as e:
        return out + [('text', 'the text written is not read again: %s expected' % e)]
    except Raise as r:
        return out + [('text', 'the text written is not read again: %s' % exc_name(r.exc))]
    want = [rows(b) for b in want]
    if sort:
        want = sort(want)
    why = reading.compare(it, f2, want)
    return out + ([('contents', 'read again, %s' % why)] if why else [])


def rows(b):
    """a loop without packets is not written"""
    return (b[0], [x for x in b[1] if x[0] == 'item' or x[2]], [rows(c) for c in b[2]])


# ---- templates

def hints(names, loop):
    out = []
    for i, n in enumerate(names):
        h = {'dataname': n.lower() if isinstance(n, Name) else n}
        if i % 3 == 0:
            h.update(column=20, name_pos=i)
        elif i % 3 == 1:
            h.update(delimiter='"', column=1, name_pos=0)
        else:
            h.update(delimiter='\n;', name_pos=2, reformat=False)
        out.append(h)
    return ([{'dataname': 'loop', 'name_pos': 2}] if loop else []) + out


def by_template(names):
    """the order of the contents of a block under a template that asks for these names"""
    low = [n.lower() for n in names]

    def of(b):
        left = list(b[1])
        first = []
        for n in low:
            for x in left:
                if x[0] == 'item' and x[1].lower() == n:
                    first.append(x)
                elif x[0] == 'loop' and n in [c.lower() for c in x[1]]:
                    k = len(x[1])
                    cols = {c.lower(): (c, x[2][i::k]) for i, c in enumerate(x[1])}
                    order = [m for m in low if m in cols] + [c.lower() for c in x[1] if c.lower() not in low]
                    first.append(('loop', tuple(cols[m][0] for m in order),
                                  tuple(v for row in zip(*[cols[m][1] for m in order]) for v in row)))
                else:
                    continue
                left.remove(x)
                break
        return (b[0], first + left, [of(c) for c in b[2]])
    return lambda want: [of(b) for b in want]


def item_names(blocks):
    def of(es):
        for e in es:
            if e[0] == 'i':
                yield e[1]
            elif e[0] == 'l':
                yield from e[1]
            else:
                yield from of(e[2])
    out = []
    for h, es in blocks:
        for n in of(es):
            if n.lower() not in out:
                out.append(n.lower())
    return out


def by_blocks(order, nested):
    at = {n.lower(): i for i, n in enumerate(order)}

    def sort(want):
        want = sorted(want, key=lambda b: at[b[0].lower()])
        return want if nested else [(b[0], b[1], sorted(b[2], key=lambda c: at[c[0].lower()])) for b in want]
    return sort

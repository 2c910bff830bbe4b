"""The compiled tokeniser (lex.yy.c): its tables decoded and compared with an automaton of the written rules for every text;
the code around the tables interpreted from clang's syntax tree together with py_star_scan.c."""
import itertools
import os
from concurrent.futures import ProcessPoolExecutor

from sa import cmini, mini
from sa.cmini import Block, Fault, Ptr
from sa.mini import Cut, Unsupported
from sa.program import AnalysisBroken
from . import cscan, flexref

NEEDED = ('yy_accept', 'yy_ec', 'yy_meta', 'yy_base', 'yy_def', 'yy_nxt', 'yy_chk')
SIZES = [(8192, 16384), (8, 16), (3, 5), (1, 4)]


class Api(cscan.Api):
    """the C library as far as a flex scanner uses it"""

    def __init__(self, trees, d):
        super().__init__(trees, d, None)
        for n in ('star_scanner', 'star_clear'):
            self.c.natives.pop(n, None)
        self.written = 0
        self.errno = self.ctype = None

    def n___errno_location(self):
        if self.errno is None:
            self.errno = Ptr(Block('errno', 4, data={0: 0}))
        return self.errno

    def n_fileno(self, f):
        return 0

    def n_isatty(self, fd):
        return 0

    def n_fwrite(self, p, size, n, f):
        self.written += size * n
        return n

    def n_putchar(self, ch):
        self.written += 1
        return ch

    def n_exit(self, code):
        self.c.fault('exit', 'the process is ended')

    n_abort = n_exit

    def n_isspace(self, ch):
        return int(ch in (32, 9, 10, 11, 12, 13))

    def n_isblank(self, ch):
        return int(ch in (32, 9))

    def n_strchr(self, p, ch):
        i = p.off
        while True:
            x = self.c.load(Ptr(p.block, i), 'char')
            if x == ch:
                return Ptr(p.block, i)
            if x == 0:
                return 0
            i += 1

    def n_memchr(self, p, ch, n):
        for i in range(n):
            if self.c.load(Ptr(p.block, p.off + i), 'char') == ch:
                return Ptr(p.block, p.off + i)
        return 0

    def n___ctype_b_loc(self):
        if self.ctype is None:
            t = Block('the table of character classes', 768)
            for c in range(-128, 256):
                ch = chr(c) if 0 <= c < 128 else ''
                t.data[(c + 128) * 2] = sum(bit for bit, yes in (
                    (0x100, ch.isupper()), (0x200, ch.islower()), (0x400, ch.isalpha()), (0x800, ch.isdigit()),
                    (0x1000, ch and ch in '0123456789abcdefABCDEF'), (0x2000, ch and ch in ' \t\n\v\f\r'),
                    (0x4000, ch and ' ' <= ch <= '~'), (0x8000, ch and ' ' < ch <= '~'), (1, ch and ch in ' \t'),
                    (2, ch and (ch < ' ' or ch == '\x7f')), (4, ch and ' ' < ch <= '~' and not ch.isalnum()), (8, ch.isalnum())) if yes)
            self.ctype = Ptr(Block('ctype', 8, data={0: Ptr(t, 256)}))
        return self.ctype


# ---- the tables

def array(trees, name):
    for t in trees:
        for n in t['inner']:
            if n['kind'] == 'VarDecl' and n.get('name') == name and 'inner' in n:
                out = []
                for x in cmini.find(n, lambda y: y['kind'] == 'IntegerLiteral'):
                    out.append(int(x['value']))
                size = int(n['type']['qualType'].split('[')[1].split(']')[0])
                if len(out) > size:
                    raise AnalysisBroken('table %s is not a list of numbers' % name)
                return out + [0] * (size - len(out))
    return None


def constants(tree):
    """(number of states, base of the state in which nothing follows) as the matching loop uses them"""
    c = cmini.C([tree], None)
    fn = c.funcs.get('star_scanner')
    if fn is None:
        raise AnalysisBroken('star_scanner not found')
    ge, jam = set(), set()
    for n in cmini.find(fn, lambda y: y['kind'] == 'BinaryOperator' and y.get('opcode') in ('>=', '!=', '==', '<')):
        names = [x['referencedDecl']['name'] for x in cmini.find(n, lambda y: y['kind'] == 'DeclRefExpr')]
        lits = [int(x['value']) for x in cmini.find(n, lambda y: y['kind'] == 'IntegerLiteral')]
        if len(lits) == 1:
            if n['opcode'] in ('>=', '<') and names == ['yy_current_state']:
                ge.add(lits[0])
            if n['opcode'] in ('!=', '==') and names == ['yy_base', 'yy_current_state']:
                jam.add(lits[0])
    return ge, jam


class Tables:
    def __init__(self, tree):
        for n in NEEDED:
            v = array([tree], n)
            if v is None:
                raise AnalysisBroken('table %s not found' % n)
            setattr(self, n, v)
        ge, jam = constants(tree)
        if len(ge) != 1 or len(jam) != 1:
            raise AnalysisBroken('the matching loop is not understood: %s %s' % (ge, jam))
        self.last, self.jam = ge.pop(), jam.pop()

    def dead(self, s):
        return self.yy_base[s] == self.jam

    def step(self, s, byte):
        c = self.yy_ec[byte]
        for _ in range(1000):
            if self.yy_chk[self.yy_base[s] + c] == s:
                return self.yy_nxt[self.yy_base[s] + c]
            s = self.yy_def[s]
            if s >= self.last:
                c = self.yy_meta[c]
        raise IndexError('no end')


def compare(ctx, tab):
    seen_rule = {}
    pairs = 0
    for name, start in (('INITIAL', 1), ('TEXT', 3)):
        ref = flexref.machine(name)
        todo = [(start, ref.start, b'')]
        done = {(start, ref.start)}
        while todo:
            s, r, w = todo.pop(0)
            for byte in range(1, 256):
                try:
                    t = tab.step(s, byte) if s is not None else None
                except IndexError:
                    ctx.violation('table', 'byte %d in state %d' % (byte, s), 'the tables are left (after %r)' % w, cscan.LEXC)
                    return pairs
                # in the state with the jam base nothing follows; the rule it accepts (none) does not count
                lab = None
                if t is not None:
                    lab = tab.yy_accept[t] or None
                    if tab.dead(t):
                        if lab is None:
                            t = None
                q = ref.step(r, byte)
                want = ref.label(q)
                if t is None and not q:
                    continue
                pairs += 1
                word = w + bytes([byte])
                if (lab is None) != (want is None):
                    ctx.violation('table', 'rules of state %s' % name, '%r is %s, should be %s' % (
                        word, 'a token of rule %s' % lab if lab else 'no token', want or 'no token'), cscan.LEXC)
                elif lab is not None:
                    seen_rule.setdefault(lab, {}).setdefault(want, word)
                # behind a state with the jam base the tables lead nowhere
                t2 = None if t is None or tab.dead(t) else t
                if (t2, q) not in done:
                    done.add((t2, q))
                    todo.append((t2, q, word))
    for rule, labs in sorted(seen_rule.items()):
        if len(labs) > 1:
            ctx.violation('table', 'rule %d' % rule, 'is applied to ' + ' and to '.join('%r (%s)' % (w, l) for l, w in sorted(labs.items())),
                          cscan.LEXC)
    ctx.coverage['rules'] = {str(k): sorted(v) for k, v in sorted(seen_rule.items())}
    return pairs


# ---- the code

def trees_for(size):
    key = size
    if key not in trees_for.memo:
        t1, e1 = cmini.tree(cscan.PY)
        t2, e2 = cmini.tree(cscan.LEXC, defines=['YY_READ_BUF_SIZE=%d' % size[0], 'YY_BUF_SIZE=%d' % size[1]], stubs=False)
        if e1 or e2:
            raise AnalysisBroken('clang: %s' % (e1 + e2)[0])
        trees_for.memo[key] = [t1, t2], cscan.methods([t1])
    return trees_for.memo[key]


trees_for.memo = {}


def read(api, table, text, limit=None):
    """tokens of the text -> (list, problem)"""
    r = api.method(table['prepare'], cscan.string(api.c, text))
    if not isinstance(r, cscan.Obj):
        return [], ('refused', table['prepare'], 'raises %s' % api.exc)
    out = []
    for i in range(len(text) + 3):
        if limit is not None and i >= limit:
            break
        r = api.method(table['token'], i)
        if not isinstance(r, cscan.Obj):
            # a token that is no UTF-8 text
            if api.exc == 'UnicodeDecodeError':
                return out + [('undecodable',)], None
            return out, ('exception', 'star_scanner', 'raises %s' % api.exc)
        line, _, kind, val = [x.data if isinstance(x, cscan.Obj) else x for x in r.data]
        out.append((line, kind, val))
        if kind in ('END', '(error)'):
            break
    return out, None


def normal(ts):
    out = []
    for t in ts:
        if t[0] != 'undecodable' and t[1] != '(error)' and t[2] is not None:
            try:
                t[2].decode('utf-8')
            except UnicodeDecodeError:
                t = ('undecodable',)
        if t[0] == 'undecodable':
            return out + [t]
        out.append((t[0], t[1], None if t[1] == '(error)' else t[2]))
    return out


class Scan(Api):
    def unicode(self, raw):
        try:
            raw.decode('utf-8')
        except UnicodeDecodeError:
            self.exc = 'UnicodeDecodeError'
            return 0
        return self.new('str', raw)


def job(task):
    """(size, [history]) where a history is a list of (text, tokens to read or None) -> [(rule, function, text)] , number, missed"""
    size, hists = task
    trees, table = trees_for(size)
    bad, n, missed = [], 0, []
    for h in hists:
        def go(d):
            api = Scan(trees, d)
            c = api.c
            c.call([x for x in c.funcs if x.startswith('PyInit_')][0], [])
            for k, (text, limit) in enumerate(h):
                c.steps = 40000 + 4000 * len(text)
                try:
                    got, problem = read(api, table, text, limit)
                except Cut:
                    return 'endless', 'star_scanner', 'does not come to an end (text %r, buffer %s)' % (text[-60:], size)
                except Fault as e:
                    return e.rule, 'star_scanner', '%s (text %r, buffer %s)' % (e.text, text[-60:], size)
                if problem:
                    return problem[0], problem[1], '%s (text %r)' % (problem[2], text[-60:])
                want = normal(flexref.tokens(text))[:limit]
                got = normal(got)
                if got != want:
                    i = next((i for i, (a, b) in enumerate(itertools.zip_longest(got, want)) if a != b), 0)
                    return ('token' if k == 0 and size[0] > 1000 else 'reset' if k else 'buffer', 'star_scanner',
                            '%stoken %d of %r is %s, should be %s%s' % (
                                'after %r: ' % h[k - 1][0] if k else '', i, text[-70:], got[i:i + 1] or 'missing', want[i:i + 1] or 'none',
                                ' (buffer of %d bytes)' % size[1] if size[0] < 1000 else ''))
                if api.written:
                    return 'output', 'star_scanner', '%r is printed in part' % text
            return None
        try:
            for r in mini.explore(go, limit=2):
                n += 1
                if r:
                    bad.append(r)
        except (AnalysisBroken, Unsupported, Cut) as e:
            missed.append('%s: %s' % (h, e))
            if len(missed) > 20:
                break
        if len(bad) > 3:
            break
    return bad, n, missed


PIECES = [b'\n', b'\r\n', b'\r', b' ', b'\t', b';', b"'", b'"', b'#', b'_', b'a', b'loop_', b'DATA_', b'Save_', b'sTop_', b'globaL_',
          b'$', b'[', b'\x01', b'\xc3\xa9', b'.', b'5']
LONG = [b'data_x\n_a 1\n', b"_name 'it''s' \"b'\"  # comment here\n_b\n;text\n\n more;\nlast\n;\n_c loop_\n", b"\n;x\r\ny\r\n;\r\n#c\r\nsave_ab save_\r\n",
        b"'unclosed\n", b'"a b" "c"d" e', b"_abcdefghijklmnopqrstuvwxyz_0123456789 value-of-some-length\n",
        b"# a comment longer than any buffer used here, to the end of the line\n ;text\n", b"\n;\n;\n\n;\n \n;", b"   \t  \n\n\n  x", b"x\n;", b"\n;abc"]


def tasks(tier):
    big = SIZES[0]
    # longer than a read, longer than the buffer
    k = 17000
    for t in (b'_a ' + b'x' * k + b' y\n', b'_' + b'n' * (k // 2) + b' y\n', b"'" + b"q'" * (k // 4) + b"' y", b'\n;' + b't' * (k // 2) + b'\nu\n;\ny',
              b'#' + b'c' * (k // 2) + b'\ny', b' ' * (k // 2) + b'y', b'data_' + b'n' * (k // 2) + b'\ny', b'save_' + b'n' * (k // 2) + b'\ny',
              b'"' + b'q' * (k // 2) + b'" y'):
        yield big, [[(t, None)]]
    n = 3 if tier == 'thorough' else 2
    texts = [b''.join(p) for k in range(0, n + 1) for p in itertools.product(PIECES, repeat=k)]
    texts += [b'\n;a\n' + b''.join(p) for k in range(1, n + 1) for p in itertools.product(PIECES, repeat=k)]
    bodies = [b'q', b' ', b'\t', b'a', b'o']
    for q, o in ((b"'", b'"'), (b'"', b"'")):
        for k in range(0, 5 if tier == 'thorough' else 4):
            for p in itertools.product(bodies, repeat=k):
                b = b''.join(p).replace(b'q', q).replace(b'o', o)
                texts += [q + b + q, q + b + q + b' ' + q + b'x' + q]
    texts += LONG
    for i in range(0, len(texts), 120):
        yield big, [[(t, None)] for t in texts[i:i + 120]]
    for size in SIZES[1:]:
        for t in LONG + [x + b'\n' for x in LONG[4:8]]:
            yield size, [[(b' ' * k + t, None)] for k in range(0, size[1] + 2, 1 if tier == 'thorough' or size[1] < 10 else 3)]
    # the next text starts afresh, wherever the first was left
    firsts = [b"data_x _a\n;text\nmore\n;\n_b 'c' loop_\n", b'data_x $ y z\n', b"\n;a\n\x01\n;"]
    seconds = [b'data_y\n_a 1', b';x', b'\n;x\n;\n', b'']
    for size in (SIZES[0], SIZES[1]):
        for f in firsts:
            nt = len(flexref.tokens(f))
            yield size, [[(f, k), (s, None)] for k in range(0, nt + 1) for s in seconds] + [[(f, None), (s, None), (f, None)] for s in seconds]
    if tier == 'thorough':
        for k in (8190, 8191, 8192, 8193, 16382, 16383, 16384, 16385):
            for t in LONG[:4]:
                yield big, [[(b' ' * (k - 3) + t, None)], [(b'a' * (k - 3) + b' ' + t, None)]]


def run(ctx):
    tree, errs = cmini.tree(cscan.LEXC, stubs=False)
    if errs:
        raise AnalysisBroken('clang: ' + errs[0])
    pairs = compare(ctx, Tables(tree))
    ctx.floor('table_transitions', pairs, 2000)
    for size in SIZES:
        trees_for(size)
    n, missed = 0, []
    work = list(tasks(ctx.tier))
    with ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 2)) as ex:
        for bad, k, m in ex.map(job, work):
            n += k
            missed += m
            for rule, fn, text in bad:
                ctx.violation(rule, fn, text, cscan.LEXC)
    if missed:
        ctx.coverage['not_analysed'] = missed[:5]
        ctx.count('texts_not_analysed', len(missed))
    ctx.floor('texts', n, 800)
    ctx.assumptions = ['memory allocation succeeds', 'the C locale', 'text without NUL characters (refused by prepare, C08)']

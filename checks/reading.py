"""Reading: the actions of the grammars and the classes they fill, interpreted over files whose names and values are anonymous."""
import ast
import collections
import itertools

from sa import mini, program
from sa.mini import Abs, ClassVal, Inst, Native, Opaque, Raise, Unsupported
from sa.program import AnalysisBroken
from . import gramset, yapps
from .scanner import exc_name

SF = 'src/StarFile.nw'
CF = 'src/CifFile_module.nw'
YP = 'src/YappsStarParser.nw'


class Name(Abs):
    """a name of which only its identity (whatever the case), its spelling and what was appended are known"""
    kind = 'name'

    def __init__(self, root, case=0, tail='', head=''):
        self.id = (head, root, tail)
        self.head, self.root, self.case, self.tail = head, root, case, tail

    def __hash__(self):
        return hash((self.id, self.case))

    def __eq__(self, other):
        return isinstance(other, Name) and self.id == other.id and self.case == other.case

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        return '%s%s%s%s' % (self.head, self.root.upper() if self.case else self.root, "'" * (self.case > 1), self.tail)

    def truth(self, it):
        return True

    def lower(self):
        return Name(self.root, 0, self.tail, self.head.lower())

    def getattr(self, it, name):
        if name in ('lower', 'casefold'):
            return Native(name, lambda: self.lower())
        if name == 'strip' and not self.head:
            return Native(name, lambda *a: self)
        if name in ('replace', 'translate') and not self.head:
            def replace(*a):
                if all(isinstance(x, str) and not x.strip() for x in a[:1]):
                    return self
                raise Unsupported('name.%s%r' % (name, a))
            return Native(name, replace)
        if name in ('startswith', 'endswith'):
            raise Unsupported('name.%s' % name)
        if name in ('encode', 'join', 'split', 'upper', 'format', 'find', 'rstrip', 'lstrip', 'index', 'count', 'isalpha'):
            raise Unsupported('name.%s' % name)
        raise Raise(Inst(AttributeError, {'args': (name,)}))

    def binop(self, it, op, other, reflected):
        if op == 'Add' and isinstance(other, str) and not reflected:
            return Name(self.root, self.case, self.tail + other, self.head)
        if op == 'Add' and isinstance(other, str):
            return mini.Text((other, self))
        raise Unsupported('%s of a name' % op)

    def compare(self, it, op, other, reflected):
        if op in ('Eq', 'Is'):
            return self == other
        if op in ('NotEq', 'IsNot'):
            return self != other
        if op in ('Lt', 'Gt', 'LtE', 'GtE') and isinstance(other, Name):
            a, b = repr(self), repr(other)
            return {'Lt': a < b, 'Gt': a > b, 'LtE': a <= b, 'GtE': a >= b}[op] != (reflected and a != b)
        raise Unsupported('%s of a name' % op)

    def isinstance(self, it, c):
        return str in (c if isinstance(c, tuple) else (c,))

    def length(self, it):
        return Short()

    def within(self, it, c):
        raise Unsupported('name in a text')

    def getitem(self, it, k):
        if isinstance(k, slice) and self.head and k.start == len(self.head) and k.stop is None and k.step is None:
            return Name(self.root, self.case, self.tail)
        raise Unsupported('%r[%r]' % (self, k))

    def convert(self, it, t, a, kw):
        if t is str:
            return self
        raise Unsupported('%s of a name' % t)

    def arg_of(self, it, o, name, a):
        return mini.Text((o, name) + tuple(a))


class Short(Abs):
    """the length of a name, within what is allowed"""
    kind = 'length'

    def compare(self, it, op, other, reflected):
        if isinstance(other, int) and op in ('Gt', 'GtE', 'Lt', 'LtE'):
            big = other >= 75
            if not big and other > 0:
                raise Unsupported('length of a name compared with %d' % other)
            more = op[0] == 'G'
            if reflected:
                more = not more
            return more != big
        raise Unsupported('length of a name')


class Tok(Abs):
    """the text of a token that carries a value; the helper of the grammar gives its body"""
    kind = 'token'

    def __init__(self, what, i, bare=False):
        self.what, self.i, self.bare = what, i, bare

    def __repr__(self):
        return '%s%s' % (self.what, self.i)

    def truth(self, it):
        return True

    def isinstance(self, it, c):
        return str in (c if isinstance(c, tuple) else (c,))

    def compare(self, it, op, other, reflected):
        if op in ('Eq', 'Is'):
            return self is other
        raise Unsupported('%s of a value' % op)

    def getattr(self, it, name):
        if not hasattr('', name):
            raise Raise(Inst(AttributeError, {'args': (name,)}))
        if name in ('strip', 'rstrip', 'lstrip', 'lower', 'upper', 'expandtabs', 'replace', 'title'):
            return Native(name, lambda *a: Tok('changed', self.what))
        raise Unsupported('value.%s' % name)


class Body(Tok):
    """the value a text stands for"""


class Sink(Abs):
    kind = 'StringIO'

    def __init__(self):
        self.parts = []

    def getattr(self, it, name):
        if name == 'write':
            return Native(name, lambda x: self.parts.append(x))
        if name == 'getvalue':
            return Native(name, lambda: Lines(tuple(self.parts)))
        raise Unsupported('StringIO.%s' % name)


class Lines(Tok):
    kind = 'lines'

    def __init__(self, parts):
        self.parts = parts

    what = i = 'lines'

    def __repr__(self):
        return '<lines>'

    def binop(self, it, op, other, reflected):
        if op == 'Add':
            o = other.parts if isinstance(other, Lines) else (other,)
            return Lines(o + self.parts if reflected else self.parts + o)
        raise Unsupported('%s of lines' % op)


class TokText(Tok):
    """one of the tokens that make up a text field"""

    def binop(self, it, op, other, reflected):
        if op == 'Add':
            return Lines((self,)).binop(it, op, other, reflected)
        raise Unsupported('%s of lines' % op)


class AList(list):
    cls = None

    def __hash__(self):
        return id(self)


class ADict(dict):
    cls = None

    def __hash__(self):
        return id(self)


class ReStub(Abs):
    kind = 're'

    def getattr(self, it, name):
        if name == 'compile':
            return Native(name, lambda *a: Opaque('pattern'))
        if name == 'sub':
            def sub(p, r, text, *a):
                if isinstance(text, Name):      # names of tokens hold no white space
                    return text
                raise Unsupported('re.sub')
            return Native(name, sub)
        if name in ('M', 'MULTILINE', 'I', 'U', 'S', 'X', 'DOTALL', 'UNICODE', 'IGNORECASE', 'VERBOSE'):
            return 0
        raise Unsupported('re.%s' % name)


class CopyStub(Abs):
    kind = 'copy'

    def getattr(self, it, name):
        if name == 'deepcopy':
            return Native(name, deep)
        if name == 'copy':
            return Native(name, lambda x: shallow(x))
        raise Unsupported('copy.%s' % name)


def shallow(x):
    if isinstance(x, (AList, ADict)):
        y = type(x)(x)
        y.cls = x.cls
        return y
    if isinstance(x, (list, dict, set)):
        return x.copy()
    if isinstance(x, Inst):
        return Inst(x.cls, dict(x.attrs))
    return x


def deep(x, memo=None):
    memo = {} if memo is None else memo
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, dict):
        y = memo[id(x)] = type(x)()
        if isinstance(x, ADict):
            y.cls = x.cls
        for k, v in x.items():
            y[k] = deep(v, memo)
        return y
    if isinstance(x, list):
        y = memo[id(x)] = type(x)()
        if isinstance(x, AList):
            y.cls = x.cls
        y.extend(deep(v, memo) for v in x)
        return y
    if type(x) is tuple:
        return tuple(deep(v, memo) for v in x)
    if isinstance(x, Inst) and isinstance(x.cls, ClassVal):
        y = memo[id(x)] = Inst(x.cls)
        for k, v in x.attrs.items():
            y.attrs[k] = deep(v, memo)
        return y
    return x


class Thing(Opaque):
    """something of a library that is only stored"""

    def getattr(self, it, name):
        return Thing(self.name + '.' + name)

    def call(self, it, args, kw):
        return Thing(self.name + '()')


class FileInterp(mini.Interp):
    """the classes of StarFile.nw and CifFile_module.nw over anonymous names"""

    def __init__(self, dec, trees, steps=400000):
        mini.Interp.__init__(self, dec, steps)
        g = self.globals.vars
        g['unicode'] = str
        g['basestring'] = str
        g['long'] = int
        g['re'] = ReStub()
        g['copy'] = CopyStub()
        g['sys'] = Inst('module', {'maxunicode': 1114111, 'stderr': Opaque('stderr'), 'stdout': Opaque('stdout')})
        g['os'] = Opaque('os')
        g['textwrap'] = Thing('textwrap')
        g['have_pathlib'] = True
        g['True'], g['False'], g['None'] = True, False, None
        g['super'] = Native('super', self.b_super)
        self.namespace = Inst('module', {})
        for t in trees:
            self.load(t)
            g['StarFile_module'] = self.namespace
        self.classes = {n: v for n, v in g.items() if isinstance(v, ClassVal)}
        g['re'], g['copy'] = ReStub(), CopyStub()

    def module(self, name):
        if name == 'collections':
            return Inst('module', {'namedtuple': Native('namedtuple', self.namedtuple)})
        return {'re': ReStub(), 'copy': CopyStub()}.get(name) or Opaque(name)

    def namedtuple(self, name, fields, **k):
        return collections.namedtuple(name, fields if isinstance(fields, str) else list(fields), **k)

    def b_super(self, *a):
        if len(a) != 2:
            raise Unsupported('super()')
        return Super(*a)

    def instantiate(self, cls, args, kw):
        for b in cls.bases:
            if b in (list, dict):
                x = (AList if b is list else ADict)(*[self.call_type(b, list(args), kw)])
                x.cls = cls
                return x
        return mini.Interp.instantiate(self, cls, args, kw)

    def call_type(self, t, args, kw):
        if issubclass(t, tuple) and hasattr(t, '_fields'):
            return t(*args, **kw)
        if t is str and len(args) == 1 and isinstance(args[0], Inst) and isinstance(args[0].cls, ClassVal):
            r = args[0].cls.lookup('__str__')
            if r:
                return self.call(mini.Bound(r[0], args[0]), [])
        if t is type and len(args) == 1 and isinstance(args[0], (AList, ADict)):
            return args[0].cls
        return mini.Interp.call_type(self, t, args, kw)

    def getattr(self, o, name, node=None):
        if isinstance(o, tuple) and name in getattr(o, '_fields', ()):
            return getattr(o, name)
        if isinstance(o, tuple) and hasattr(o, '_fields') and name == '_replace':
            return Native(name, lambda **k: o._replace(**k))
        if isinstance(o, Super):
            for b in o.cls.bases:
                if isinstance(b, ClassVal):
                    r = b.lookup(name)
                    if r:
                        return mini.Bound(r[0], o.self_)
            if name in ('__init__',):
                return Native(name, lambda *a, **k: None)
            if name == '__setattr__':
                return Native(name, lambda n, v: o.self_.attrs.__setitem__(n, v))
            raise Raise(Inst(AttributeError, {'args': (name,)}))
        if isinstance(o, (AList, ADict)) and o.cls is not None:
            r = o.cls.lookup(name)
            if r:
                return mini.Bound(r[0], o)
        if o is set and name == '__init__':
            return Native(name, lambda *a: None)
        return mini.Interp.getattr(self, o, name, node)

    def b_isinstance(self, x, c):
        if isinstance(x, (AList, ADict)):
            for k in c if isinstance(c, tuple) else (c,):
                if isinstance(k, ClassVal) and x.cls.is_sub(k) or isinstance(k, type) and isinstance(x, k):
                    return True
            return False
        return mini.Interp.b_isinstance(self, x, c)

    def getitem(self, o, k, node=None):
        if isinstance(o, dict) and isinstance(k, (Name, str)):
            if k in o:
                return o[k]
            raise Raise(Inst(KeyError, {'args': (k,)}), node)
        return mini.Interp.getitem(self, o, k, node)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.expr(t.value, env)
                if isinstance(o, Inst) and isinstance(o.cls, ClassVal):
                    r = o.cls.lookup('__delitem__')
                    if r:
                        self.call(r[0], [o, self.key(t.slice, env)])
                        continue
            mini.Interp.s_Delete(self, ast.Delete(targets=[t]), env)

    def e_GeneratorExp(self, e, env):
        return mini.Generator(self.e_ListComp(e, env))

    def imported(self, module, name):
        if name == 'StringIO':
            return Native('StringIO', lambda *a: Sink())
        return mini.Interp.imported(self, module, name)

    def b_hasattr(self, o, name):
        if isinstance(o, Abs):
            try:
                o.getattr(self, name)
                return True
            except Raise:
                return False
        return mini.Interp.b_hasattr(self, o, name)


class Super:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


_trees = {}


def tree(which):
    path, root = program.SOURCES[which]
    if which not in _trees:
        lines, locs = program.read_source(path, root)
        _trees[which] = ast.parse('\n'.join(lines))
    return _trees[which]


# ---- the parser of a grammar

KINDS = {
    # what is written -> token kinds, per grammar family
    'old': {'b': 'data_value_1', 'q': 'data_value_1'},
    'new': {'b': 'data_value_1', 'q': 'single_quote_data_value', 't': 'triple_quote_data_value', '[': True, '{': True},
}


class Refused(Exception):
    """the text is not of the grammar"""


class Reader:
    def __init__(self, it, gram, toks):
        self.it, self.gram, self.toks, self.i = it, gram, toks, 0
        g = it.globals.vars
        it.load(ast.parse('\n'.join(gram.pre)))
        for n in ('stripextras', 'stripstring', 'striptriple'):
            g[n] = Native(n, lambda x, n=n: strip(n, x))
        g['StringIO'] = Native('StringIO', lambda *a: Sink())

    def kind(self):
        return self.toks[self.i][0] if self.i < len(self.toks) else 'END'

    def rule(self, name, args=()):
        if name not in self.gram.rules:
            raise AnalysisBroken('no rule %s' % name)
        env = mini.Env(self.it.globals, self.it.globals)
        ps = [p.split('=')[0].strip() for p in self.gram.params[name].split(',') if p.strip()]
        if len(ps) != len(args):
            raise Raise(Inst(TypeError, {'args': (name,)}))
        env.vars.update(zip(ps, args))
        try:
            self.node(self.gram.rules[name], env, (name,))
        except mini._Return as r:
            return r.value
        return None

    def node(self, n, env, path):
        ref = self.gram.ref
        if n[0] == 'T':
            if self.kind() != n[1]:
                raise Refused(n[1])
            env.vars[n[1]] = self.toks[self.i][1] if self.i < len(self.toks) else ''
            self.i += 1
        elif n[0] == 'N':
            args = []
            if len(n) > 2 and n[2]:
                e = ast.parse('f(%s)' % n[2], mode='eval').body
                args = [self.it.expr(a, env) for a in e.args]
            env.vars[n[1]] = self.rule(n[1], args)
        elif n[0] == 'E':
            self.it.block(body(n[1]), env)
        elif n[0] == 'S':
            for i, c in enumerate(n[1:]):
                self.node(c, env, path + (i,))
        elif n[0] == 'C':
            k = self.kind()
            for i, c in enumerate(n[1:]):
                if k in ref.first(c):
                    return self.node(c, env, path + (i,))
            for i, c in enumerate(n[1:]):
                if ref.nullable(c):
                    return self.node(c, env, path + (i,))
            raise Refused(k)
        elif n[0] in 'ORP':
            c, done = n[1], 0
            while self.kind() in ref.first(c) and not (n[0] == 'O' and done):
                self.node(c, env, path + (0,))
                done += 1
            if n[0] == 'P' and not done and not ref.nullable(c):
                raise Refused(self.kind())
        else:
            raise AnalysisBroken('grammar node %s' % n[0])


_bodies = {}


def body(text):
    if text not in _bodies:
        _bodies[text] = ast.parse('def f():\n ' + text.replace('\n', '\n ')).body[0].body
    return _bodies[text]


def strip(how, x):
    if how == 'stripextras' and isinstance(x, Lines):
        return x
    if isinstance(x, Tok) and not isinstance(x, (Body, TokText)):
        if x.what == 'b' and how != 'striptriple':
            return x
        if (x.what, how) in (('q', 'stripstring'), ('t', 'striptriple')):
            return x.body
    raise Raise(Inst(ValueError, {'args': ('%s(%r)' % (how, x),)}))


# ---- files

class File:
    """the tokens of a file, and what it says"""

    def __init__(self, family, seps):
        self.family, self.seps, self.toks, self.n = family, seps, [], 0

    def add(self, kind, text):
        self.toks.append((kind, text))

    def value(self, v):
        """emit the tokens of a value -> expectation"""
        self.n += 1
        k = v[0]
        if k in 'bqt':
            t = Tok(k, self.n)
            t.body = t if k == 'b' else Body(k, self.n)
            self.add(KINDS[self.family][k], t)
            return t.body
        if k == 'x':
            parts = [TokText('start', self.n)] + [TokText('line%d.' % i, self.n) for i in range(v[1])] + \
                [TokText('end', self.n)]
            self.add('start_sc_line', parts[0])
            for p in parts[1:-1]:
                self.add('sc_line_of_text', p)
            self.add('end_sc_line', parts[-1])
            return ('text', tuple(parts))
        if k == '[':
            self.add('o_s_b', '[')
            out = []
            for i, e in enumerate(v[1]):
                if i and self.seps:
                    self.add(',', ',')
                out.append(self.value(e))
            self.add('c_s_b', ']')
            return ('list', tuple(out))
        if k == '{':
            self.add('o_c_b', '{')
            out = []
            for i, (a, b) in enumerate(v[1]):
                if i and self.seps:
                    self.add(',', ',')
                a = self.value(a)
                self.add(':', ':')
                out.append((a, self.value(b)))
            self.add('c_c_b', '}')
            return ('table', tuple(out))
        raise ValueError(k)

    def elements(self, es):
        """-> (contents, frames)"""
        here, frames = [], []
        for e in es:
            if e[0] == 'i':
                self.add('data_name', e[1])
                here.append(('item', e[1], self.value(e[2])))
            elif e[0] == 'l':
                self.add('LBLOCK', 'loop_')
                for n in e[1]:
                    self.add('data_name', n)
                vals = [self.value(v) for v in e[2]]
                here.append(('loop', tuple(e[1]), tuple(vals)))
            else:
                self.add('save_heading', Name(e[1].root, e[1].case, '', 'save_'))
                frames.append((e[1],) + self.elements(e[2]))
                self.add('save_end', 'save_')
        return here, frames

    def blocks(self, bs):
        out = []
        for h, es in bs:
            self.add('data_heading', Name(h.root, h.case, '', 'data_'))
            out.append((h,) + self.elements(es))
        return out


def defects(blocks):
    """-> (must be refused, may be refused)"""
    must = may = False
    seen = set()
    frames_seen = set()

    def contents(here, frames, path):
        nonlocal must, may
        names = set()
        for e in here:
            for n in (e[1],) if e[0] == 'item' else e[1]:
                if n.lower() in names:
                    must = True
                names.add(n.lower())
            if e[0] == 'loop' and (not e[1] or len(e[2]) % len(e[1])):
                must = True
        for h, hh, ff in frames:
            if h.lower() in frames_seen or h.lower() in path[1:]:
                may = True
            frames_seen.add(h.lower())
            contents(hh, ff, path + (h.lower(),))
    for h, here, frames in blocks:
        if h.lower() in seen:
            must = True
        seen.add(h.lower())
        contents(here, frames, (h.lower(),))
    return must, may


# ---- what the object holds

def same(want, got):
    if isinstance(want, tuple) and want and want[0] == 'number':
        return getattr(got, 'text', None) == want[1]
    if isinstance(want, tuple) and want and want[0] == 'list':
        return isinstance(got, AList) and got.cls.name == 'StarList' and len(got) == len(want[1]) and all(
            same(a, b) for a, b in zip(want[1], got))
    if isinstance(want, tuple) and want and want[0] == 'table':
        return isinstance(got, ADict) and got.cls.name == 'StarDict' and len(got) == len(want[1]) and all(
            a is c and same(b, d) for (a, b), (c, d) in zip(want[1], got.items()))
    if isinstance(want, tuple) and want and want[0] == 'text':
        return isinstance(got, Lines) and got.parts == want[1]
    return want is got


def holds(it, b, here):
    """None or what differs between a block and what the file says"""
    order = it.call(it.getattr(b, 'GetItemOrder'), [])
    if len(order) != len(here):
        return '%d items and loops instead of %d' % (len(order), len(here))
    n = 0
    for o, w in zip(order, here):
        if w[0] == 'item':
            if o != w[1].lower():
                return 'item %r where %r is expected' % (o, w[1])
            cols = [(w[1], w[2])]
        else:
            loop = it.getattr(b, 'loops')
            if not isinstance(o, int) or o not in loop:
                return 'no loop where %s is expected' % (list(w[1]),)
            if list(loop[o]) != [x.lower() for x in w[1]]:
                return 'loop of %s instead of %s' % (loop[o], list(w[1]))
            k = len(w[1])
            cols = [(x, list(w[2][i::k])) for i, x in enumerate(w[1])]
        for name, want in cols:
            n += 1
            got = it.call(it.getattr(b, 'GetItemValue'), [name])
            if isinstance(want, list):
                if not isinstance(got, list) or isinstance(got, AList) or len(got) != len(want) or not all(
                        same(x, y) for x, y in zip(want, got)):
                    return 'column %r has other values' % (name,)
            elif not same(want, got):
                return 'the value of %r is another one' % (name,)
            if it.getattr(b, 'true_case').get(name.lower()) != name:
                return 'the name %r is not kept as written' % (name,)
    if len(it.call(it.getattr(b, 'keys'), [])) != n:
        return 'names that are not in the file'
    return None


def compare(it, f, blocks):
    it.setattr(f, 'scoping', 'dictionary')
    keys = list(it.call(it.getattr(f, 'keys'), []))
    table = it.getattr(f, 'child_table')
    order = [k for k in it.getattr(f, 'block_input_order')]
    if len(set(keys)) != len(keys) or set(keys) != set(order) or len(order) != len(keys):
        return 'the lists of blocks do not agree'
    used = set()
    at = []

    def find(h, here, frames, parent):
        why = 'no block %r%s' % (h, '' if parent is None else ' in %r' % (parent,))
        for k in order:
            if k in used or k not in table or table[k].block_id != h or it.call(it.getattr(f, 'get_parent'), [k]) != parent:
                continue
            d = holds(it, it.getitem(f, k), here)
            if d is None:
                used.add(k)
                at.append((parent is None, order.index(k)))
                for fr in frames:
                    w = find(fr[0], fr[1], fr[2], k)
                    if w:
                        return w
                return None
            why = 'block %r: %s' % (h, d)
        return why
    for b in blocks:
        why = find(b[0], b[1], b[2], None)
        if why:
            return why
    if len(used) != len(keys):
        return 'blocks that are not in the file'
    tops = [p for t, p in at if t]
    if tops != sorted(tops):
        return 'the blocks are not in the order of the file'
    subs = [p for t, p in at if not t]
    if subs != sorted(subs) and not any(fr[2] for b in blocks for fr in b[2]):
        return 'the save frames are not in the order of the file'
    return None


def legal(kinds, g):
    """is this sequence of tokens a file? (a reference that knows nothing of the grammar files)"""
    new, commas, nested = g in ('2.0', 'STAR2'), g == 'STAR2', g != '2.0'
    toks = list(kinds) + ['END']
    i = 0

    class No(Exception):
        pass

    def take(*ks):
        nonlocal i
        if toks[i] not in ks:
            raise No()
        i += 1
        return toks[i - 1]

    def at(*ks):
        return toks[i] in ks
    firsts = ('data_value_1', 'start_sc_line') + (('single_quote_data_value', 'triple_quote_data_value', 'o_s_b', 'o_c_b')
                                                  if new else ())

    def value():
        k = take(*firsts)
        if k == 'start_sc_line':
            while at('sc_line_of_text'):
                take('sc_line_of_text')
            take('end_sc_line')
        elif k in ('o_s_b', 'o_c_b'):
            end = 'c' + k[1:]
            first = True
            while not at(end):
                if commas and not first and at(','):      # a comma may be left out
                    take(',')
                first = False
                if k == 'o_c_b':
                    take('single_quote_data_value', 'triple_quote_data_value')
                    take(':')
                value()
            take(end)

    def content(frames):
        while True:
            if at('data_name'):
                take('data_name')
                value()
            elif at('LBLOCK'):
                take('LBLOCK')
                take('data_name')
                while at('data_name'):
                    take('data_name')
                value()
                while at(*firsts):
                    value()
            elif frames and at('save_heading'):
                take('save_heading')
                content(nested)
                take('save_end')
            else:
                return
    try:
        while not at('END'):
            take('data_heading')
            content(True)
        return i == len(toks) - 1
    except No:
        return False


def damaged(g):
    """files of which tokens are missing, doubled, swapped or replaced -> (label, tokens), none of them a file"""
    a, b, c, d, e, f = names('a', 'b', 'c', 'd', 'e', 'f')
    new = g in ('2.0', 'STAR2')
    comp = [('i', c, ('[', (V, ('[', (('q',), V)), ('{', ((('q',), V), (('t',), ('x', 1)))))))] if new else [('i', c, ('x', 1))]
    whole = [(a, [('l', [Name('u'), Name('v')], [V, ('x', 1)] * 2)] + comp + [('f', d, [('i', e, V)])]), (b, [('i', f, ('q',))])]
    fl = File('new' if new else 'old', g == 'STAR2')
    fl.blocks(whole)
    toks = fl.toks
    kinds = {'GLOBAL': Name('x', 0, '', 'global_'), 'STOP': 'stop_', 'dat_val_internal_sq': Tok('b', 0)}
    kinds.update((k, t) for k, t in toks)
    out = []
    for i in range(len(toks) + 1):
        out.append(('stops before %d' % i, toks[:i]))
        for k, t in kinds.items():
            extra = Name('z') if k == 'data_name' else Name('z', 0, '', t.head) if isinstance(t, Name) else t
            out.append(('%s before %d' % (k, i), toks[:i] + [(k, extra)] + toks[i:]))
            if i < len(toks):
                out.append(('%s instead of %d' % (k, i), toks[:i] + [(k, extra)] + toks[i + 1:]))
        if i < len(toks):
            out.append(('without %d' % i, toks[:i] + toks[i + 1:]))
        if i < len(toks) - 1:
            out.append(('%d swapped' % i, toks[:i] + [toks[i + 1], toks[i]] + toks[i + 2:]))
    return [(l, t) for l, t in out if not legal([k for k, _ in t], g)]


def refuses(grams, g, toks):
    """-> None or (rule, what is wrong): an object that held nothing holds nothing after the error"""
    it = FileInterp(mini.Decisions(), [tree('StarFile')])
    prepared = it.call(it.globals.vars['StarFile'], [], {'standard': 'CIF'})
    rd = Reader(it, grams[g], toks)
    try:
        rd.rule('input', [prepared])
        if rd.i < len(toks):
            raise Refused('trailing')
    except (Refused, Raise):
        if list(it.call(it.getattr(prepared, 'keys'), [])):
            return ('partial', 'blocks are left in the object after the refusal')
        return None
    return ('accepted', 'is not refused')


def read(grams, g, blocks, standard='CIF', before=None, commas=True):
    """-> None or (rule, what is wrong)"""
    gram = grams[g]
    seps = commas and g == 'STAR2'
    new = 'triple_quote_data_value' in gram.tokens
    fl = File('new' if new else 'old', seps)
    want = fl.blocks(blocks)
    must, may = defects(want)
    it = FileInterp(mini.Decisions(), [tree('StarFile')])
    g_ = it.globals.vars
    prepared = it.call(g_['StarFile'], [], {'standard': standard})
    if before:
        b = it.call(g_['StarBlock'], [])
        it.call(it.getattr(prepared, 'NewBlock'), [before, b])
        if any(h.lower() == before.lower() for h, e in blocks):
            must = True
        want = [(before, [], [])] + want
    rd = Reader(it, gram, fl.toks)
    try:
        f = rd.rule('input', [prepared])
        if rd.i < len(fl.toks):
            raise Refused('trailing')
    except Refused as e:
        return ('refused', 'syntax: %s expected' % e)
    except Raise as r:
        if must or may:
            return None
        return ('refused', 'refused with %s' % exc_name(r.exc))
    if must:
        return ('accepted', 'is not refused')
    if not isinstance(f, Inst):
        return ('contents', 'no file is returned')
    if f is not prepared:
        return ('contents', 'the contents are not added to the object given')
    try:
        why = compare(it, f, want)
    except Raise as r:
        why = 'cannot be looked at: %s' % exc_name(r.exc)
    return ('contents', why) if why else None


def text_of(blocks):
    def val(v):
        return {'b': 'v', 'q': "'v'", 't': "\'\'\'v\'\'\'", 'x': ';v;'}.get(v[0]) or (
            '[%s]' % ' '.join(val(x) for x in v[1]) if v[0] == '[' else
            '{%s}' % ' '.join('%s:%s' % (val(a), val(b)) for a, b in v[1]))

    def els(es):
        return ' '.join('_%r %s' % (e[1], val(e[2])) if e[0] == 'i' else
                        'loop_ %s %s' % (' '.join('_%r' % n for n in e[1]), ' '.join(val(v) for v in e[2])) if e[0] == 'l'
                        else 'save_%r %s save_' % (e[1], els(e[2])) for e in es)
    return ' '.join('data_%r %s' % (h, els(es)) for h, es in blocks)


# ---- which files

def names(*cs):
    return [Name(c.lower(), int(c.isupper())) for c in cs]


V = ('b',)


def value_kinds(new):
    out = [V, ('q',), ('x', 0), ('x', 1), ('x', 3)]
    if new:
        out += [('t',), ('[', ()), ('{', ()), ('[', (V,)), ('[', (('q',), V)), ('{', ((('q',), V),)),
                ('{', ((('t',), ('x', 1)), (('q',), ('[', ())))), ('[', (('[', ()), ('{', ()))), ('[', (('[', (V, V)), ('[', (V,)))),
                ('{', ((('q',), ('{', ((('q',), V), (('t',), V)))), (('q',), V))), ('[', (('x', 0), ('t',), V))]
    return out


def value_files(new):
    a, b, c, d = names('a', 'b', 'c', 'd')
    ks = value_kinds(new)
    for k in ks:
        yield [(a, [('i', b, k), ('i', c, V)])]
        for at in range(4):
            vals = [V] * 4
            vals[at] = k
            yield [(a, [('l', [b, c], vals), ('i', d, V)])]
        yield [(a, [('l', [b], [k])])]
        yield [(a, [('l', [b], [k, k])])]
        yield [(a, [('l', [b, c, d], [k] * 3)])]
        for n in (1, 3, 4, 5):      # wrong numbers of values, the odd one of every kind
            yield [(a, [('l', [b, c, d] if n > 3 else [b, c], [V] * (n - 1) + [k])])]


def element(kind, ns, new):
    """elements with names from the list ns"""
    n = ns.pop
    return {
        'i': lambda: ('i', n(0), V), 'l': lambda: ('l', [n(0)], [V, V]), 'L': lambda: ('l', [n(0), n(0)], [V] * 4),
        'e': lambda: ('f', n(0), []), 'f': lambda: ('f', n(0), [('i', n(0), V)]),
        'F': lambda: ('f', n(0), [('l', [n(0), n(0)], [V] * 2), ('i', n(0), V)]),
    }[kind]()


def shape_files(deep):
    for n in range(0, 4 if not deep else 5):
        for ks in itertools.product('ilLefF' if n < 3 or deep else 'iLf', repeat=n):
            ns = names(*'bcdefghijklmnopqrstuvwxyz')
            yield [(Name('a', 1), [element(k, ns, True) for k in ks])]
    # several blocks
    for ks in itertools.product(['', 'i', 'f', 'Lfi', 'ff'], repeat=2):
        ns = names(*'bcdefghijklmnopqrstuvwxyz')
        yield [(ns.pop(), [element(k, ns, True) for k in b]) for b in ks]
    for ks in itertools.product(['', 'if'], repeat=3):
        ns = names(*'bcdefghijklmnopqrstuvwxyz')
        yield [(ns.pop(), [element(k, ns, True) for k in b]) for b in ks]
    yield []


def same_names(nested):
    """the same name in two places, in the same and in another case"""
    a, b, c, d, e = names('a', 'b', 'c', 'd', 'e')

    def two(x, y, cs):
        for p, q in itertools.product('il', repeat=2):
            for between in ([], [('i', d, V)], [('f', e, [('i', cs[0], V)])]):
                yield [('i', cs[0], V) if p == 'i' else ('l', [b, cs[0]], [V] * 2)] + between + [
                    ('i', cs[1], V) if q == 'i' else ('l', [Name('x'), cs[1]], [V] * 2)]
    for cs in ((c, c), (c, Name('c', 1)), (Name('c', 1), c)):
        for es in two(0, 0, cs):
            yield [(a, es)]
            if nested or all(x[0] != 'f' for x in es):
                yield [(a, [('f', Name('s'), es)])]
        yield [(a, [('l', list(cs), [V] * 2)])]
        yield [(a, [('l', [b] + list(cs), [V] * 3)])]
        yield [(a, [('i', cs[0], V)]), (b, [('i', cs[1], V)])]
        yield [(a, [('f', d, [('i', cs[0], V)]), ('f', e, [('i', cs[1], V)]), ('i', cs[0], V)])]
        yield [(a, [('l', [cs[0], d], [V] * 4), ('f', e, [('l', [cs[1], d], [V] * 2)])])]


def same_headings(nested):
    """blocks and save frames that are called the same"""
    one, two = ('i', Name('p'), V), ('i', Name('q'), V)
    for x, y in ((Name('a'), Name('a')), (Name('a'), Name('a', 1)), (Name('a', 1), Name('a'))):
        o = Name('o')
        yield [(x, [one]), (y, [two])]
        yield [(x, [one]), (o, [two]), (y, [two])]
        for first in itertools.product((0, 1), repeat=3):
            es = [one] * first[0] + [('f', y, [two] * first[1])] + [('i', Name('r'), V)] * first[2]
            yield [(x, es)]
            yield [(x, es), (o, [])]
            yield [(o, []), (x, es)]
            yield [(Name('b'), []), (x, [one, ('f', Name('s'), [two]), ('f', Name('w'), [])]), (Name('c'), []), (o, es)]
            yield [(x, es + [('f', Name('z'), [('i', Name('t'), V)]), ('l', [Name('u')], [V, V])])]
            yield [(o, es), (x, [two])]
            yield [(x, [two]), (o, es)]
            yield [(o, [('f', x, [one])] + es)]
            yield [(o, [('f', x, [one])]), (Name('w'), es)]
            if nested:
                yield [(o, [('f', x, es)])]
                yield [(x, [('f', o, es)])]
                yield [(o, [('f', Name('m'), es + [('f', Name('k'), [one])])])]
                yield [(o, [('f', x, [('f', Name('m'), [('f', y, [two]), one])]), two])]


def nested_files():
    a, b, c, d, e = names('a', 'b', 'c', 'd', 'e')
    i = ('i', Name('p'), V)
    j = ('l', [Name('q')], [V, V])
    for before, inside, after in itertools.product(([], [i], [i, j]), repeat=3):
        yield [(a, [('f', b, before + [('f', c, inside)] + [('i', Name('z'), V)] * len(after)), ('f', d, after)])]
    yield [(a, [('f', b, [('f', c, [('f', d, [i])]), ('f', e, [])]), ('f', Name('g'), [('f', Name('h'), [])])])]


def files(g, deep):
    new = g in ('2.0', 'STAR2')
    yield 'values', value_files(new)
    yield 'shapes', shape_files(deep)
    yield 'equal names', same_names(g != '2.0')
    yield 'equal headings', same_headings(g != '2.0')
    if g != '2.0':
        yield 'nested frames', nested_files()

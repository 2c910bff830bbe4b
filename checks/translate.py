"""dREL methods: the translator is interpreted over trees with named operands, the Python it writes is interpreted over terms (nothing is
known of a value but how it came about; a test of one is a decision), and result, calls and output are compared, on every path, with
what the tree says."""
import ast
import itertools
import re as _re

from sa import mini, program
from sa.mini import Abs, Inst, Native, Raise, Unsupported
from sa.program import AnalysisBroken
from .yapps import module_stub

OPS = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'BitAnd': '&', 'BitOr': '|', 'Pow': '**', 'BitXor': 'xor', 'Mod': 'mod',
       'FloorDiv': 'floor', 'LShift': '<<', 'RShift': '>>', 'MatMult': 'matmul'}
ARITH = {'drel_runtime.drel_add': '+', 'numpy.add': '+', 'numpy.subtract': '-', 'drel_runtime.drel_dot': '*', 'numpy.true_divide': '/',
         'numpy.divide': '/', 'numpy.cross': '^'}
CALC = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b}
MISSING = object()


def form(x):
    """what a value is, as something that can be compared"""
    if isinstance(x, Term):
        return x.t
    if isinstance(x, (list, Range)):
        return ('list',) + tuple(form(i) for i in (x.items if isinstance(x, Range) else x))
    if isinstance(x, range):
        return ('list',) + tuple(x)
    if isinstance(x, tuple):
        return ('tuple',) + tuple(form(i) for i in x)
    if isinstance(x, dict):
        return ('table',) + tuple((form(k), form(v)) for k, v in x.items())
    if isinstance(x, slice):
        return ('slice', form(x.start), form(x.stop), form(x.step))
    if isinstance(x, File):
        return ('file',)
    if x is None or isinstance(x, (str, int, float, complex, bool)):
        return (type(x).__name__, x)
    if isinstance(x, (mini.Func, Native, type, Builtin)):
        return ('function', getattr(x, 'name', None) or x.__name__)
    raise Unsupported('value %r' % (x,))


def is_number(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


class Term(Abs):
    def __init__(self, *t):
        self.t = t

    def __repr__(self):
        return show(self.t)

    def truth(self, it):
        return it.fact(self.t)

    def binop(self, it, op, other, reflected):
        a, b = (other, self) if reflected else (self, other)
        return Term(OPS[op], form(a), form(b))

    def unop(self, it, op):
        if op == 'USub':
            return Term('*', form(-1), self.t)
        if op == 'UAdd':
            return Term('*', form(1), self.t)
        raise Unsupported(op)

    def compare(self, it, op, other, reflected):
        if op == 'Is':
            return other is self or isinstance(other, Term) and other.t == self.t
        a, b = (form(other), self.t) if reflected else (self.t, form(other))
        if a == b:
            return op in ('Eq', 'LtE', 'GtE')
        if op in ('Eq', 'NotEq'):
            return it.fact(('==',) + tuple(sorted((a, b), key=repr))) == (op == 'Eq')
        if op in ('Gt', 'GtE'):
            a, b, op = b, a, {'Gt': 'Lt', 'GtE': 'LtE'}[op]
        return it.fact(('<' if op == 'Lt' else '<=', a, b))

    def call(self, it, args, kw):
        if kw:
            raise Unsupported('keywords')
        name = dotted(self.t)
        if name in ARITH and len(args) == 2:
            op = ARITH[name]
            if op in CALC and all(map(is_number, args)):
                return CALC[op](*args)
            return Term(op, form(args[0]), form(args[1]))
        if self.t[0] == 'name':
            it.events.append(('call', self.t[1]) + tuple(form(a) for a in args))
            if self.t[1] == 'stop':
                return Term('call', self.t[1], sum(e[:2] == ('call', 'stop') for e in it.events))
        return Term('call', name or self.t, *[form(a) for a in args])

    def getattr(self, it, name):
        return Term('attr', self.t, name)

    def getitem(self, it, key):
        return Term('item', self.t, form(key))

    def setitem(self, it, key, value):
        it.events.append(('set', self.t, form(key), form(value)))

    def iterate(self, it):
        return [Term('item', self.t, form(i)) for i in range(it.count(self.t))]

    def length(self, it):
        return Term('call', 'len', self.t)

    def contains(self, it, item):
        return it.fact(('in', form(item), self.t))


def dotted(t):
    if t[0] == 'module':
        return t[1]
    if t[0] == 'attr' and dotted(t[1]):
        return dotted(t[1]) + '.' + t[2]
    return None


class Range:
    def __init__(self, items):
        self.items = items


class Repeat:
    def __init__(self, x):
        self.x = x


class Builtin(Abs):
    """a function of Python: a term of its arguments, unless they are known"""

    def __init__(self, name, fn=None):
        self.name, self.fn = name, fn

    def call(self, it, args, kw):
        if self.fn is not None:
            r = self.fn(it, *args)
            if r is not MISSING:
                return r
        return Term('call', self.name, *[form(a) for a in args])

    def getattr(self, it, name):
        raise Unsupported('%s.%s' % (self.name, name))

    def __repr__(self):
        return self.name


def column(v):
    return isinstance(v, list)


class File(Abs):
    """the file a method is applied to: rows of looped categories, single values of the others"""

    def __init__(self, w, rows):
        self.w, self.rows = w, rows

    def there(self, it, name):
        return name not in self.w.optional or it.fact(('has', name))

    def value(self, it, name):
        cat = name[1:].split('.')[0]
        if cat in self.w.looped:
            return [Term('cell', name, i) for i in range(self.rows)]
        return Term('data', name)

    def getitem(self, it, key):
        if not isinstance(key, str):
            raise Unsupported('ciffile[%r]' % key)
        name = key.lower()
        it.events.append(('needs', name))
        if not self.there(it, name):
            raise Raise(Inst(KeyError, {'args': (key,)}))
        return self.value(it, name)

    def getattr(self, it, name):
        def get(key, default=None):
            return self.value(it, key.lower()) if self.there(it, key.lower()) else default

        def packet(key, cat):
            return Term('packet', form(key), cat.lower())
        if name == 'dictionary':
            return module_stub(names_in_cat=Native('names_in_cat', lambda c: sorted(n for n in self.w.names if n.startswith('_%s.' % c.lower()))))
        got = {'get': get, 'GetKeyedSemanticPacket': packet, 'has_key_or_alias': lambda n: self.there(it, n.lower()),
               '__getitem__': lambda k: self.getitem(it, k), 'has_key': lambda n: self.there(it, n.lower())}.get(name)
        if got is None:
            raise Unsupported('ciffile.' + name)
        return Native(name, got)

    def contains(self, it, item):
        return self.there(it, item.lower())


def known(*xs):
    return all(isinstance(x, (str, int, float, bool, type(None))) or isinstance(x, (list, tuple)) and known(*x) for x in xs)


class Runner(mini.Interp):
    """interprets the Python that was written"""

    def __init__(self, dec, steps=20000):
        mini.Interp.__init__(self, dec, steps)
        g = self.globals.vars
        self.facts, self.events, self.counts = {}, [], {}
        for m in ('numpy', 'math', 'cmath', 'drel_runtime'):
            g[m] = Term('module', m)
        same = lambda it, x=MISSING: x
        for n, f in (('StarList', lambda it, x: x), ('StarTable', lambda it, x: x), ('copy', lambda it, x: x),
                     ('len', lambda it, x: len(x) if column(x) or isinstance(x, (tuple, str, dict)) else MISSING),
                     ('range', self.do_range), ('map', self.do_map), ('list', self.do_list), ('abs', None), ('max', None), ('min', None),
                     ('int', None), ('float', None), ('complex', None), ('hash', None), ('str', None), ('divmod', None), ('dict', None),
                     ('repr', lambda it, *a: '?'), ('sorted', None), ('sum', None), ('repeat', lambda it, *a: MISSING)):
            g[n] = Builtin(n, f)

    def fact(self, t):
        if t not in self.facts:
            if t[:2] == ('call', 'stop') and t[2] > 1:
                self.facts[t] = True
            else:
                self.facts[t] = self.choose_bool()
        return self.facts[t]

    def count(self, t):
        if t not in self.counts:
            self.counts[t] = self.choose(3)
        return self.counts[t]

    def do_range(self, it, *a):
        if all(isinstance(x, int) and not isinstance(x, bool) for x in a):
            return range(*a)
        if len(a) == 1:
            return MISSING
        start, end, step = (a + (1,))[:3]
        # an inclusive count: one more than the end in the direction of the step
        up = it.positive(step)
        last = None
        f = form(end)
        if f[0] == '+' and f[2] == form(1 if up else -1) or not up and f[0] == '-' and f[2] == form(1):
            last = f[1]
        elif is_number(end):
            last = form(end - 1 if up else end + 1)
        return it.steps_of(form(start), last if last is not None else ('before', f), form(step))

    def positive(self, step):
        return step > 0 if is_number(step) else it_fact(self, ('<', form(0), form(step)))

    def steps_of(self, start, last, step):
        t = ('do', start, last, step)
        return [Term('round', t, i) for i in range(self.count(t))]

    def do_map(self, it, f, *xs):
        lists = [x if isinstance(x, Repeat) else list(it.iterate(x)) for x in xs]
        fixed = [x for x in lists if not isinstance(x, Repeat)]
        if not fixed:
            raise mini.Endless('map')
        n = min(map(len, fixed))
        return [it.call(f, [x.x if isinstance(x, Repeat) else x[i] for x in lists]) for i in range(n)]

    def do_list(self, it, *a):
        if not a:
            return []
        if isinstance(a[0], (list, tuple, range)):
            return list(a[0])
        return MISSING

    def unknown_name(self, e):
        return Term('name', e.id)

    def module(self, name):
        return Term('module', name)

    def imported(self, module, name):
        if (module, name) == ('itertools', 'repeat'):
            return Builtin('repeat', lambda it, x, n=None: Repeat(x) if n is None else [x] * n if isinstance(n, int) else MISSING)
        if (module, name) == ('itertools', 'imap'):
            raise Raise(Inst(ImportError, {'args': (name,)}))
        raise Unsupported('from %s import %s' % (module, name))

    def s_ImportFrom(self, s, env):
        for a in s.names:
            env.vars[a.asname or a.name] = self.imported(s.module, a.name)

    def s_Import(self, s, env):
        for a in s.names:
            env.vars[a.asname or a.name] = self.module(a.name)

    def b_print(self, *a, **k):
        if not (len(a) == 1 and isinstance(a[0], str)):
            self.events.append(('print',) + tuple(form(x) for x in a))

    def str_method(self, o, name, a, k):
        if name == 'format':
            return '?'
        return mini.Interp.str_method(self, o, name, a, k)

    def format_mod(self, a, b):
        return '?'

    def assign(self, t, v, env):
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, Term):
            v = [Term('item', v.t, form(i)) for i in range(len(t.elts))]
        mini.Interp.assign(self, t, v, env)

    def binop(self, op, a, b, node=None):
        if not isinstance(a, Abs) and not isinstance(b, Abs) and not known(a, b):
            if op == 'Add' and isinstance(a, list) and isinstance(b, list):
                return a + b
            return Term(OPS[op], form(a), form(b))
        return mini.Interp.binop(self, op, a, b, node)

    def compare(self, op, a, b):
        if op in ('Lt', 'LtE', 'Gt', 'GtE') and not isinstance(a, Abs) and not known(a, b):
            return Term(*form(a)).compare(self, op, b, False)
        return mini.Interp.compare(self, op, a, b)

    def contains(self, c, x):
        if isinstance(c, (int, float, complex)) or isinstance(c, (list, tuple, dict, str)) and not (known(x) and known(c)):
            return self.fact(('in', form(x), form(c)))
        return mini.Interp.contains(self, c, x)

    def getitem(self, o, k, node=None):
        if isinstance(o, (int, float, complex)) or isinstance(o, (list, tuple, dict, str)) and not (isinstance(k, (int, str)) and known(k)):
            return Term('item', form(o), form(k))
        return mini.Interp.getitem(self, o, k, node)

    def getattr(self, o, name, node=None):
        if isinstance(o, (list, tuple, range)) or isinstance(o, complex) or isinstance(o, (int, float, str, bool)) and not hasattr(o, name):
            return Term('attr', form(o), name)
        return mini.Interp.getattr(self, o, name, node)


def it_fact(it, t):
    return it.fact(t)


# ---- the dictionary and its categories

class World:
    """categories: tc (the target's, looped or not), lo (looped), si (single)"""

    def __init__(self, target='_tc.t', looped=True, optional=(), names=None):
        self.looped = ('tc', 'lo') if looped else ('lo',)
        self.target = target
        self.optional = set(optional)
        objs = ('t', 'p', 'q', 'r', 'k')
        self.names = ['_%s.%s' % (c, o) for c in ('tc', 'lo', 'si') for o in objs]
        self.loopable = {c: (['k'], list(objs)) for c in self.looped}

    def dictionary(self):
        def name(cat, obj, give_default=False):
            cat = cat.lower().lstrip('_')
            n = '_%s.%s' % (cat, obj.lower())
            if n not in self.names:
                raise Raise(Inst(KeyError, {'args': (n,)}))
            return n
        w = self

        class Dic(Abs):
            def getattr(self, it, n):
                if n == 'get_name_by_cat_obj':
                    return Native(n, name)
                if n == 'cat_obj_lookup_table':
                    return {tuple(x[1:].split('.')): [x] for x in w.names}
                raise Unsupported('dictionary.' + n)

            def getitem(self, it, k):
                return {'_category_key.name': ['_%s.k' % k.lower()]}
        return Dic()


CODE = 'py_from_ast'
SRC = 'src/drel/py_from_ast.nw'


def regex():
    def wrap(m):
        if m is None:
            return None
        return module_stub(start=Native('start', m.start), end=Native('end', m.end), group=Native('group', m.group))
    return module_stub(match=Native('match', lambda p, s, *a: wrap(_re.match(p, s, *a))), sub=Native('sub', lambda *a: _re.sub(*a)),
                       search=Native('search', lambda p, s, *a: wrap(_re.search(p, s, *a))), split=Native('split', lambda *a: _re.split(*a)),
                       compile=Native('compile', lambda *a: Unsupported('compile')))


def translate(tree, node, w, **kw):
    it = mini.Interp(mini.Decisions(), 200000)
    g = it.globals.vars
    g['re'] = regex()
    g['unicode'] = str
    g['literal_eval'] = Native('literal_eval', ast.literal_eval)
    g['ast'] = module_stub(literal_eval=Native('literal_eval', ast.literal_eval))
    it.load(tree)
    g['CifError'] = mini.ClassVal('CifError', {}, (Exception,))
    args = dict(loopable=dict(w.loopable), cif_dic=w.dictionary())
    args.update(kw)
    return it.call(g['make_python_function'], [node, 'pyfunc', w.target], args)


def show(t):
    return repr(t)


# ---- what a tree says

class _Break(Exception):
    pass


class _Next(Exception):
    pass


class Unset(Exception):
    pass


AUG = {'++=': 'aug_append', '+=': 'aug_add', '-=': 'aug_sub', '--=': 'aug_remove'}
ONE_TO_ONE = {'list': 'list', 'array': 'numpy.array', 'len': 'len', 'abs': 'abs', 'magn': 'abs', 'atoi': 'int', 'float': 'float', 'str': 'str',
              'norm': 'numpy.linalg.norm', 'sqrt': 'math.sqrt', 'exp': 'math.exp', 'complex': 'complex', 'max': 'max', 'min': 'min',
              'strip': 'drel_runtime.drel_strip', 'int': 'drel_runtime.drel_int', 'eigen': 'drel_runtime.drel_eigen', 'table': 'dict'}


def call_of(name, *forms):
    return Term('call', name, *forms)


class Says:
    """runs the tree itself: the meaning of dREL, over the same terms"""

    def __init__(self, it, w, file, row=None, category=False):
        self.it, self.w, self.file, self.row = it, w, file, row
        self.env, self.alias, self.packets = {}, {}, {}
        self.target = {} if category else MISSING
        self.functions = {}

    # values
    def name(self, n):
        if n.lower() == 'pi':
            return Term('attr', ('module', 'math'), 'pi')
        if n.lower() == 'twopi':
            return Term('*', form(2.0), ('attr', ('module', 'math'), 'pi'))
        return self.env[n] if n in self.env else Term('name', n)

    def data(self, cat, obj, index=None):
        full = '_%s.%s' % (cat.lower().lstrip('_'), obj.lower())
        if full == self.w.target:
            if self.target is MISSING:
                raise Unset
            return self.target
        v = self.file.value(self.it, full)
        if index is not None:
            return self.it.getitem(v, index)
        if full in self.w.optional and not self.file.there(self.it, full):
            return None
        if self.row is not None and cat.lower().lstrip('_') == 'tc' and 'tc' in self.w.looped:
            return v[self.row]
        return v

    def ev(self, n):
        return getattr(self, 'ev_' + n[0])(n)

    def ev_EXPR(self, n):
        return self.ev(n[1])

    def ev_ATOM(self, n):
        return self.name(n[1]) if isinstance(n[1], str) else self.ev(n[1])

    def ev_LITERAL(self, n):
        return ast.literal_eval(n[1])

    def ev_LIST(self, n):
        return [self.ev(x) for x in n[1:]]

    def ev_TABLE(self, n):
        return {ast.literal_eval(k): self.ev(v) for k, v in n[1:]}

    def ev_GROUP(self, n):
        if len(n) == 1:
            return ()
        vs = [self.ev(x) for x in n[1]]
        return vs[0] if len(vs) == 1 else tuple(vs)

    def ev_MATHOP(self, n):
        op = n[1]
        a = self.ev(n[2])
        if op in ('or', 'and'):
            return self.ev(n[3]) if self.it.truth(a) == (op == 'and') else a
        b = self.ev(n[3])
        if op in CALC and is_number(a) and is_number(b):
            return CALC[op](a, b)
        if op in ('+', '-', '*', '/', '^'):
            return Term(op, form(a), form(b))
        py = {'&': 'BitAnd', '|': 'BitOr', '**': 'Pow', '<': 'Lt', '>': 'Gt', '<=': 'LtE', '>=': 'GtE', '==': 'Eq', '!=': 'NotEq', 'in': 'In',
              'not in': 'NotIn'}[op]
        return self.it.binop(py, a, b) if py in OPS else self.it.compare(py, a, b)

    def ev_SIGN(self, n):
        v, s = self.ev(n[2]), -1 if n[1] == '-' else 1
        return s * v if is_number(v) else Term('*', form(s), form(v))

    def ev_UNARY(self, n):
        return not self.it.truth(self.ev(n[2]))

    def category_of(self, n):
        """the category of a keyed look-up"""
        if n[0] == 'ATOM' and isinstance(n[1], list) and n[1][0] == 'ITEM_TAG':
            return n[1][1][1:]
        if n[0] == 'ATOM' and isinstance(n[1], str):
            return n[1] if n[1] in self.w.looped else self.alias.get(n[1], (None,))[0]

    def ev_SUBSCRIPTION(self, n):
        cat = self.category_of(n[1])
        if cat:
            return Term('packet', form(self.ev(n[2])), cat.lower())
        o = self.ev(n[1])
        return self.it.getitem(o, self.ev(n[2]))

    def ev_SLICE(self, n):
        o, ks = self.ev(n[1]), []
        for s in n[2]:
            if s and s[0] == 'EXPR':
                ks.append(self.ev(s))
            else:
                ks.append(slice(*([self.ev(x) for x in s] + [None] * (3 - len(s)))))
        return self.it.getitem(o, ks[0] if len(ks) == 1 else tuple(ks))

    def ev_ATTRIBUTE(self, n):
        p, obj = n[1], n[2]
        if p[0] == 'ATOM' and isinstance(p[1], list) and p[1][0] == 'ITEM_TAG':
            return self.data(p[1][1], obj)
        if p[0] == 'ATOM' and isinstance(p[1], str) and p[1] in self.alias:
            cat, index = self.alias[p[1]]
            return self.data(cat, obj, index)
        v = self.ev(p)
        if isinstance(v, Term) and v.t[0] == 'packet':
            obj = '_%s.%s' % (v.t[2], obj.lower())
        return self.it.getattr(v, obj)

    def ev_FUNC_CALL(self, n):
        if n[1].lower() == 'current_row':
            return self.row
        a = [self.ev(x) for x in n[2]]
        f = [form(x) for x in a]
        k = n[1].lower()
        if k == 'list':
            return self.it.call(self.it.globals.vars['list'], [a if len(a) > 1 else a[0]] if a else [])
        if k in ONE_TO_ONE:
            r = self.it.globals.vars.get(k)
            if isinstance(r, Builtin) and r.name == ONE_TO_ONE[k]:
                return self.it.call(r, a)
            return call_of(ONE_TO_ONE[k], *f)
        if k in ('sind', 'cosd', 'tand'):
            return call_of('math.' + k[:-1], call_of('math.radians', *f).t)
        if k in ('acosd', 'asind', 'atand', 'atan2d'):
            return call_of('math.degrees', call_of('math.' + k[:-1], *f).t)
        if k == 'mod':
            return self.it.getitem(call_of('divmod', *f), 1)
        if k == 'upper':
            return self.it.call(self.it.getattr(a[0], 'upper'), [])
        if k == 'transpose':
            return self.it.getattr(a[0], 'T')
        if k in ('real', 'imag'):
            return self.it.getattr(a[0], k)
        if k == 'expimag':
            return call_of('cmath.exp', form(self.it.binop('Mult', 1j, a[0])))
        if k == 'matrix':
            return self.it.call(self.it.getattr(call_of('numpy.matrix', *f), 'astype'), ['float64'])
        if n[1] in self.functions:
            return self.functions[n[1]](a)
        return Term('name', n[1]).call(self.it, a + [self.file], {})

    # statements
    def do(self, n):
        getattr(self, 'do_' + n[0])(n)

    def do_STATEMENTS(self, n):
        for s in n[1]:
            self.do(s)

    def do_EXPRLIST(self, n):
        for e in n[1]:
            self.ev(e)

    def do_PRINT(self, n):
        self.it.b_print(self.ev(n[1]))

    def do_BREAK(self, n):
        raise _Break

    def do_NEXT(self, n):
        raise _Next

    def put(self, t, v):
        if t[0] in ('EXPR', 'ATOM') and not isinstance(t[1], str):
            self.put(t[1], v)
        elif t[0] == 'ATOM':
            self.env[t[1]] = v
        elif t[0] == 'LIST':
            self.spread(t[1:], v)
        elif t[0] == 'GROUP':
            self.spread(t[1], v) if len(t[1]) > 1 else self.put(t[1][0], v)
        elif t[0] == 'ATTRIBUTE':
            self.target = v
        elif t[0] == 'SUBSCRIPTION':
            o = self.ev(t[1])
            self.it.setitem(o, self.ev(t[2]), v)
        else:
            raise Unsupported('target %s' % t[0])

    def spread(self, ts, v):
        vs = [Term('item', v.t, form(i)) for i in range(len(ts))] if isinstance(v, Term) else list(v)
        for t, x in zip(ts, vs):
            self.put(t, x)

    def do_ASSIGN(self, n):
        if n[2] == '=':
            vs = [self.ev(x) for x in n[3]]
            v = vs[0] if len(vs) == 1 else tuple(vs)
            self.put(n[1][0], v) if len(n[1]) == 1 else self.spread(n[1], v)
            return
        old, new = self.ev(n[1][0]), self.ev(n[3][0])
        if n[2] in AUG:
            v = call_of('drel_runtime.' + AUG[n[2]], form(old), form(new))
        else:
            op = n[2][0]
            v = CALC[op](old, new) if op in CALC and is_number(old) and is_number(new) else Term(op, form(old), form(new))
        self.put(n[1][0], v)

    def do_FANCY_ASSIGN(self, n):
        for obj, v in n[2]:
            k = '_%s.%s' % (n[1].lower(), obj.lower())
            self.target[k] = self.target.get(k, []) + [self.ev(v)]

    def do_IF_EXPR(self, n):
        for cond, suite in [(n[1], n[2])] + [tuple(x) for x in n[3]]:
            if self.it.truth(self.ev(cond)):
                return self.do(suite)
        if len(n) > 4:
            self.do(n[4])

    def rounds(self, items, put, suite):
        for v in items:
            put(v)
            try:
                self.do(suite)
            except _Break:
                return
            except _Next:
                continue

    def do_DO(self, n):
        a, b, s = [self.ev(x) for x in n[2:5]]
        if all(isinstance(x, int) for x in (a, b, s)):
            items = range(a, b + (1 if s > 0 else -1), s)
        else:
            items = self.it.steps_of(form(a), form(b), form(s))
        self.rounds(items, lambda v: self.env.__setitem__(n[1], v), n[5])

    def do_FOR(self, n):
        vs = [self.ev(x) for x in n[2]]
        v = vs[0] if len(vs) == 1 else tuple(vs)
        ts = [['ATOM', x] for x in n[1]]
        self.rounds(self.it.iterate(v), lambda x: self.put(ts[0], x) if len(ts) == 1 else self.spread(ts, x), n[3])

    def do_REPEAT(self, n):
        def forever():
            for i in range(200):
                yield i
            raise mini.Endless('repeat')
        self.rounds(forever(), lambda v: None, n[1])

    def do_WITH(self, n):
        self.alias[n[1]] = (n[2], None)
        self.do(n[3])

    def do_LOOP(self, n):
        alias, cat, var, op, other, suite = n[1:7]
        items = list(range(self.file.rows))
        if op:
            py = {'<': 'Lt', '>': 'Gt', '<=': 'LtE', '>=': 'GtE', '==': 'Eq', '!=': 'NotEq'}[op]
            items = [i for i in items if self.it.truth(self.it.compare(py, i, self.name(other)))]

        def put(i):
            self.alias[alias] = (cat, i)
            if var:
                self.env[var] = i
        self.rounds(items, put, suite)

    def do_FUNCTION(self, n):
        def run(a):
            inner = Says(self.it, self.w, self.file, self.row)
            inner.env.update(zip([p[0] for p in n[2]], a))
            inner.do(n[3])
            if n[1] not in inner.env:
                raise Unset
            return inner.env[n[1]]
        self.functions[n[1]] = run


def names_of(n, w, alias=None, out=None):
    """the names of the file's data a tree reads, and whether it asks for the row"""
    alias = {} if alias is None else alias
    packets = alias.setdefault((), {})       # variables that stand for a packet found by its key
    out = set() if out is None else out
    if not isinstance(n, (list, tuple)) or not n:
        return out
    if n[0] in ('WITH', 'LOOP'):
        alias[n[1]] = n[2]
        if n[0] == 'LOOP':
            out.add(('key', '_%s.k' % n[2].lower()))
    if n[0] == 'FUNC_CALL' and n[1].lower() == 'current_row':
        out.add(('row',))
    if n[0] == 'SUBSCRIPTION' and n[1][0] == 'ATOM':
        p = n[1][1]
        cat = p[1][1:] if isinstance(p, list) and p[0] == 'ITEM_TAG' else p if isinstance(p, str) and p in w.looped else None
        if cat:
            out.add(('key', '_%s.k' % cat.lower()))
    if n[0] == 'ATTRIBUTE':
        p = n[1]
        if p[0] == 'ATOM' and isinstance(p[1], list) and p[1][0] == 'ITEM_TAG':
            out.add(('own' if p[1][1].lower() == '_tc' else 'name', '%s.%s' % (p[1][1].lower(), n[2].lower())))
        elif p[0] == 'ATOM' and isinstance(p[1], str) and p[1] in packets:
            out.add(('name', '_%s.%s' % (packets[p[1]], n[2].lower())))
        elif p[0] == 'ATOM' and isinstance(p[1], str) and p[1] in alias:
            out.add(('own' if alias[p[1]] == 'tc' else 'name', '_%s.%s' % (alias[p[1]], n[2].lower())))
        elif p[0] == 'SUBSCRIPTION' and p[1][0] == 'ATOM':
            q = p[1][1]
            cat = q[1][1:] if isinstance(q, list) and q[0] == 'ITEM_TAG' else q if isinstance(q, str) and q in w.looped else None
            if cat:
                out.add(('name', '_%s.%s' % (cat.lower(), n[2].lower())))
    for x in n:
        if isinstance(x, (list, tuple)):
            names_of(x, w, alias, out)
    if n[0] == 'ASSIGN':
        for t, x in zip(n[1], n[3] if len(n[3]) == len(n[1]) else [X(A(''))] * len(n[1])):
            if t[0] != 'EXPR' or t[1][0] != 'ATOM' or not isinstance(t[1][1], str):
                continue
            packets.pop(t[1][1], None)
            x = x[1]
            if x[0] == 'SUBSCRIPTION' and x[1][0] == 'ATOM':
                q = x[1][1]
                cat = q[1][1:] if isinstance(q, list) and q[0] == 'ITEM_TAG' else q if isinstance(q, str) and q in w.looped else None
                if cat:
                    packets[t[1][1]] = cat.lower()
    return out


def per_row(n, w):
    ns = names_of(n, w)
    inloop = set()

    def loops(x):
        if isinstance(x, (list, tuple)) and x:
            if x[0] == 'LOOP':
                inloop.add(x[2])
            for y in x:
                loops(y)
    loops(n)
    return ('row',) in ns or 'tc' in w.looped and 'tc' not in inloop and any(k[0] == 'own' and k[1] != w.target for k in ns)


def follow(tree, n, w, rows=(2,), category=False, depends=True):
    """-> list of (rule, text), number of paths"""
    bad = []
    try:
        code = translate(tree, n, w, cat_meth=category)
    except Raise as r:
        return [('TRANSLATES', 'the translation ends in %s for %s' % (r.exc.cls.__name__ if isinstance(r.exc.cls, type) else r.exc, brief(n)))], 0
    try:
        module = ast.parse(code)
    except (SyntaxError, ValueError) as e:
        return [('PYTHON', 'what is written for %s is not Python: %s' % (brief(n), e))], 0
    if depends:
        try:
            again, needs = translate(tree, n, w, cat_meth=category, depends=True)
            want = {x[1].lower() for x in names_of(n, w) if len(x) == 2} - {w.target}
            got = {x.lower() for x in needs}
            if again != code:
                bad.append(('DEPENDS', '%s is translated in another way when its dependencies are asked for' % brief(n)))
            elif got != want:
                bad.append(('DEPENDS', '%s needs %s, not %s' % (brief(n), sorted(want), sorted(got))))
        except Raise as r:
            bad.append(('DEPENDS', 'the dependencies of %s cannot be listed' % brief(n)))
    looped = not category and per_row(n, w)
    paths = 0
    for count in rows:
        for packet in ([-1] + ([count - 1] if count else []) if looped else [None]):
            for r in mini.explore(lambda d: path(module, n, w, d, count, packet, category), limit=4000, seconds=60):
                paths += 1
                if r:
                    bad.append(('DOES', '%s: %s' % (brief(n) + ('' if packet in (None, -1) else ' (row %d of %d)' % (packet, count)), r)))
                    return bad, paths
    return bad, paths


def path(module, n, w, dec, count, packet, category):
    it = Runner(dec)
    file = File(w, count)
    try:
        it.block(module.body, it.globals)
        f = it.globals.vars.get('pyfunc')
        if not isinstance(f, mini.Func):
            return 'no function pyfunc is made'
        have = ('gives', form(it.call(f, [file] + ([packet] if packet is not None and packet >= 0 else []))))
    except Raise as r:
        c = r.exc.cls
        have = ('unset',) if c in (NameError, UnboundLocalError) and r.exc.attrs['args'][:1] == ('__dreltarget',) else ('raises', c.__name__, r.exc.attrs.get('args'))
    except mini.Endless:
        have = ('endless',)
    done = [e for e in it.events if e[0] != 'needs']
    it.events = []
    want, res = None, []
    try:
        if packet is None:
            want = ('gives', form(said(it, n, w, file, None, category)))
        elif packet >= 0:
            want = ('gives', form(said(it, n, w, file, packet, category)))
        else:
            for i in range(count):
                res.append(said(it, n, w, file, i, category))
            want = ('gives', form(res))
    except Unset:
        want = ('unset',)
    except Raise as r:
        want = ('raises', r.exc.cls.__name__)
        if have[0] == 'raises':
            have = have[:2]
    ask = [e for e in it.events if e[0] != 'needs']
    if have != want:
        return 'the Python %s, where the method %s%s' % (tell(have), tell(want), given(it))
    if done != ask:
        k = next((i for i, (a, b) in enumerate(itertools.zip_longest(done, ask)) if a != b))
        return 'the Python does %s, where the method does %s%s' % (tell(done[k]) if k < len(done) else 'nothing more',
                                                                   tell(ask[k]) if k < len(ask) else 'nothing more', given(it))


def said(it, n, w, file, row, category):
    s = Says(it, w, file, row, category)
    s.do(n)
    if s.target is MISSING:
        raise Unset
    return s.target


def given(it):
    return '' if not it.facts else ' (when %s)' % ', '.join('%s is %s' % (tell(k), v) for k, v in list(it.facts.items())[:4])


def tell(t):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    if t[0] in ('int', 'float', 'str', 'bool', 'NoneType', 'complex') and len(t) == 2:
        return repr(t[1])
    if t[0] in ('name', 'module', 'data', 'function') and len(t) == 2:
        return str(t[1])
    if t[0] == 'cell':
        return '%s[%s]' % t[1:]
    return '%s(%s)' % (t[0], ', '.join(map(tell, t[1:])))


# ---- trees as text

def brief(n, limit=160):
    s = text(n)
    return '"%s"' % (s if len(s) <= limit else s[:limit] + '...')


def text(n):
    if isinstance(n, str):
        return n
    k = n[0]
    j = lambda xs: ', '.join(map(text, xs))
    if k in ('EXPR', 'ATOM', 'LITERAL', 'ITEM_TAG'):
        return text(n[1])
    if k == 'GROUP':
        return '(%s)' % j(n[1] if len(n) > 1 else [])
    if k == 'LIST':
        return '[%s]' % j(n[1:])
    if k == 'TABLE':
        return '{%s}' % ', '.join('%s: %s' % (a, text(b)) for a, b in n[1:])
    if k == 'MATHOP':
        return '%s %s %s' % (text(n[2]), n[1], text(n[3]))
    if k in ('SIGN', 'UNARY'):
        return '%s %s' % (n[1], text(n[2]))
    if k == 'SUBSCRIPTION':
        return '%s[%s]' % (text(n[1]), text(n[2]))
    if k == 'ATTRIBUTE':
        return '%s.%s' % (text(n[1]), n[2])
    if k == 'SLICE':
        return '%s[%s]' % (text(n[1]), ', '.join(text(s) if s and s[0] == 'EXPR' else ':'.join(map(text, s)) + (':' if len(s) < 2 else '') for s in n[2]))
    if k == 'FUNC_CALL':
        return '%s(%s)' % (n[1], j(n[2]))
    if k == 'STATEMENTS':
        return '; '.join(map(text, n[1]))
    if k == 'EXPRLIST':
        return j(n[1])
    if k == 'ASSIGN':
        return '%s %s %s' % (j(n[1]), n[2], j(n[3]))
    if k == 'FANCY_ASSIGN':
        return '%s(%s)' % (n[1], ', '.join('.%s = %s' % (a, text(b)) for a, b in n[2]))
    if k == 'IF_EXPR':
        return 'if (%s) {%s}' % (text(n[1]), text(n[2])) + ''.join(' else if (%s) {%s}' % (text(a), text(b)) for a, b in n[3]) + \
            (' else {%s}' % text(n[4]) if len(n) > 4 else '')
    if k == 'DO':
        return 'do %s = %s {%s}' % (n[1], j(n[2:5]), text(n[5]))
    if k == 'FOR':
        return 'for %s in %s {%s}' % (', '.join(n[1]), j(n[2]), text(n[3]))
    if k == 'LOOP':
        return 'loop %s as %s%s {%s}' % (n[1], n[2], (' : ' + ' '.join(n[3:6]).strip()) if n[3] else '', text(n[6]))
    if k == 'WITH':
        return 'with %s as %s {%s}' % (n[1], n[2], text(n[3]))
    if k == 'REPEAT':
        return 'repeat {%s}' % text(n[1])
    if k == 'FUNCTION':
        return 'function %s(%s) {%s}' % (n[1], ', '.join(p[0] for p in n[2]), text(n[3]))
    if k == 'PRINT':
        return 'print ' + text(n[1])
    return k.lower()


# ---- families of trees

def X(n):
    return ['EXPR', n]


def A(name):
    return ['ATOM', name]


def L(s):
    return ['ATOM', ['LITERAL', s]]


def tag(cat, obj):
    return ['ATTRIBUTE', ['ATOM', ['ITEM_TAG', cat]], obj]


def G(n):
    return ['ATOM', ['GROUP', [X(n)]]]


def F(name, *a):
    return ['FUNC_CALL', name, [X(x) for x in a]]


def kinds():
    """(level, slots, build): a slot is the least level of what may stand there without parentheses; 'x': a whole expression"""
    out = []
    out.append((0, (0, 1), lambda a, b: ['MATHOP', 'or', a, b]))
    out.append((1, (1, 2), lambda a, b: ['MATHOP', 'and', a, b]))
    out.append((2, (2,), lambda a: ['UNARY', 'not', a]))
    for op in ('<', '>', '<=', '>=', '!=', '==', 'in', 'not in'):
        out.append((3, (4, 4), lambda a, b, op=op: ['MATHOP', op, a, b]))
    for op in '+-':
        out.append((4, (4, 5), lambda a, b, op=op: ['MATHOP', op, a, b]))
    for op in '*/^&|':
        out.append((5, (5, 6), lambda a, b, op=op: ['MATHOP', op, a, b]))
    for s in '+-':
        out.append((6, (6,), lambda a, s=s: ['SIGN', s, a]))
    out.append((7, (8, 6), lambda a, b: ['MATHOP', '**', a, b]))
    out.append((8, (8,), lambda a: ['ATTRIBUTE', a, 'att']))
    out.append((8, (8, 'x'), lambda a, b: ['SUBSCRIPTION', a, b]))
    none = X(['LITERAL', 'None'])
    out.append((8, (8,), lambda a: ['SLICE', a, [[]]]))
    out.append((8, (8, 'x'), lambda a, b: ['SLICE', a, [[b]]]))
    out.append((8, (8, 'x'), lambda a, b: ['SLICE', a, [[none, b]]]))
    out.append((8, (8, 'x', 'x'), lambda a, b, c: ['SLICE', a, [[b, c]]]))
    out.append((8, (8, 'x', 'x', 'x'), lambda a, b, c, d: ['SLICE', a, [[b, c, d]]]))
    out.append((8, (8, 'x', 'x'), lambda a, b, c: ['SLICE', a, [b, c]]))
    out.append((8, (8, 'x', 'x', 'x'), lambda a, b, c, d: ['SLICE', a, [b, [], [c, d]]]))
    for k in range(4):
        out.append((9, ('x',) * k, lambda *a: ['FUNC_CALL', 'f', list(a)]))
    for n in ('List', 'max', 'min', 'Atan2d', 'Mod', 'Complex', 'Strip'):
        out.append((9, ('x', 'x'), lambda a, b, n=n: ['FUNC_CALL', n, [a, b]]))
    for n in ('Table', 'list', 'Array', 'Len', 'abs', 'magn', 'atoi', 'float', 'str', 'Norm', 'Sqrt', 'Exp', 'int', 'eigen', 'Sind', 'cosd',
              'tand', 'acosd', 'Asind', 'atand', 'Upper', 'Transpose', 'ExpImag', 'Real', 'Imag', 'Matrix'):
        out.append((9, ('x',), lambda a, n=n: ['FUNC_CALL', n, [a]]))
    for k in (1, 2, 3):
        out.append((9, ('x',) * k, lambda *a: ['ATOM', ['GROUP', list(a)]]))
        out.append((9, ('x',) * k, lambda *a: ['ATOM', ['LIST'] + list(a)]))
    out.append((9, ('x',), lambda a: ['ATOM', ['TABLE', ("'u'", a)]]))
    out.append((9, ('x', 'x'), lambda a, b: ['ATOM', ['TABLE', ('"u"', a), ("'''v\n  w'''", b)]]))
    out.append((9, ('x',), lambda a: ['ATOM', ['FUNC_CALL', 'str', [a]]]))
    out.append((9, ('x',), lambda a: ['ATTRIBUTE', ['SUBSCRIPTION', ['ATOM', ['ITEM_TAG', '_lo']], a], 'p']))
    out.append((9, ('x',), lambda a: ['ATTRIBUTE', ['SUBSCRIPTION', ['ATOM', 'lo'], a], 'Q']))
    for leaf in [A('pi'), A('TwoPi'), L('7'), L('0'), L('1.5'), L('.5e3'), L('2j'), L("'it'"), L('"a b"'), L("r'\\d'"), L("'a\\'b'"), L("'''one\n  two\nthree'''"),
                 L('"""x\ny"""'), L("u'''p\n q'''"), L("'a\x0cb'"), tag('_si', 'p'), tag('_tc', 'p'), tag('_TC', 'Q'), tag('_lo', 'k'),
                 tag('_Si', 'q'), ['ATOM', ['GROUP']], ['ATOM', ['LIST']], ['ATOM', ['TABLE']]]:
        out.append((9, (), lambda leaf=leaf: leaf))
    return out


LEAVES = [A('a'), A('b'), A('c'), A('d')]
T = X(tag('_tc', 't'))


def fit(child, level, slot):
    if slot == 'x':
        return X(child)
    return child if level >= slot else G(child)


def make(kind, children=None):
    level, slots, build = kind
    children = children or {}
    return build(*[fit(*(children.get(i) or (LEAVES[i], 9)), s) for i, s in enumerate(slots)])


def assign(target, *v, op='='):
    return ['ASSIGN', [target] if target[0] == 'EXPR' else list(target), op, [X(x) for x in v]]


def S(*s):
    return ['STATEMENTS', list(s)]


def expressions(deep):
    ks = kinds()
    for k in ks:
        yield S(assign(T, make(k)))
    for k in ks:
        for i in range(len(k[1])):
            for c in ks:
                yield S(assign(T, make(k, {i: (make(c), c[0])})))
    ops = [k for k in ks if k[0] <= 7]
    for k in ops:
        for cs in itertools.product(ops, repeat=len(k[1])):
            if len(k[1]) == 2:
                yield S(assign(T, make(k, {i: (make(c), c[0]) for i, c in enumerate(cs)})))
    if deep:
        for k in ops:
            for i in range(len(k[1])):
                for c in ops:
                    for j in range(len(c[1])):
                        for e in ks:
                            x = make(c, {j: (make(e), e[0])})
                            yield S(assign(T, make(k, {i: (x, c[0])})))


def say(*a):
    return ['EXPRLIST', [X(F('f', *a))]]


def v(n):
    return X(A(n))


def places():
    """statements with one expression in each place"""
    one, three = X(L('1')), X(L('3'))
    t = assign(T, A('x'))
    yield lambda e: S(['IF_EXPR', e, S(assign(T, A('a'))), [], S(assign(T, A('b')))])
    yield lambda e: S(['IF_EXPR', v('a'), S(assign(T, A('a'))), [[e, S(assign(T, A('b')))]], S(assign(T, A('c')))])
    yield lambda e: S(['DO', 'i', e, three, one, S(say(A('i')))], assign(T, A('a')))
    yield lambda e: S(['DO', 'i', v('a'), e, one, S(say(A('i')))], assign(T, A('a')))
    yield lambda e: S(['DO', 'i', v('a'), v('b'), e, S(say(A('i')))], assign(T, A('a')))
    yield lambda e: S(['FOR', ['i'], [e], S(say(A('i')))], assign(T, A('a')))
    yield lambda e: S(['FOR', ['i', 'j'], [e], S(say(A('i'), A('j')))], assign(T, A('a')))
    yield lambda e: S(['FOR', ['i'], [e, v('b')], S(say(A('i')))], assign(T, A('a')))
    yield lambda e: S(['FOR', ['i'], [v('b'), e], S(say(A('i')))], assign(T, A('a')))
    yield lambda e: S(['PRINT', e], assign(T, A('a')))
    yield lambda e: S(['EXPRLIST', [e]], assign(T, A('a')))
    yield lambda e: S(['EXPRLIST', [v('a'), X(F('f', e[1]))]], assign(T, A('a')))
    yield lambda e: S(['REPEAT', S(['IF_EXPR', X(F('stop')), S(['BREAK']), []], say(e[1]))], assign(T, A('a')))
    for op in ('++=', '+=', '-=', '--=', '*=', '/='):
        yield lambda e, op=op: S(assign(v('x'), A('a')), assign(v('x'), e[1], op=op), assign(T, A('x')))
        yield lambda e, op=op: S(assign(T, A('a')), assign(T, e[1], op=op))
    yield lambda e: S(assign(v('x'), e[1]), assign(T, A('x')))
    yield lambda e: S(['ASSIGN', [v('x'), v('y')], '=', [e]], assign(T, A('x'), A('y'))) if e[1][0] != 'ATOM' or isinstance(e[1][1], str) else S(t, ['EXPRLIST', [e]])
    yield lambda e: S(['ASSIGN', [v('x'), v('y')], '=', [v('a'), e]], assign(T, A('x'), A('y')))
    yield lambda e: S(['ASSIGN', [v('x'), v('y')], '=', [e, v('a')]], assign(T, A('x'), A('y')))
    yield lambda e: S(['ASSIGN', [T], '=', [e, v('a')]])
    yield lambda e: S(['ASSIGN', [X(['ATOM', ['LIST', v('x'), v('y')]])], '=', [v('a'), e]], assign(T, A('x'), A('y')))
    yield lambda e: S(['ASSIGN', [X(['SUBSCRIPTION', A('a'), e])], '=', [v('b')]], assign(T, A('a')))
    yield lambda e: S(['ASSIGN', [X(['SUBSCRIPTION', A('a'), v('b')])], '=', [e]], assign(T, A('a')))
    yield lambda e: S(['FUNCTION', 'g', [['m'], ['n']], S(assign(v('g'), ['MATHOP', '+', A('m'), G(e[1])]))], assign(T, F('g', A('a'), e[1])))


def placed(deep):
    for p in places():
        plain = repr(p(v('z')))
        counts, spread, index = "['DO'" in plain, "['EXPR', ['ATOM', 'y']]], '=', [['EXPR', ['ATOM', 'z']]]" in plain, "['SUBSCRIPTION', ['ATOM', 'a'], ['EXPR', ['ATOM', 'z']]" in plain
        unpack = "['i', 'j']" in plain
        step = "['EXPR', ['ATOM', 'z']], ['STATEMENTS', " in plain
        for k in kinds():
            e = make(k)
            text = e[0] == 'ATOM' and e[1][0] == 'LITERAL' and e[1][1][-1] in '\'"'
            logic = e[0] == 'UNARY' or e[0] == 'MATHOP' and e[1] in ('<', '>', '<=', '>=', '!=', '==', 'in', 'not in')
            many = e[0] == 'ATOM' and e[1][0] in ('LIST', 'TABLE', 'GROUP')
            if counts and (text or logic or many or step and e[:2] == ['FUNC_CALL', 'f']) or spread and (text or logic or many) or unpack and (text or many) or index and many:
                continue                       # texts and truth values counted or taken apart; a list as an index of a target; a step's function, which may be asked twice
            yield p(X(e))


def bodies(name='i'):
    yield S(say(A(name)))
    yield S(assign(v('x'), ['MATHOP', '+', A('x'), A(name)]))
    yield S(['IF_EXPR', X(F('h', A(name))), S(['BREAK']), []], say(A(name)))
    yield S(['IF_EXPR', X(F('h', A(name))), S(['NEXT']), []], say(A(name)))
    yield S(['IF_EXPR', X(A('c')), S(say(A(name)), ['BREAK']), [], S(assign(v('x'), A(name)))])
    yield S(['IF_EXPR', X(A('c')), S(say(A('a'))), [[v('d'), S(say(A('b')))], [v('e'), S(say(A('q')))]], S(say(A(name)), assign(v('x'), A('b')))])
    yield S(['IF_EXPR', X(A('c')), S(say(A('a'))), [[v('d'), S(say(A('b')))]]], say(L("'''two\nlines'''")))
    yield S(assign(v('x'), tag('_tc', 'p')), say(A('x')))
    yield S(assign(T, ['MATHOP', '+', A('x'), A(name)]))


def heads(i):
    """statements with a suite; i names the loop variable"""
    one, three = X(L('1')), X(L('3'))
    yield lambda b: ['IF_EXPR', v('a'), b, []]
    yield lambda b: ['IF_EXPR', v('a'), S(say(A('k'))), [], b]
    yield lambda b: ['IF_EXPR', v('a'), S(say(A('k'))), [[v('b'), b]]]
    yield lambda b: ['DO', i, one, three, one, b]
    yield lambda b: ['DO', i, three, one, X(['SIGN', '-', L('1')]), b]
    yield lambda b: ['DO', i, v('a'), v('b'), v('s'), b]
    yield lambda b: ['DO', i, X(L('6')), X(L('1')), X(['SIGN', '-', L('2')]), b]
    yield lambda b: ['FOR', [i], [v('a')], b]
    yield lambda b: ['FOR', [i, i + '2'], [v('a')], b]
    yield lambda b: ['FOR', [i], [v('a'), v('b')], b]
    yield lambda b: ['REPEAT', S(['IF_EXPR', X(F('stop')), S(['BREAK']), []], *b[1])]
    yield lambda b: ['WITH', 'w' + i, 'si', S(say(['ATTRIBUTE', A('w' + i), 'p']), *b[1])]
    yield lambda b: ['LOOP', 'l' + i, 'lo', '', '', '', S(say(['ATTRIBUTE', A('l' + i), 'p']), *b[1])]
    yield lambda b: ['LOOP', 'l' + i, 'lo', i, '', '', S(say(['ATTRIBUTE', A('l' + i), 'Q'], A(i)), *b[1])]
    for op in ('<', '!='):
        yield lambda b, op=op: ['LOOP', 'l' + i, 'lo', i, op, 'a', S(say(['ATTRIBUTE', A('l' + i), 'p'], A(i)), *b[1])]


def breaks(n, inside=False):
    """is there a break or next that is not in a loop?"""
    if not isinstance(n, (list, tuple)) or not n:
        return False
    if n[0] in ('BREAK', 'NEXT'):
        return not inside
    inside = inside or n[0] in ('DO', 'FOR', 'REPEAT', 'LOOP')
    return any(breaks(x, inside) for x in n if isinstance(x, (list, tuple)))


def structures(deep):
    start = [assign(v(n), A(n + '0')) for n in ('x', 'i', 'j')]

    def whole(s):
        return S(*start, s, assign(T, A('x')))
    for h in heads('i'):
        for b in bodies('i'):
            n = whole(h(b))
            if not breaks(n):
                yield n
        for h2 in heads('j'):
            for b in list(bodies('j')) if deep else list(bodies('j'))[:4]:
                n = whole(h(S(h2(b), say(A('i')))))
                if not breaks(n):
                    yield n
            n = S(*start, h(S(say(A('x')))), h2(S(say(A('x')))), assign(T, A('x')))
            if not breaks(n):
                yield n


def rows(deep):
    """methods of looped items: (tree, names that may be missing)"""
    p, q, r = tag('_tc', 'p'), tag('_tc', 'q'), tag('_tc', 'r')
    cr = ['FUNC_CALL', 'Current_Row', []]
    for e in (p, ['MATHOP', '+', p, q], ['MATHOP', '+', q, ['MATHOP', '*', p, q]], F('f', p, tag('_si', 'p'), r), ['ATTRIBUTE', p, 'att'],
              ['SUBSCRIPTION', p, v('a')], ['SUBSCRIPTION', tag('_lo', 'p'), X(cr)], cr, ['MATHOP', '+', cr, p], ['MATHOP', '+', p, cr],
              ['MATHOP', '+', q, ['MATHOP', '*', cr, p]], ['ATTRIBUTE', ['SUBSCRIPTION', A('lo'), X(p)], 'q'], tag('_TC', 'P'), ['MATHOP', '+', tag('_Tc', 'q'), p],
              ['FUNC_CALL', 'current_row', []]):
        yield S(assign(T, e)), ()
        yield S(assign(v('x'), e), ['IF_EXPR', X(['MATHOP', '<', A('x'), p]), S(assign(T, A('x'))), [], S(assign(T, q))]), ()
        yield S(['FOR', ['i'], [X(e)], S(say(A('i'), p))], assign(T, q)), ()
    for opt in ((p,), (p, q)):
        names = tuple('_tc.' + o[2] for o in opt)
        for base in (r, None):
            body = [assign(T, x) for x in opt]
            cond = v('a') if base is None else X(base)
            yield S(['IF_EXPR', cond, S(*body), [], S(assign(T, A('b')))]), names
            yield S(['IF_EXPR', cond, S(assign(T, A('b'))), [], S(*body)]), names
            yield S(['IF_EXPR', cond, S(assign(T, A('b'))), [[v('c'), S(*body)]], S(assign(T, A('d')))]), names
    # needed in any case
    yield S(['IF_EXPR', v('a'), S(assign(v('x'), p)), [], S(assign(v('x'), A('b')))], assign(T, ['MATHOP', '+', A('x'), p])), ()
    # aliases of the own category
    yield S(['WITH', 'w', 'tc', S(assign(T, ['MATHOP', '+', ['ATTRIBUTE', A('w'), 'p'], ['ATTRIBUTE', A('w'), 'Q']]))]), ()
    yield S(['WITH', 'w', 'tc', S(assign(X(['ATTRIBUTE', A('w'), 't']), ['MATHOP', '+', ['ATTRIBUTE', A('w'), 'p'], cr]))]), ()
    # the target read back
    yield S(assign(T, p), assign(v('x'), tag('_tc', 't')), assign(T, ['MATHOP', '*', A('x'), tag('_Tc', 'T')])), ()
    yield S(['IF_EXPR', X(p), S(assign(T, q)), []]), ()


def keyed(deep):
    """packets of other categories"""
    lo = lambda k: ['SUBSCRIPTION', A('lo'), X(k)]
    tl = lambda k: ['SUBSCRIPTION', ['ATOM', ['ITEM_TAG', '_lo']], X(k)]
    at = lambda n, o: ['ATTRIBUTE', n, o]
    for f in (lo, tl):
        yield S(assign(v('n'), f(A('a'))), assign(T, ['MATHOP', '+', at(A('n'), 'p'), at(A('n'), 'Q')]))
        yield S(assign(v('n'), f(A('a'))), assign(v('m'), f(A('b'))), assign(T, ['MATHOP', '+', at(A('n'), 'p'), at(A('m'), 'p')]))
        yield S(['ASSIGN', [v('n'), v('m')], '=', [X(f(A('a'))), X(f(A('b')))]], assign(T, ['MATHOP', '+', at(A('n'), 'p'), at(A('m'), 'q')]))
        yield S(['ASSIGN', [v('n'), v('m')], '=', [v('c'), X(f(A('b')))]], assign(T, ['MATHOP', '+', at(A('n'), 'att'), at(A('m'), 'q')]))
        yield S(['ASSIGN', [v('n')], '=', [v('c'), X(f(A('b')))]], assign(T, A('n')))
        yield S(assign(T, F('f', f(A('a')), at(A('b'), 'att'))))
        yield S(assign(T, ['MATHOP', '+', F('f', f(A('a'))), at(A('b'), 'att')]))
        yield S(assign(v('n'), F('f', f(A('a')))), assign(T, at(A('n'), 'att')))
        yield S(['IF_EXPR', X(F('f', f(A('a')))), S(assign(T, at(A('b'), 'att'))), [], S(assign(T, A('c')))])
        yield S(assign(T, ['MATHOP', '+', at(f(A('a')), 'p'), at(A('b'), 'att')]))
        yield S(assign(T, at(f(at(f(A('a')), 'p')), 'q')))
        yield S(assign(T, at(f(tag('_tc', 'q')), 'p')))
        yield S(['FOR', ['i'], [v('a')], S(assign(v('n'), f(A('i'))), say(at(A('n'), 'p')))], assign(T, A('b')))


def category_methods(deep):
    for vals in ((A('a'),), (A('a'), ['MATHOP', '&', A('a'), ['MATHOP', '|', A('b'), A('c')]]), (['ATOM', ['LIST', v('a'), v('b')]], A('c'))):
        fa = ['FANCY_ASSIGN', 'tc', [[o, X(x)] for o, x in zip(('p', 'Q'), vals)]]
        yield S(fa)
        yield S(fa, fa)
        yield S(['DO', 'i', X(L('1')), X(L('2')), X(L('1')), S(['FANCY_ASSIGN', 'tc', [['p', v('i')]]])])
        yield S(['LOOP', 'l', 'lo', 'i', '', '', S(['IF_EXPR', X(['ATTRIBUTE', A('l'), 'p']), S(['FANCY_ASSIGN', 'tc', [['p', v('i')], ['q', X(['ATTRIBUTE', A('l'), 'q'])]]]), []])])
        yield S(['LOOP', 'l', 'lo', 'i', '', '', S(['LOOP', 'm', 'lo', 'j', '<', 'i', S(['FANCY_ASSIGN', 'tc', [['p', X(['ATTRIBUTE', A('l'), 'p'])], ['q', X(['ATTRIBUTE', A('m'), 'p'])]]])])])


def functions(deep):
    for body in (S(assign(v('g'), ['MATHOP', '+', A('m'), A('n')])), S(['IF_EXPR', v('m'), S(assign(v('g'), A('n'))), [], S(assign(v('g'), L("'x\\n'")))]),
                 S(['DO', 'i', X(L('1')), v('n'), X(L('1')), S(say(A('i'), A('m')))], assign(v('g'), A('m'))),
                 S(assign(v('x'), L("'''a\n   b'''")), assign(v('g'), F('f', A('x'), A('m'), A('n')))),
                 S(assign(v('g'), ['MATHOP', '+', tag('_si', 'p'), A('m')]), ['PRINT', v('n')])):
        for params in ([['m'], ['n']], [['m', 'x'], ['n', 'y']]):
            yield ['STATEMENTS', [['FUNCTION', 'g', params, body]]]


def follow_function(tree, n, w):
    """a function of a dictionary"""
    try:
        code = translate(tree, n, w, func_def=True)
        module = ast.parse(code)
    except Raise:
        return [('TRANSLATES', 'the translation fails for %s' % brief(n))], 0
    except SyntaxError as e:
        return [('PYTHON', 'what is written for %s is not Python: %s' % (brief(n), e))], 0
    bad, k = [], 0

    def go(dec):
        it = Runner(dec)
        file = File(w, 2)
        args = [Term('name', 'm0'), Term('name', 'n0')]
        try:
            it.block(module.body, it.globals)
            f = it.globals.vars.get('g')
            if not isinstance(f, mini.Func):
                return 'no function g is made'
            have = ('gives', form(it.call(f, args + [file])))
        except Raise as r:
            have = ('raises', r.exc.cls.__name__)
        done, it.events = [e for e in it.events if e[0] != 'needs'], []
        s = Says(it, w, file)
        s.do(n)
        want = ('gives', form(s.functions['g'](args)))
        ask = [e for e in it.events if e[0] != 'needs']
        if have != want or done != ask:
            return 'the Python %s, where the function %s%s' % (tell(have), tell(want), given(it))
    for r in mini.explore(go, limit=500):
        k += 1
        if r:
            return [('DOES', '%s: %s' % (brief(n), r))], k
    return bad, k

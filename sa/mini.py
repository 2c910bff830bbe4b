"""A small abstract interpreter over the syntax tree of the analysed sources.

Nothing of the analysed program is imported or run: statements are interpreted over abstract values that each client
supplies (lengths known only by their order, strings known only by the language they belong to, parsed operands known
only by their position in a rule ...).  Where an abstract value leaves a question open the interpreter asks for a
decision, and `explore` goes through all of them, so every path is covered.
"""
import ast
import builtins
import operator
import time

from .program import AnalysisBroken


class Unsupported(AnalysisBroken):
    pass


def unsupported(what):
    raise Unsupported(what)


class Cut(Exception):
    """path abandoned (infeasible, or beyond a stated bound)"""


class Endless(Cut):
    """the step budget, far above what the scenario needs, is used up"""


class Raise(Exception):
    def __init__(self, exc, node=None):
        self.exc, self.node = exc, node


class _Return(Exception):
    def __init__(self, value):
        self.value = value


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Decisions:
    def __init__(self, prefix=()):
        self.prefix, self.made, self.widths = list(prefix), [], []

    def choose(self, n):
        i = len(self.made)
        k = self.prefix[i] if i < len(self.prefix) else 0
        self.made.append(k)
        self.widths.append(n)
        return k

    def advance(self):
        """the next decision sequence in depth-first order, or None"""
        made, widths = list(self.made), list(self.widths)
        while made:
            if made[-1] + 1 < widths[-1]:
                made[-1] += 1
                return made
            made.pop()
            widths.pop()
        return None


def explore(run, limit=200000, seconds=None):
    """run(decisions) -> result; yields every result (Cut paths are skipped)"""
    prefix = []
    n = 0
    t = time.time()
    while prefix is not None:
        if seconds and time.time() - t > seconds:
            raise Unsupported('not finished after %d s' % seconds)
        d = Decisions(prefix)
        try:
            yield run(d)
        except Cut:
            pass
        n += 1
        if n > limit:
            raise Unsupported('more than %d paths' % limit)
        prefix = d.advance()


class Abs:
    """base of the abstract values of the clients"""
    kind = 'abstract'

    def __hash__(self):
        return id(self)

    def __eq__(self, other):
        return self is other

    def truth(self, it):
        raise Unsupported('truth of %s' % self)

    def binop(self, it, op, other, reflected):
        raise Unsupported('%s %s' % (op, self))

    def unop(self, it, op):
        raise Unsupported('%s %s' % (op, self))

    def compare(self, it, op, other, reflected):
        """True/False"""
        if op in ('Is', 'IsNot'):
            return (self is other) == (op == 'Is')
        raise Unsupported('%s %s %s' % (self, op, other))

    def call(self, it, args, kw):
        raise Unsupported('call of %s' % self)

    def getattr(self, it, name):
        raise Unsupported('%s.%s' % (self, name))

    def getitem(self, it, key):
        raise Unsupported('%s[...]' % self)

    def setitem(self, it, key, value):
        raise Unsupported('%s[...] = ' % self)

    def iterate(self, it):
        raise Unsupported('iteration over %s' % self)

    def length(self, it):
        raise Unsupported('len(%s)' % self)

    def contains(self, it, item):
        raise Unsupported('in %s' % self)

    def isinstance(self, it, classes):
        raise Unsupported('isinstance(%s)' % self)

    def __repr__(self):
        return '<%s>' % self.kind


class Native:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<native %s>' % self.name


class ClassVal:
    def __init__(self, name, methods, bases=(), env=None, attrs=None):
        self.name, self.methods, self.bases, self.env = name, methods, bases, env
        self.attrs = attrs or {}

    def lookup(self, name):
        if name in self.methods:
            return self.methods[name], self
        for b in self.bases:
            if isinstance(b, ClassVal):
                r = b.lookup(name)
                if r:
                    return r
        return None

    def is_sub(self, other):
        if self is other:
            return True
        for b in self.bases:
            if isinstance(b, ClassVal):
                if b.is_sub(other):
                    return True
            elif isinstance(other, type) and isinstance(b, type) and issubclass(b, other):
                return True
        return False

    def is_exception(self):
        return self.is_sub(BaseException)

    def __repr__(self):
        return '<class %s>' % self.name


class Inst:
    def __init__(self, cls, attrs=None):
        self.cls, self.attrs = cls, dict(attrs or {})

    def __repr__(self):
        return '<%s>' % (self.cls.name if isinstance(self.cls, ClassVal) else self.cls)


class Func:
    def __init__(self, node, env, name, globs):
        self.node, self.env, self.name, self.globs = node, env, name, globs
        self.defaults = None

    def __repr__(self):
        return '<function %s>' % self.name


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Env:
    def __init__(self, parent=None, globs=None):
        self.vars, self.parent, self.globs = {}, parent, globs
        self.globals_declared = set()
        self.own = ()

    def get(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return True, e.vars[name]
            if name in e.own:
                break
            e = e.parent
        return False, None


OWN = {}


def own_names(f):
    """names that assignments in the body of a function make its own"""
    k = id(f)
    if k not in OWN:
        out, free = set(), set()
        todo = list(f.body) if not isinstance(f, ast.Lambda) else []
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
                continue
            if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                free |= set(x.names)
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            todo.extend(ast.iter_child_nodes(x))
        OWN[k] = (f, out - free)
    return OWN[k][1]


BINOPS = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv, 'Mod': operator.mod,
          'FloorDiv': operator.floordiv, 'Pow': operator.pow, 'BitOr': operator.or_, 'BitAnd': operator.and_,
          'BitXor': operator.xor, 'LShift': operator.lshift, 'RShift': operator.rshift}
CMPS = {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}
SAFE_STR = set('lower upper strip rstrip lstrip startswith endswith find rfind split rsplit splitlines join replace count '
               'index rindex isspace isdigit isalpha isalnum title capitalize format ljust rjust center zfill encode '
               'partition rpartition expandtabs islower isupper casefold'.split())


class Interp:
    def __init__(self, dec, steps=60000):
        self.dec = dec
        self.steps = steps
        self.globals = Env()
        self.printed = 0
        self.depth = 0
        b = self.globals.vars
        for n in ('True', 'False', 'None'):
            pass
        for n in dir(builtins):
            v = getattr(builtins, n)
            if isinstance(v, type) and issubclass(v, BaseException):
                b[n] = v
        for n in ('int', 'str', 'float', 'list', 'dict', 'tuple', 'set', 'frozenset', 'bool', 'object', 'type', 'bytes',
                  'complex'):
            b[n] = getattr(builtins, n)
        for n in ('len', 'range', 'enumerate', 'zip', 'repr', 'isinstance', 'max', 'min', 'sorted', 'any', 'all', 'print',
                  'getattr', 'hasattr', 'setattr', 'map', 'filter', 'reversed', 'sum', 'iter', 'next', 'ord', 'chr', 'abs',
                  'callable', 'id', 'issubclass', 'hex', 'oct', 'bin'):
            b[n] = Native(n, getattr(self, 'b_' + n, None) or self.plain(getattr(builtins, n)))

    # ---- decisions
    def choose(self, n):
        if n <= 1:
            return 0
        return self.dec.choose(n)

    def choose_bool(self):
        """False first"""
        return bool(self.choose(2))

    # ---- set-up
    def load(self, tree, names=None):
        """functions, classes and simple constants of a module body become globals; other statements are skipped"""
        for n in tree.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                if names is None or n.name in names:
                    self.stmt(n, self.globals)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                if names is None or n.targets[0].id in names:
                    try:
                        self.globals.vars[n.targets[0].id] = self.expr(n.value, self.globals)
                    except (Unsupported, Raise):
                        pass

    # ---- calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        args = list(args)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + args, kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Native):
            return f.fn(*args, **kw)
        if isinstance(f, Abs):
            return f.call(self, args, kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, type):
            return self.call_type(f, args, kw)
        if isinstance(f, Inst) and isinstance(f.cls, ClassVal):
            r = f.cls.lookup('__call__')
            if r:
                return self.call(r[0], [f] + args, kw)
        raise Unsupported('call of %r' % (f,))

    def instantiate(self, cls, args, kw):
        if cls.is_exception():
            o = Inst(cls, {'args': tuple(args)})
        else:
            o = Inst(cls)
        r = cls.lookup('__init__')
        if r:
            self.call(r[0], [o] + list(args), kw)
        return o

    def call_type(self, t, args, kw):
        if issubclass(t, BaseException):
            return Inst(t, {'args': tuple(args)})
        if t is type and len(args) == 1:
            return args[0].cls if isinstance(args[0], Inst) else type(args[0])
        if t in (list, tuple, set, frozenset):
            return t(self.iterate(args[0])) if args else t()
        if t is dict:
            d = dict(kw)
            if args:
                a = args[0]
                d0 = dict(a) if isinstance(a, dict) else dict(tuple(self.iterate(x)) for x in self.iterate(a))
                d0.update(d)
                d = d0
            return d
        if t is bool:
            return self.truth(args[0]) if args else False
        if t is str and args and isinstance(args[0], (Abs, Inst)):
            if hasattr(args[0], 'convert'):
                return args[0].convert(self, t, args[1:], kw)
            return self.b_repr(args[0])
        if t is object:
            return Inst('object')
        if any(isinstance(a, (Abs, Inst)) for a in args):
            m = getattr(args[0], 'convert', None)
            if m:
                return m(self, t, args[1:], kw)
            raise Unsupported('%s(%r)' % (t.__name__, args))
        try:
            return t(*args, **kw)
        except Exception as e:
            raise Raise(Inst(type(e), {'args': e.args}))

    def call_func(self, f, args, kw):
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Endless('recursion')
        try:
            env = Env(f.env, f.globs)
            env.own = own_names(f.node)
            a = f.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            if f.defaults is None:
                f.defaults = [self.expr(d, f.env) for d in a.defaults]
                f.kwdefaults = [None if d is None else self.expr(d, f.env) for d in a.kw_defaults]
            vals = dict(zip(names[len(names) - len(f.defaults):], f.defaults))
            for x, d in zip(a.kwonlyargs, f.kwdefaults):
                vals[x.arg] = d
            given = set()
            for n, v in zip(names, args):
                vals[n] = v
                given.add(n)
            rest = args[len(names):]
            if a.vararg:
                vals[a.vararg.arg] = tuple(rest)
            elif rest:
                raise Raise(Inst(TypeError, {'args': ('too many arguments for %s' % f.name,)}))
            extra = {}
            known = set(names) | {x.arg for x in a.kwonlyargs}
            for k, v in kw.items():
                if k in known:
                    vals[k] = v
                    given.add(k)
                else:
                    extra[k] = v
            if a.kwarg:
                vals[a.kwarg.arg] = extra
            elif extra:
                raise Raise(Inst(TypeError, {'args': ('unexpected argument for %s' % f.name,)}))
            for n in names:
                if n not in vals:
                    raise Raise(Inst(TypeError, {'args': ('missing argument %s of %s' % (n, f.name),)}))
            env.vars.update(vals)
            if isinstance(f.node, ast.Lambda):
                return self.expr(f.node.body, env)
            if is_generator(f.node):
                env.vars['#yields'] = []
                try:
                    self.block(f.node.body, env)
                except _Return:
                    pass
                return env.vars['#yields']
            try:
                self.block(f.node.body, env)
            except _Return as r:
                return r.value
            return None
        finally:
            self.depth -= 1

    # ---- statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps -= 1
        if self.steps < 0:
            raise Endless('too long')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        return m(s, env)

    def s_Expr(self, s, env):
        self.expr(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Global(self, s, env):
        env.globals_declared |= set(s.names)

    def s_Nonlocal(self, s, env):
        env.vars.setdefault('#nonlocal', set()).update(s.names)

    def s_Import(self, s, env):
        for a in s.names:
            n = a.asname or a.name.split('.')[0]
            if not env.get(n)[0]:
                env.vars[n] = self.module(a.name)

    def s_ImportFrom(self, s, env):
        for a in s.names:
            n = a.asname or a.name
            if not env.get(n)[0]:
                found, v = self.globals.get(a.name)
                env.vars[n] = v if found else self.imported(s.module, a.name)

    def module(self, name):
        return Opaque(name)

    def imported(self, module, name):
        return Opaque('%s.%s' % (module, name))

    def s_FunctionDef(self, s, env):
        f = Func(s, env, s.name, env)
        for d in reversed(s.decorator_list):
            raise Unsupported('decorator on %s' % s.name)
        self.assign_name(s.name, f, env)

    def s_ClassDef(self, s, env):
        bases = []
        for b in s.bases:
            try:
                bases.append(self.expr(b, env))
            except (Unsupported, Raise):
                bases.append(None)
        c = ClassVal(s.name, {}, bases, env)
        inner = Env(env)
        for n in s.body:
            if isinstance(n, ast.FunctionDef):
                kind = [d.id for d in n.decorator_list if isinstance(d, ast.Name)]
                f = Func(n, env, s.name + '.' + n.name, env)
                f.kind = kind[0] if kind else None
                if n.decorator_list and kind not in (['staticmethod'], ['property'], ['classmethod']):
                    f = Native(n.name, lambda *a, _n=n.name, **k: unsupported('decorator on %s' % _n))
                c.methods[n.name] = f
            elif isinstance(n, ast.Assign):
                v = self.expr(n.value, inner)
                for t in n.targets:
                    self.assign(t, v, inner)
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = v
            elif isinstance(n, (ast.Expr, ast.Pass)):
                pass
            else:
                raise Unsupported('class body statement')
        self.assign_name(s.name, c, env)

    def s_Return(self, s, env):
        raise _Return(self.expr(s.value, env) if s.value is not None else None)

    def s_Break(self, s, env):
        raise _Break()

    def s_Continue(self, s, env):
        raise _Continue()

    def s_Assign(self, s, env):
        v = self.expr(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value, env), env)

    def s_AugAssign(self, s, env):
        cur = self.expr(load(s.target), env)
        val = self.expr(s.value, env)
        op = type(s.op).__name__
        if isinstance(cur, list) and op == 'Add':
            cur.extend(self.iterate(val))
            new = cur
        elif isinstance(cur, (set, dict)) and op == 'BitOr':
            cur.update(val)
            new = cur
        else:
            new = self.binop(op, cur, val)
        self.assign(s.target, new, env)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.expr(t.value, env)
                k = self.key(t.slice, env)
                if isinstance(o, Abs):
                    o.delitem(self, k)
                else:
                    try:
                        del o[k]
                    except (KeyError, IndexError) as e:
                        raise Raise(Inst(type(e), {'args': e.args}), t)
            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value, env)
                if isinstance(o, Inst):
                    o.attrs.pop(t.attr, None)
                else:
                    raise Unsupported('del of attribute')
            else:
                raise Unsupported('del')

    def s_If(self, s, env):
        self.block(s.body if self.truth(self.expr(s.test, env)) else s.orelse, env)

    def s_Assert(self, s, env):
        if not self.truth(self.expr(s.test, env)):
            raise Raise(Inst(AssertionError, {'args': ()}), s)

    def s_While(self, s, env):
        while self.truth(self.expr(s.test, env)):
            self.steps -= 1
            if self.steps < 0:
                raise Endless('loop')
            try:
                self.block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.block(s.orelse, env)

    def s_For(self, s, env):
        for v in self.iterate(self.expr(s.iter, env), live=True):
            self.assign(s.target, v, env)
            try:
                self.block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.block(s.orelse, env)

    def s_Raise(self, s, env):
        if s.exc is None:
            found, cur = env.get('#handling')
            if found and cur is not None:
                raise Raise(cur, s)
            raise Raise(Inst(RuntimeError, {'args': ()}), s)
        e = self.expr(s.exc, env)
        if isinstance(e, (type, ClassVal)):
            e = self.call(e)
        raise Raise(e, s)

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except Raise as r:
                for h in s.handlers:
                    if h.type is None or self.exc_match(r.exc, self.expr(h.type, env)):
                        if h.name:
                            env.vars[h.name] = r.exc
                        old = env.vars.get('#handling')
                        env.vars['#handling'] = r.exc
                        try:
                            self.block(h.body, env)
                        finally:
                            env.vars['#handling'] = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            if s.finalbody:
                self.block(s.finalbody, env)

    def s_With(self, s, env):
        for i in s.items:
            v = self.expr(i.context_expr, env)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, env)
        self.block(s.body, env)

    def exc_match(self, exc, want):
        if isinstance(want, tuple):
            return any(self.exc_match(exc, w) for w in want)
        cls = exc.cls if isinstance(exc, Inst) else None
        if isinstance(cls, ClassVal):
            return cls.is_sub(want)
        if isinstance(cls, type) and isinstance(want, type):
            return issubclass(cls, want)
        return False

    # ---- assignment
    def assign_name(self, name, v, env):
        if name in env.globals_declared:
            self.globals.vars[name] = v
            return
        nl = env.vars.get('#nonlocal')
        if nl and name in nl:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        env.vars[name] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = list(self.iterate(v))
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                i = stars[0]
                after = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], vals):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, vals[i:len(vals) - after], env)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, env)
                return
            if len(vals) != len(t.elts):
                raise Raise(Inst(ValueError, {'args': ('unpack',)}), t)
            for e, x in zip(t.elts, vals):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.expr(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, env)
            k = self.key(t.slice, env)
            self.setitem(o, k, v, t)
        else:
            raise Unsupported('assignment target')

    def setitem(self, o, k, v, node=None):
        if isinstance(o, Abs):
            return o.setitem(self, k, v)
        if isinstance(o, Inst) and isinstance(o.cls, ClassVal):
            r = o.cls.lookup('__setitem__')
            if r:
                return self.call(r[0], [o, k, v])
        try:
            o[k] = v
        except (IndexError, TypeError, KeyError) as e:
            raise Raise(Inst(type(e), {'args': e.args}), node)

    def setattr(self, o, name, v):
        if isinstance(o, Inst):
            if isinstance(o.cls, ClassVal):
                r = o.cls.lookup('__setattr__')
                if r:
                    return self.call(r[0], [o, name, v])
            o.attrs[name] = v
        elif isinstance(o, Abs) and hasattr(o, 'setattr'):
            o.setattr(self, name, v)
        elif isinstance(o, ClassVal) and not o.lookup(name):
            o.attrs[name] = v
        else:
            raise Unsupported('attribute %s of %r' % (name, o))

    # ---- expressions
    def expr(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        if e.id in env.globals_declared:
            found, v = self.globals.get(e.id)
        else:
            found, v = env.get(e.id)
            if not found:
                x = env
                while x is not None:
                    if e.id in x.own:
                        raise Raise(Inst(UnboundLocalError, {'args': (e.id,)}))
                    x = x.parent
                found, v = self.globals.get(e.id)
        if not found:
            return self.unknown_name(e)
        return v

    def unknown_name(self, e):
        raise Unsupported('name %s' % e.id)

    def e_List(self, e, env):
        return self.elements(e.elts, env)

    def e_Tuple(self, e, env):
        return tuple(self.elements(e.elts, env))

    def e_Set(self, e, env):
        return set(self.elements(e.elts, env))

    def elements(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += list(self.iterate(self.expr(x.value, env)))
            else:
                out.append(self.expr(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.expr(v, env))
            else:
                d[self.expr(k, env)] = self.expr(v, env)
        return d

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.expr(x, env)
            if i < len(e.values) - 1 and self.truth(v) != isand:
                return v
        return v

    def e_UnaryOp(self, e, env):
        v = self.expr(e.operand, env)
        op = type(e.op).__name__
        if op == 'Not':
            return not self.truth(v)
        if isinstance(v, Abs):
            return v.unop(self, op)
        return {'USub': operator.neg, 'UAdd': operator.pos, 'Invert': operator.invert}[op](v)

    def e_BinOp(self, e, env):
        a = self.expr(e.left, env)
        return self.binop(type(e.op).__name__, a, self.expr(e.right, env), e)

    def binop(self, op, a, b, node=None):
        if isinstance(a, Abs):
            return a.binop(self, op, b, False)
        if op == 'Mod' and isinstance(a, str):
            return self.format_mod(a, b)
        if isinstance(b, Abs):
            return b.binop(self, op, a, True)
        try:
            return BINOPS[op](a, b)
        except Exception as x:
            raise Raise(Inst(type(x), {'args': x.args}), node)

    def format_mod(self, a, b):
        items = b if isinstance(b, tuple) else (b,)
        if any(isinstance(x, (Abs, Inst, Func, Bound, ClassVal)) for x in items):
            return self.abstract_text(a, items)
        try:
            return a % b
        except Exception as x:
            raise Raise(Inst(type(x), {'args': x.args}))

    def abstract_text(self, fmt, items):
        return Text((fmt,) + tuple(items))

    def e_Compare(self, e, env):
        left = self.expr(e.left, env)
        for op, c in zip(e.ops, e.comparators):
            right = self.expr(c, env)
            if not self.compare(type(op).__name__, left, right):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        if op == 'In':
            return self.contains(b, a)
        if op == 'NotIn':
            return not self.contains(b, a)
        if op in ('Is', 'IsNot'):
            if isinstance(a, Abs):
                r = a.compare(self, 'Is', b, False)
            elif isinstance(b, Abs):
                r = b.compare(self, 'Is', a, True)
            else:
                r = a is b or (isinstance(a, (int, str)) and not isinstance(a, bool) and type(a) is type(b) and a == b)
            return r == (op == 'Is')
        if op in ('Eq', 'NotEq'):
            return self.equal(a, b) == (op == 'Eq')
        if isinstance(a, Abs):
            return a.compare(self, op, b, False)
        if isinstance(b, Abs):
            return b.compare(self, op, a, True)
        if isinstance(a, (tuple, list)) and type(a) is type(b):
            for x, y in zip(a, b):
                if not self.equal(x, y):
                    return self.compare(op, x, y)
            return CMPS[op](len(a), len(b))
        try:
            return CMPS[op](a, b)
        except TypeError as x:
            raise Raise(Inst(TypeError, {'args': x.args}))

    def equal(self, a, b):
        if a is b:
            return True
        if isinstance(a, Abs):
            return a.compare(self, 'Eq', b, False)
        if isinstance(b, Abs):
            return b.compare(self, 'Eq', a, True)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
                return False
            return all(self.equal(x, y) for x, y in zip(a, b))
        if isinstance(a, Inst) and isinstance(a.cls, ClassVal):
            r = a.cls.lookup('__eq__')
            if r:
                return self.truth(self.call(r[0], [a, b]))
        return a == b

    def contains(self, c, x):
        if isinstance(c, Abs):
            return c.contains(self, x)
        if isinstance(c, Inst) and isinstance(c.cls, ClassVal):
            r = c.cls.lookup('__contains__')
            if r:
                return self.truth(self.call(r[0], [c, x]))
        if isinstance(c, str):
            if isinstance(x, Abs):
                return x.within(self, c)
            return x in c
        if isinstance(c, (list, tuple, set, frozenset, dict, range, DictView)):
            items = list(c)
            if isinstance(x, (str, int, type(None))) and isinstance(c, (set, frozenset, dict)) and \
                    not any(isinstance(i, Abs) for i in items):
                return x in c
            return any(self.equal(i, x) for i in items)
        raise Unsupported('in %r' % (c,))

    def truth(self, v):
        if isinstance(v, Abs):
            return v.truth(self)
        if isinstance(v, Inst):
            if isinstance(v.cls, ClassVal):
                for n in ('__bool__', '__nonzero__', '__len__'):
                    r = v.cls.lookup(n)
                    if r:
                        return self.truth(self.call(r[0], [v]))
            return True
        if isinstance(v, (Func, Bound, Native, ClassVal)):
            return True
        return bool(v)

    def e_IfExp(self, e, env):
        return self.expr(e.body if self.truth(self.expr(e.test, env)) else e.orelse, env)

    def e_Lambda(self, e, env):
        return Func(e, env, '<lambda>', env)

    def e_NamedExpr(self, e, env):
        v = self.expr(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Starred(self, e, env):
        raise Unsupported('starred')

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.expr(v.value, env)
                parts.append(x if isinstance(x, Abs) else self.b_repr(x) if v.conversion == 114 else x)
        if all(isinstance(p, (str, int, float)) for p in parts):
            return ''.join(str(p) for p in parts)
        return Text(tuple(parts))

    def e_Attribute(self, e, env):
        return self.getattr(self.expr(e.value, env), e.attr, e)

    def getattr(self, o, name, node=None):
        if isinstance(o, Abs):
            return o.getattr(self, name)
        if isinstance(o, Inst):
            if name in o.attrs:
                return o.attrs[name]
            if isinstance(o.cls, ClassVal):
                r = o.cls.lookup(name)
                if r:
                    k = getattr(r[0], 'kind', None)
                    if k == 'staticmethod':
                        return r[0]
                    if k == 'property':
                        return self.call(r[0], [o])
                    return Bound(r[0], o)
                c = self.class_attr(o.cls, name)
                if c is not None:
                    return c[0]
                r = o.cls.lookup('__getattr__')
                if r:
                    return self.call(r[0], [o, name])
            if name == '__class__':
                return o.cls
            return self.missing_attr(o, name, node)
        if isinstance(o, ClassVal):
            r = o.lookup(name)
            if r:
                return r[0]
            c = self.class_attr(o, name)
            if c is not None:
                return c[0]
            if name == '__name__':
                return o.name
            raise Raise(Inst(AttributeError, {'args': (name,)}), node)
        if isinstance(o, type):
            if o is str and name in SAFE_STR or o in (list, dict, set):
                return Native(name, lambda s, *a, **k: self.call(self.getattr(s, name), a, k))
            if issubclass(o, BaseException) and name == '__init__':
                return Native('exc_init', lambda s, *a, **k: s.attrs.__setitem__('args', tuple(a)))
            if o is object and name == '__init__':
                return Native('init', lambda s, *a, **k: None)
            if o is object and name == '__setattr__':
                return Native('setattr', lambda s, n, v: s.attrs.__setitem__(n, v))
        return self.builtin_method(o, name, node)

    def class_attr(self, cls, name):
        if name in cls.attrs:
            return (cls.attrs[name],)
        for b in cls.bases:
            if isinstance(b, ClassVal):
                r = self.class_attr(b, name)
                if r:
                    return r
        return None

    def missing_attr(self, o, name, node):
        raise Raise(Inst(AttributeError, {'args': (name,)}), node)

    def builtin_method(self, o, name, node):
        if isinstance(o, str):
            if name in SAFE_STR:
                return Native('str.' + name, lambda *a, **k: self.str_method(o, name, a, k))
        elif isinstance(o, list):
            if name == 'append':
                return Native('append', lambda x: o.append(x))
            if name == 'extend':
                return Native('extend', lambda x: o.extend(self.iterate(x)))
            if name == 'insert':
                return Native('insert', lambda i, x: o.insert(i, x))
            if name == 'pop':
                return Native('pop', lambda *a: self.guard(lambda: o.pop(*a), node))
            if name == 'copy':
                return Native('copy', lambda: o[:])
            if name == 'reverse':
                return Native('reverse', lambda: o.reverse())
            if name == 'clear':
                return Native('clear', lambda: o.clear())
            if name in ('index', 'remove', 'count'):
                return Native(name, lambda x, *a: self.list_find(o, name, x))
            if name == 'sort':
                def sort(key=None, reverse=False):
                    o[:] = self.b_sorted(o, key=key, reverse=reverse)
                return Native('sort', sort)
        elif isinstance(o, tuple):
            if name in ('index', 'count'):
                return Native(name, lambda x: self.list_find(list(o), name, x))
        elif isinstance(o, dict):
            if name in ('get', 'setdefault', 'pop'):
                return Native(name, lambda *a: self.guard(lambda: getattr(o, name)(*a), node))
            if name in ('keys', 'values', 'items', 'copy'):
                return Native(name, lambda: list(getattr(o, name)()) if name != 'copy' else o.copy())
            if name == 'has_key':
                return Native(name, lambda k: k in o)
            if name == 'update':
                return Native(name, lambda *a, **k: o.update(*a, **k))
            if name == 'clear':
                return Native(name, o.clear)
        elif isinstance(o, (set, frozenset)):
            if name in ('add', 'discard', 'remove', 'union', 'intersection', 'difference', 'update', 'difference_update',
                        'intersection_update', 'issubset', 'issuperset', 'isdisjoint', 'copy', 'clear', 'pop',
                        'symmetric_difference'):
                return Native(name, lambda *a: self.guard(lambda: getattr(o, name)(*a), node))
        elif isinstance(o, Generator):
            return Native(name, lambda *a: getattr(o, name)(*a))
        if isinstance(o, (int, float)) and name in ('real', 'imag', 'bit_length', 'is_integer'):
            return getattr(o, name)
        if o is None or isinstance(o, (int, float, str, list, tuple, dict, set)):
            if not hasattr(o, name):
                raise Raise(Inst(AttributeError, {'args': (name,)}), node)
        raise Unsupported('attribute %s of %r' % (name, type(o).__name__))

    def guard(self, f, node=None):
        try:
            return f()
        except (KeyError, IndexError, ValueError, TypeError) as e:
            raise Raise(Inst(type(e), {'args': e.args}), node)

    def list_find(self, o, what, x):
        hits = 0
        for i, y in enumerate(o):
            if self.equal(y, x):
                if what == 'index':
                    return i
                if what == 'remove':
                    del o[i]
                    return None
                hits += 1
        if what == 'count':
            return hits
        raise Raise(Inst(ValueError, {'args': ('not in list',)}))

    def str_method(self, o, name, a, k):
        if name == 'join':
            items = list(self.iterate(a[0]))
            if all(isinstance(i, str) for i in items):
                return o.join(items)
            return Text((o, 'join') + tuple(items))
        if name == 'format' and (any(isinstance(x, (Abs, Inst)) for x in list(a) + list(k.values()))):
            return self.abstract_text(o, tuple(a) + tuple(k.values()))
        if any(isinstance(x, Abs) for x in a):
            for x in a:
                if isinstance(x, Abs) and hasattr(x, 'arg_of'):
                    return x.arg_of(self, o, name, a)
            raise Unsupported('str.%s of an abstract value' % name)
        return self.guard(lambda: getattr(o, name)(*a, **k))

    def e_Subscript(self, e, env):
        o = self.expr(e.value, env)
        return self.getitem(o, self.key(e.slice, env), e)

    def key(self, s, env):
        return self.expr(s, env)

    def e_Slice(self, s, env):
        return slice(*[None if x is None else self.expr(x, env) for x in (s.lower, s.upper, s.step)])

    def getitem(self, o, k, node=None):
        if isinstance(o, Abs):
            return o.getitem(self, k)
        if isinstance(o, Inst) and isinstance(o.cls, ClassVal):
            r = o.cls.lookup('__getitem__')
            if r:
                return self.call(r[0], [o, k])
        if isinstance(k, Abs) or (isinstance(k, slice) and any(isinstance(x, Abs) for x in (k.start, k.stop, k.step))):
            for x in ([k] if isinstance(k, Abs) else [k.start, k.stop, k.step]):
                if isinstance(x, Abs) and hasattr(x, 'index_into'):
                    return x.index_into(self, o, k)
            if isinstance(o, dict):
                for kk in o:
                    if self.equal(kk, k):
                        return o[kk]
                raise Raise(Inst(KeyError, {'args': (k,)}), node)
            raise Unsupported('abstract index')
        try:
            return o[k]
        except (IndexError, KeyError, TypeError) as x:
            raise Raise(Inst(type(x), {'args': x.args}), node)

    def e_Call(self, e, env):
        f = self.expr(e.func, env)
        args = self.elements(e.args, env)
        kw = {}
        for k in e.keywords:
            v = self.expr(k.value, env)
            if k.arg is None:
                kw.update(v)
            else:
                kw[k.arg] = v
        if f is getattr(self, '_super', None):
            pass
        try:
            return self.call(f, args, kw)
        except Raise as r:
            if r.node is None:
                r.node = e
            raise

    def e_Yield(self, e, env):
        found, ys = env.get('#yields')
        ys.append(self.expr(e.value, env) if e.value is not None else None)
        return None

    def comp(self, gens, env, emit):
        def rec(i, en):
            if i == len(gens):
                emit(en)
                return
            g = gens[i]
            for v in self.iterate(self.expr(g.iter, en), live=True):
                inner = Env(en)
                self.assign(g.target, v, inner)
                if all(self.truth(self.expr(c, inner)) for c in g.ifs):
                    rec(i + 1, inner)
        rec(0, Env(env))

    def e_ListComp(self, e, env):
        out = []
        self.comp(e.generators, env, lambda en: out.append(self.expr(e.elt, en)))
        return out

    def e_GeneratorExp(self, e, env):
        return self.e_ListComp(e, env)

    def e_SetComp(self, e, env):
        return set(self.e_ListComp(e, env))

    def e_DictComp(self, e, env):
        out = {}

        def emit(en):
            out[self.expr(e.key, en)] = self.expr(e.value, en)
        self.comp(e.generators, env, emit)
        return out

    def iterate(self, v, live=False):
        if isinstance(v, Abs):
            return v.iterate(self)
        if isinstance(v, Inst) and isinstance(v.cls, ClassVal):
            r = v.cls.lookup('__iter__')
            if r:
                return self.iterate(self.call(r[0], [v]))
        if isinstance(v, list) and live:
            return LiveList(v)
        if isinstance(v, (list, tuple, str, range, set, frozenset, dict, DictView)):
            return list(v)
        if isinstance(v, Generator):
            return v
        if hasattr(v, '__next__'):
            return list(v)
        raise Raise(Inst(TypeError, {'args': ('not iterable',)}))

    # ---- builtins
    def plain(self, f):
        def g(*a, **k):
            if any(isinstance(x, (Abs, Inst)) for x in a):
                raise Unsupported('%s of an abstract value' % f.__name__)
            return self.guard(lambda: f(*a, **k))
        return g

    def b_len(self, x):
        if isinstance(x, Abs):
            return x.length(self)
        if isinstance(x, Inst) and isinstance(x.cls, ClassVal):
            r = x.cls.lookup('__len__')
            if r:
                return self.call(r[0], [x])
        try:
            return len(x)
        except TypeError as e:
            raise Raise(Inst(TypeError, {'args': e.args}))

    def b_print(self, *a, **k):
        self.printed += 1

    def b_repr(self, x, *a):
        if isinstance(x, (Abs, Inst, Func, Bound, ClassVal)) or \
                (isinstance(x, (list, tuple, dict, set)) and has_abs(x)):
            return Text(('repr', x if isinstance(x, Abs) else str(x)))
        return repr(x)

    def b_isinstance(self, x, c):
        if isinstance(x, Abs):
            return x.isinstance(self, c)
        cs = c if isinstance(c, tuple) else (c,)
        for k in cs:
            if isinstance(x, Inst):
                if isinstance(x.cls, ClassVal):
                    if x.cls.is_sub(k):
                        return True
                elif isinstance(x.cls, type) and isinstance(k, type) and issubclass(x.cls, k):
                    return True
            elif isinstance(k, type) and isinstance(x, k):
                return True
        return False

    def b_issubclass(self, a, b):
        if isinstance(a, ClassVal):
            return a.is_sub(b)
        return issubclass(a, b)

    def minmax(self, a, k, sign):
        items = list(self.iterate(a[0])) if len(a) == 1 else list(a)
        key = k.get('key')
        if not items:
            if 'default' in k:
                return k['default']
            raise Raise(Inst(ValueError, {'args': ('empty',)}))
        best = items[0]
        bk = self.call(key, [best]) if key else best
        for x in items[1:]:
            xk = self.call(key, [x]) if key else x
            if self.compare('Gt' if sign > 0 else 'Lt', xk, bk):
                best, bk = x, xk
        return best

    def b_max(self, *a, **k):
        return self.minmax(a, k, 1)

    def b_min(self, *a, **k):
        return self.minmax(a, k, -1)

    def b_sorted(self, x, key=None, reverse=False):
        out = []
        items = list(self.iterate(x))
        if reverse:
            items.reverse()
        for v in items:
            kv = self.call(key, [v]) if key else v
            i = len(out)
            while i > 0 and self.compare('Lt', kv, out[i - 1][0]):
                i -= 1
            out.insert(i, (kv, v))
        res = [v for _, v in out]
        if reverse:
            res.reverse()
        return res

    def b_any(self, x):
        return any(self.truth(v) for v in self.iterate(x))

    def b_all(self, x):
        return all(self.truth(v) for v in self.iterate(x))

    def b_sum(self, x, start=0):
        for v in self.iterate(x):
            start = self.binop('Add', start, v)
        return start

    def b_enumerate(self, x, start=0):
        return [(i + start, v) for i, v in enumerate(self.iterate(x))]

    def b_zip(self, *xs):
        return [tuple(t) for t in zip(*[list(self.iterate(x)) for x in xs])]

    def b_map(self, f, *xs):
        return [self.call(f, list(t)) for t in zip(*[list(self.iterate(x)) for x in xs])]

    def b_filter(self, f, xs):
        return [x for x in self.iterate(xs) if self.truth(self.call(f, [x]) if f is not None else x)]

    def b_reversed(self, x):
        return list(reversed(list(self.iterate(x))))

    def b_iter(self, x):
        return Generator(list(self.iterate(x)))

    def b_next(self, x, *d):
        if isinstance(x, list):        # an eager generator expression
            x = Generator(x)
        if isinstance(x, Abs) and hasattr(x, 'next'):
            return x.next(self, *d)
        if not isinstance(x, Generator):
            raise Unsupported('next()')
        if x.at < len(x.items):
            x.at += 1
            return x.items[x.at - 1]
        if d:
            return d[0]
        raise Raise(Inst(StopIteration, {'args': ()}))

    def attr_name(self, name):
        if isinstance(name, Abs):
            try:
                if name.isinstance(self, str):
                    return
            except Unsupported:
                return
        elif isinstance(name, str):
            return
        raise Raise(Inst(TypeError, {'args': ('attribute name must be string',)}))

    def b_getattr(self, o, name, *d):
        self.attr_name(name)
        try:
            return self.getattr(o, name)
        except Raise as r:
            if d and isinstance(r.exc, Inst) and r.exc.cls is AttributeError:
                return d[0]
            raise

    def b_setattr(self, o, name, v):
        self.attr_name(name)
        self.setattr(o, name, v)

    def b_hasattr(self, o, name):
        try:
            self.getattr(o, name)
            return True
        except Raise:
            return False

    def b_callable(self, o):
        return isinstance(o, (Func, Bound, Native, ClassVal, type))

    def b_id(self, o):
        return id(o)


class LiveList:
    """iteration that sees changes of the list, as Python's does"""

    def __init__(self, items):
        self.items, self.at = items, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.at >= len(self.items):
            raise StopIteration
        self.at += 1
        return self.items[self.at - 1]


class Generator:
    def __init__(self, items):
        self.items, self.at = items, 0

    def __iter__(self):
        while self.at < len(self.items):
            self.at += 1
            yield self.items[self.at - 1]


class DictView(list):
    pass


class Text(Abs):
    """some text made from abstract parts"""
    kind = 'text'

    def __init__(self, parts):
        self.parts = parts

    def truth(self, it):
        return True

    def binop(self, it, op, other, reflected):
        if op == 'Add':
            return Text((other, self) if reflected else (self, other))
        if op == 'Mod' and not reflected:
            return Text((self, other))
        if op == 'Mult':
            return Text((self, other))
        return super().binop(it, op, other, reflected)

    def arg_of(self, it, o, name, a):
        return Text((o, name) + tuple(a))

    def isinstance(self, it, c):
        return str in (c if isinstance(c, tuple) else (c,))

    def getattr(self, it, name):
        if name in SAFE_STR:
            return Native(name, lambda *a, **k: Text((self, name) + a))
        return super().getattr(it, name)

    def __repr__(self):
        return 'Text%r' % (self.parts,)


class Opaque(Abs):
    """something outside the analysed sources that is only passed around"""

    def __init__(self, name):
        self.name = name

    def getattr(self, it, name):
        return Opaque(self.name + '.' + name)

    def __repr__(self):
        return '<%s>' % self.name


def has_abs(x):
    if isinstance(x, (Abs, Inst)):
        return True
    if isinstance(x, dict):
        return any(has_abs(v) for v in list(x.keys()) + list(x.values()))
    if isinstance(x, (list, tuple, set)):
        return any(has_abs(v) for v in x)
    return False


def load(t):
    t2 = ast.copy_location(ast.parse('0', mode='eval').body, t)
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(t.id, ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t)
    if isinstance(t, ast.Subscript):
        return ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t)
    return t2


_GEN = {}


def is_generator(node):
    if node not in _GEN:
        found = False
        todo = list(ast.iter_child_nodes(node))
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                found = True
                break
            if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                todo += list(ast.iter_child_nodes(n))
        _GEN[node] = found
    return _GEN[node]

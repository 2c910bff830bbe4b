"""Interpretation of C functions from clang's syntax tree over a checked memory: every object has an extent, an owner and a
life time, reads of unset bytes, accesses outside an object and uses of freed memory are violations, calls of functions
outside the file go to models given by the client."""
import json
import os
import re
import subprocess

from . import program
from .mini import Decisions, Cut, explore, Unsupported  # noqa: F401 (re-exported)

HERE = os.path.dirname(os.path.abspath(__file__))
_TREES = {}


def tree(path, defines=(), stubs=True):
    """clang's syntax tree of a file of the repository"""
    key = (path, tuple(defines))
    if key in _TREES:
        return _TREES[key]
    full = os.path.join(program.REPO, path)
    cmd = ['clang', '-fsyntax-only', '-w', '-ferror-limit=0', '-I' + os.path.dirname(full), '-Wno-implicit-function-declaration']
    if stubs:
        cmd.append('-I' + os.path.join(os.path.dirname(HERE), 'stubs'))
    cmd += ['-D' + d for d in defines] + ['-Xclang', '-ast-dump=json', full]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if not r.stdout.strip():
        raise program.AnalysisBroken('clang: %s' % r.stderr[-300:])
    t = json.loads(r.stdout)
    errs = [l for l in r.stderr.splitlines() if ' error: ' in l]
    _TREES[key] = (t, errs)
    return _TREES[key]


class Fault(Exception):
    """the program does something C leaves undefined, or breaks a rule of a model"""

    def __init__(self, rule, text, where=None):
        Exception.__init__(self, text)
        self.rule, self.text, self.where = rule, text, where


class Block:
    count = 0

    def __init__(self, name, size=None, kind='global', data=None):
        self.name, self.size, self.kind, self.data, self.alive = name, size, kind, data if data is not None else {}, True
        self.zeroed = False
        Block.count += 1
        self.n = Block.count

    def __repr__(self):
        return '<%s>' % self.name


class Ptr:
    __slots__ = ('block', 'off')

    def __init__(self, block, off=0):
        self.block, self.off = block, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.block is self.block and o.off == self.off

    def __hash__(self):
        return hash((id(self.block), self.off))

    def __repr__(self):
        return '&%s+%s' % (self.block.name, self.off)


class FuncRef:
    def __init__(self, name):
        self.name = name


UNSET = 'unset'


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


class _Goto(Exception):
    def __init__(self, label):
        self.label = label


SIZES = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4,
         'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, '_Bool': 1, 'float': 4, 'double': 8}
UNSIGNED = {'unsigned char': 8, 'unsigned short': 16, 'unsigned int': 32, 'unsigned long': 64, 'unsigned long long': 64, '_Bool': 1}
SIGNED = {'char': 8, 'signed char': 8, 'short': 16, 'int': 32, 'long': 64, 'long long': 64}


def kids(n):
    return [x for x in n.get('inner', ()) if x.get('kind') and not x['kind'].endswith('Comment') and not x['kind'].endswith('Attr')]


class C:
    def __init__(self, trees, dec, natives=None, steps=200000):
        self.dec, self.steps = dec, steps
        self.funcs, self.vars, self.records, self.typedefs, self.enums = {}, {}, {}, {}, {}
        self.canons = {}
        self.globals = {}
        self.natives = dict(natives or {})
        self.where = None
        self.record_ids = {}
        for t in trees:
            for n in t['inner']:
                k = n['kind']
                if k == 'FunctionDecl':
                    if any(x['kind'] == 'CompoundStmt' for x in kids(n)):
                        self.funcs[n['name']] = n
                elif k == 'VarDecl':
                    old = self.vars.get(n['name'])
                    if old is None or 'init' in n or old.get('storageClass') == 'extern':
                        self.vars[n['name']] = n
                elif k == 'RecordDecl' and n.get('completeDefinition'):
                    self.record_ids[n['id']] = n
                    if n.get('name'):
                        self.records['struct ' + n['name']] = n
                elif k == 'EnumDecl':
                    v = 0
                    for e in kids(n):
                        if e['kind'] == 'EnumConstantDecl':
                            lit = find(e, lambda x: x['kind'] in ('ConstantExpr', 'IntegerLiteral') and 'value' in x)
                            v = int(lit[0]['value']) if lit else v
                            self.enums[e['name']] = v
                            v += 1
                elif k == 'TypedefDecl':
                    self.typedefs[n['name']] = n['type'].get('desugaredQualType', n['type']['qualType'])
                    inner = kids(n)
                    if inner and inner[0].get('ownedTagDecl'):
                        i = inner[0]['ownedTagDecl']['id']
                        if i in self.record_ids:
                            self.records[n['name']] = self.record_ids[i]
                            self.records[n['type']['qualType']] = self.record_ids[i]

    # ---- types
    def canon(self, q):
        r = self.canons.get(q)
        if r is None:
            r = self.canons[q] = self.canon1(q)
        return r

    def canon1(self, q):
        q = re.sub(r'\b(?:const|register|volatile|restrict|__restrict)\b', ' ', q)
        q = re.sub(r'\s*\*\s*', ' *', re.sub(r'\s+', ' ', q)).replace('* *', '**').replace('* *', '**').strip()
        for _ in range(10):
            base = q.split('*')[0].split('[')[0].strip()
            if base in self.typedefs and base not in self.records and self.typedefs[base] != base:
                new = re.sub(r'\bconst\b ?', '', self.typedefs[base])
                if '(' in new:
                    return q
                q = new + q[len(base):]
            else:
                break
        return q.strip()

    def typ(self, n):
        t = n['type']
        return self.canon(t.get('desugaredQualType', t['qualType']))

    def sizeof(self, q):
        q = self.canon(q)
        if q.endswith(']'):
            i = q.rindex('[') if q.count('[') == 1 else q.index('[')
            elem, rest = q[:i].strip(), q[i:]
            n, _, more = rest[1:].partition(']')
            if not n:
                return None
            return int(n) * self.sizeof(elem + more)
        if q.endswith('*') or '(*' in q or '(' in q:
            return 8
        if q in SIZES:
            return SIZES[q]
        if q.startswith('enum'):
            return 4
        r = self.record(q)
        if r is not None:
            return sum(max(8, self.sizeof(f['type'].get('desugaredQualType', f['type']['qualType'])))
                       for f in kids(r) if f['kind'] == 'FieldDecl')
        raise Unsupported('size of %s' % q)

    def record(self, q):
        return self.records.get(q) or self.records.get('struct ' + q)

    def field(self, q, name):
        off = 0
        for f in kids(self.record(q)):
            if f['kind'] == 'FieldDecl':
                ft = f['type'].get('desugaredQualType', f['type']['qualType'])
                if f['name'] == name:
                    return off
                off += max(8, self.sizeof(ft))
        raise Unsupported('field %s' % name)

    @staticmethod
    def pointee(q):
        if q.endswith('*'):
            return q[:-1].strip()
        if q.endswith(']'):
            i = q.index('[')
            j = q.index(']')
            return (q[:i] + q[j + 1:]).strip()
        raise Unsupported('pointee of ' + q)

    def wrap(self, v, q):
        if isinstance(v, bool):
            v = int(v)
        if not isinstance(v, int):
            return v
        if q in UNSIGNED:
            return v % (1 << UNSIGNED[q]) if q != '_Bool' else int(bool(v))
        if q in SIGNED:
            b = SIGNED[q]
            v %= 1 << b
            return v - (1 << b) if v >= 1 << (b - 1) else v
        return v

    # ---- memory
    def fault(self, rule, text):
        raise Fault(rule, text, self.where)

    def load(self, p, q):
        q = self.canon(q)
        if not isinstance(p, Ptr):
            self.fault('null-pointer', 'read through a null pointer')
        b = p.block
        if not b.alive:
            self.fault('use-after-free', 'reads %s after it was freed' % b.name)
        n = self.sizeof(q) or 0
        if p.off < 0 or (b.size is not None and p.off + n > b.size):
            self.fault('out-of-bounds', 'reads %s at byte %s of %s' % (b.name, p.off, b.size))
        if p.off not in b.data:
            if b.zeroed:
                return 0
            if b.kind == 'opaque':
                raise Unsupported('read of %s' % b.name)
            self.fault('unset-memory', 'reads %s before anything was stored there' % b.name)
        return b.data[p.off]

    def store(self, p, q, v):
        q = self.canon(q)
        if not isinstance(p, Ptr):
            self.fault('null-pointer', 'write through a null pointer')
        b = p.block
        if not b.alive:
            self.fault('use-after-free', 'writes %s after it was freed' % b.name)
        n = self.sizeof(q) or 0
        if p.off < 0 or (b.size is not None and p.off + n > b.size):
            self.fault('out-of-bounds', 'writes %s at byte %s of %s' % (b.name, p.off, b.size))
        if b.kind == 'string':
            self.fault('read-only', 'writes into %s' % b.name)
        b.data[p.off] = self.wrap(v, q)

    def cstring(self, p):
        """bytes up to the zero byte"""
        out = []
        while True:
            c = self.load(Ptr(p.block, p.off + len(out)), 'char') if isinstance(p, Ptr) else self.fault('null-pointer', 'a string is read through a null pointer')
            if c == 0:
                return out
            out.append(c)

    def text(self, s, name='text', kind='string'):
        data = {i: c for i, c in enumerate(s)}
        data[len(s)] = 0
        return Ptr(Block(name, len(s) + 1, kind, data))

    def glob(self, name):
        if name not in self.globals:
            d = self.vars.get(name)
            if d is None:
                raise Unsupported('variable ' + name)
            q = self.typ(d)
            b = Block(name, None if q.endswith('[]') else self.sizeof(q))
            self.globals[name] = b
            init = [x for x in kids(d)]
            if d.get('init') and init:
                self.initialise(b, 0, q, init[-1], {})
            elif d.get('storageClass') != 'extern':
                self.zero(b, q)
        return self.globals[name]

    def zero(self, b, q):
        n = self.sizeof(q)
        if not q.endswith(']') and self.record(q) is None:
            b.data[0] = 0
        elif n is not None:
            b.kind = b.kind

    def initialise(self, b, off, q, n, env):
        q = self.canon(q)
        if n['kind'] == 'InitListExpr':
            if q.endswith(']'):
                e = self.pointee(q)
                size = self.sizeof(e)
                items = n.get('inner') or [x for x in n.get('array_filler', ()) if x.get('kind') != 'ImplicitValueInitExpr']
                for i, x in enumerate([x for x in items if x.get('kind')]):
                    self.initialise(b, off + i * size, e, x, env)
                b.size = b.size or (off + len(items) * size)
            else:
                r = self.record(q)
                if r is None:
                    raise Unsupported('initialiser of ' + q)
                o = off
                fs = [f for f in kids(r) if f['kind'] == 'FieldDecl']
                for f, x in zip(fs, [x for x in n.get('inner', ()) if x.get('kind')]):
                    ft = f['type'].get('desugaredQualType', f['type']['qualType'])
                    self.initialise(b, o, ft, x, env)
                    o += max(8, self.sizeof(ft))
            return
        if n['kind'] == 'ImplicitValueInitExpr':
            if not q.endswith(']') and self.record(q) is None:
                b.data[off] = 0
            return
        if n['kind'] == 'StringLiteral' and q.endswith(']'):
            s = decode_string(n['value'])
            for i, c in enumerate(s + [0]):
                b.data[off + i] = c
            return
        b.data[off] = self.wrap(self.expr(n, env), q)

    # ---- calls
    def call(self, name, args):
        if name in self.natives:
            return self.natives[name](self, *args)
        f = self.funcs.get(name)
        if f is None:
            raise Unsupported('call of %s' % name)
        env = {}
        ps = [x for x in kids(f) if x['kind'] == 'ParmVarDecl']
        for p, a in zip(ps, args):
            if p.get('name'):
                b = Block(p['name'], 8, 'local')
                b.data[0] = a
                env[p['id']] = b
        body = [x for x in kids(f) if x['kind'] == 'CompoundStmt'][0]
        try:
            self.stmt(body, env)
        except _Ret as r:
            return r.v
        return None

    # ---- statements
    def stmt(self, n, env):
        self.steps -= 1
        if self.steps < 0:
            raise Cut('steps')
        loc = n.get('range', {}).get('begin', {})
        line = loc.get('line') or loc.get('expansionLoc', {}).get('line')
        if line:
            self.where = line
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        if m:
            return m(n, env)
        if k.endswith('Expr') or k.endswith('Operator') or k.endswith('Literal'):
            self.expr(n, env, True)
            return
        raise Unsupported('statement ' + k)

    def s_CompoundStmt(self, n, env, start=0):
        items = kids(n)
        i = start
        while i < len(items):
            try:
                self.stmt(items[i], env)
                i += 1
            except _Goto as g:
                for j, x in enumerate(items):
                    if has_label(x, g.label):
                        i = j
                        break
                else:
                    raise

    def s_LabelStmt(self, n, env):
        self.stmt(kids(n)[0], env)

    def s_GotoStmt(self, n, env):
        raise _Goto(n['targetLabelDeclId'])

    def s_NullStmt(self, n, env):
        pass

    def s_DeclStmt(self, n, env):
        for d in kids(n):
            if d['kind'] != 'VarDecl':
                continue
            q = self.typ(d)
            if d.get('storageClass') == 'static':
                if d['id'] not in self.globals:
                    b = Block(d['name'], self.sizeof(q))
                    self.globals[d['id']] = b
                    init = kids(d)
                    if d.get('init') and init:
                        self.initialise(b, 0, q, init[-1], env)
                    else:
                        self.zero(b, q)
                env[d['id']] = self.globals[d['id']]
                continue
            b = Block(d['name'], self.sizeof(q), 'local')
            env[d['id']] = b
            init = kids(d)
            if d.get('init') and init:
                self.initialise(b, 0, q, init[-1], env)

    def s_IfStmt(self, n, env):
        ks = kids(n)
        if self.truth(self.expr(ks[0], env)):
            self.stmt(ks[1], env)
        elif len(ks) > 2:
            self.stmt(ks[2], env)

    def s_WhileStmt(self, n, env):
        c, b = kids(n)[:2]
        while self.truth(self.expr(c, env)):
            try:
                self.stmt(b, env)
            except _Brk:
                break
            except _Cont:
                pass
            self.tick()

    def s_DoStmt(self, n, env):
        b, c = kids(n)[:2]
        while True:
            try:
                self.stmt(b, env)
            except _Brk:
                break
            except _Cont:
                pass
            if not self.truth(self.expr(c, env)):
                break
            self.tick()

    def tick(self):
        self.steps -= 1
        if self.steps < 0:
            raise Cut('steps')

    def s_ForStmt(self, n, env):
        parts = [x if x.get('kind') else None for x in n['inner']]
        init, _, cond, inc, body = parts
        if init:
            self.stmt(init, env)
        while cond is None or self.truth(self.expr(cond, env)):
            try:
                self.stmt(body, env)
            except _Brk:
                break
            except _Cont:
                pass
            if inc:
                self.expr(inc, env, True)
            self.tick()

    def s_ReturnStmt(self, n, env):
        ks = kids(n)
        raise _Ret(self.expr(ks[0], env) if ks else None)

    def s_BreakStmt(self, n, env):
        raise _Brk()

    def s_ContinueStmt(self, n, env):
        raise _Cont()

    def s_CaseStmt(self, n, env):
        self.stmt(kids(n)[-1], env)

    s_DefaultStmt = s_CaseStmt

    def s_SwitchStmt(self, n, env):
        c, body = kids(n)[:2]
        v = self.expr(c, env)
        try:
            self.switch(body, v, env)
        except _Brk:
            pass

    def switch(self, body, v, env):
        items = kids(body)
        at = None
        for i, x in enumerate(items):
            y = x
            while y['kind'] in ('CaseStmt', 'DefaultStmt'):
                if y['kind'] == 'CaseStmt' and self.expr(kids(y)[0], env) == v:
                    at = i
                    break
                y = kids(y)[-1]
            if at is not None:
                break
        if at is None:
            for i, x in enumerate(items):
                y = x
                while y['kind'] in ('CaseStmt', 'DefaultStmt'):
                    if y['kind'] == 'DefaultStmt':
                        at = i
                    y = kids(y)[-1]
        if at is not None:
            self.s_CompoundStmt(body, env, at)

    # ---- expressions
    def truth(self, v):
        if isinstance(v, (Ptr, FuncRef)):
            return True
        if isinstance(v, int):
            return v != 0
        if hasattr(v, 'c_truth'):
            return v.c_truth(self)
        raise Unsupported('truth of %r' % (v,))

    def lval(self, n, env):
        """(pointer, type)"""
        k = n['kind']
        if k == 'ParenExpr':
            return self.lval(kids(n)[0], env)
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            if d['id'] in env:
                return Ptr(env[d['id']]), self.typ(n)
            if d['kind'] in ('VarDecl', 'ParmVarDecl'):
                if d['id'] in self.globals:
                    return Ptr(self.globals[d['id']]), self.typ(n)
                return Ptr(self.glob(d['name'])), self.typ(n)
            raise Unsupported('reference to ' + d['kind'])
        if k == 'ArraySubscriptExpr':
            a, i = kids(n)
            p, q = self.expr(a, env), self.typ(a)
            j = self.expr(i, env)
            if isinstance(j, Ptr):
                p, j, q = j, p, self.typ(i)
            return self.offset(p, j, q), self.typ(n)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            return self.expr(kids(n)[0], env), self.typ(n)
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--') and not n.get('isPostfix'):
            self.expr(n, env)
            return self.lval(kids(n)[0], env)
        if k == 'MemberExpr':
            b = kids(n)[0]
            if n.get('isArrow'):
                p, q = self.expr(b, env), self.pointee(self.typ(b))
            else:
                p, q = self.lval(b, env)
            if not isinstance(p, Ptr):
                self.fault('null-pointer', 'member %s of a null pointer' % n['name'])
            return Ptr(p.block, p.off + self.field(q, n['name'])), self.typ(n)
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n['opcode'].endswith('='):
            self.expr(n, env)
            return self.lval(kids(n)[0], env)
        if k == 'StringLiteral':
            return self.text(decode_string(n['value']), 'string literal'), self.typ(n)
        if k == 'ImplicitCastExpr' or k == 'CStyleCastExpr':
            return self.lval(kids(n)[0], env)
        raise Unsupported('lvalue ' + k)

    def offset(self, p, j, q):
        if not isinstance(p, Ptr):
            self.fault('null-pointer', 'element %s of a null pointer' % (j,))
        if not isinstance(j, int):
            raise Unsupported('index %r' % (j,))
        return Ptr(p.block, p.off + j * (self.sizeof(self.pointee(q)) or 1))

    def expr(self, n, env, drop=False):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k)
        return m(n, env)

    def e_ParenExpr(self, n, env):
        return self.expr(kids(n)[0], env)

    e_ConstantExpr = e_ParenExpr

    def e_IntegerLiteral(self, n, env):
        return int(n['value'])

    def e_CharacterLiteral(self, n, env):
        return n['value']

    def e_StringLiteral(self, n, env):
        return self.text(decode_string(n['value']), 'string literal')

    def e_DeclRefExpr(self, n, env):
        d = n['referencedDecl']
        if d['kind'] == 'FunctionDecl':
            return FuncRef(d['name'])
        if d['kind'] == 'EnumConstantDecl':
            if n['referencedDecl']['name'] in self.enums:
                return self.enums[n['referencedDecl']['name']]
            raise Unsupported('enum')
        return self.lval(n, env)

    def e_ImplicitCastExpr(self, n, env):
        c = n['castKind']
        x = kids(n)[0]
        if c == 'LValueToRValue':
            p, q = self.lval(x, env)
            return self.load(p, q)
        if c == 'ArrayToPointerDecay':
            p, q = self.lval(x, env)
            return p
        if c == 'FunctionToPointerDecay':
            return self.expr(x, env)
        if c == 'NullToPointer':
            return 0
        v = self.expr(x, env)
        if c in ('IntegralCast', 'PointerToIntegral', 'IntegralToPointer', 'IntegralToBoolean', 'BooleanToSignedIntegral'):
            return self.wrap(v, self.typ(n))
        if c == 'PointerToBoolean':
            return int(self.truth(v))
        if c in ('NoOp', 'BitCast', 'ToVoid', 'BuiltinFnToFnPtr'):
            return v
        raise Unsupported('cast ' + c)

    e_CStyleCastExpr = e_ImplicitCastExpr

    def e_ArraySubscriptExpr(self, n, env):
        return self.load(*self.lval(n, env))

    e_MemberExpr = e_ArraySubscriptExpr

    def e_UnaryExprOrTypeTraitExpr(self, n, env):
        if n.get('name') != 'sizeof':
            raise Unsupported(n.get('name'))
        if 'argType' in n:
            t = n['argType']
            return self.sizeof(t.get('desugaredQualType', t['qualType']))
        return self.sizeof(self.typ(kids(n)[0]))

    def e_ConditionalOperator(self, n, env):
        a, b, c = kids(n)
        return self.expr(b if self.truth(self.expr(a, env)) else c, env)

    def e_UnaryOperator(self, n, env):
        op = n['opcode']
        x = kids(n)[0]
        if op == '&':
            if x['kind'] == 'DeclRefExpr' and x['referencedDecl']['kind'] == 'FunctionDecl':
                return FuncRef(x['referencedDecl']['name'])
            return self.lval(x, env)[0]
        if op == '*':
            return self.load(self.expr(x, env), self.typ(n))
        if op in ('++', '--'):
            p, q = self.lval(x, env)
            old = self.load(p, q)
            d = 1 if op == '++' else -1
            new = self.offset(old, d, q) if q.endswith('*') else self.wrap(old + d, q)
            self.store(p, q, new)
            return old if n.get('isPostfix') else new
        v = self.expr(x, env)
        if op == '!':
            return int(not self.truth(v))
        if op == '-':
            return self.wrap(-v, self.typ(n))
        if op == '~':
            return self.wrap(~v, self.typ(n))
        if op in ('+', '__extension__'):
            return v
        raise Unsupported('operator ' + op)

    def e_BinaryOperator(self, n, env):
        op = n['opcode']
        a, b = kids(n)
        if op == '=':
            v = self.expr(b, env)
            p, q = self.lval(a, env)
            if self.record(q) is not None:
                raise Unsupported('assignment of a struct')
            self.store(p, q, v)
            return v
        if op == '&&':
            return int(self.truth(self.expr(a, env)) and self.truth(self.expr(b, env)))
        if op == '||':
            return int(self.truth(self.expr(a, env)) or self.truth(self.expr(b, env)))
        if op == ',':
            self.expr(a, env, True)
            return self.expr(b, env)
        x, y = self.expr(a, env), self.expr(b, env)
        return self.binop(op, x, y, self.typ(n), self.typ(a), self.typ(b))

    def binop(self, op, x, y, q, qa, qb):
        if op in ('==', '!='):
            if isinstance(x, (Ptr, FuncRef)) or isinstance(y, (Ptr, FuncRef)):
                r = x == y
            else:
                r = x == y
            return int(r == (op == '=='))
        if op in ('<', '>', '<=', '>='):
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.block is not y.block:
                    raise Unsupported('comparison of pointers into different objects')
                x, y = x.off, y.off
            if not isinstance(x, int) or not isinstance(y, int):
                raise Unsupported('comparison of %r and %r' % (x, y))
            return int({'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op])
        if op == '+':
            if isinstance(x, Ptr):
                return self.offset(x, y, qa)
            if isinstance(y, Ptr):
                return self.offset(y, x, qb)
        if op == '-' and isinstance(x, Ptr):
            if isinstance(y, Ptr):
                if x.block is not y.block:
                    self.fault('pointer-difference', 'difference of pointers into different objects')
                return (x.off - y.off) // (self.sizeof(self.pointee(qa)) or 1)
            return self.offset(x, -y, qa)
        if not isinstance(x, int) or not isinstance(y, int):
            if x == 0 and qa.endswith('*'):
                self.fault('null-pointer', 'arithmetic on a null pointer')
            raise Unsupported('%r %s %r' % (x, op, y))
        if op in ('/', '%') and y == 0:
            self.fault('division-by-zero', 'division by zero')
        v = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: int(x / y) if abs(x) < 2**50 else x // y,
             '%': lambda: x - y * int(x / y), '<<': lambda: x << y, '>>': lambda: x >> y, '&': lambda: x & y,
             '|': lambda: x | y, '^': lambda: x ^ y}[op]()
        return self.wrap(v, q)

    def e_CompoundAssignOperator(self, n, env):
        a, b = kids(n)
        op = n['opcode'][:-1]
        y = self.expr(b, env)
        p, q = self.lval(a, env)
        x = self.load(p, q)
        v = self.binop(op, x, y, self.canon(n['computeResultType']['qualType']) if 'computeResultType' in n else q, q, self.typ(b))
        v = self.wrap(v, q)
        self.store(p, q, v)
        return v

    def e_CallExpr(self, n, env):
        ks = kids(n)
        f = self.expr(ks[0], env)
        if not isinstance(f, FuncRef):
            raise Unsupported('indirect call')
        return self.call(f.name, [self.expr(x, env) for x in ks[1:]])


def has_label(n, label):
    if n['kind'] == 'LabelStmt':
        return n.get('declId') == label or (kids(n) and has_label(kids(n)[0], label))
    return False


def decode_string(v):
    import ast
    return list(ast.literal_eval('b' + v) if all(ord(c) < 128 for c in v) else v[1:-1].encode())


def find(n, pred):
    """every node below that satisfies pred"""
    out = []
    todo = [n]
    while todo:
        x = todo.pop()
        if pred(x):
            out.append(x)
        todo += reversed(kids(x))
    return out

"""The C part of the compiled tokeniser (py_star_scan.c) interpreted over modelled calls of Python's C API: reference
counts, exceptions, memory and the list of tokens, for histories of calls."""
from sa import cmini, mini
from sa.cmini import C, Block, Ptr, Fault, UNSET
from sa.mini import Unsupported, Cut
from sa.program import AnalysisBroken

PY, LEXC, HDR = 'src/lib/py_star_scan.c', 'src/lib/lex.yy.c', 'src/lib/star_scanner.h'


def chars(data):
    return (b'?' if data is None else data).decode('utf-8', 'surrogateescape')


class Obj:
    """a Python object seen from C"""

    def __init__(self, kind, data=None, immortal=False):
        self.kind, self.data, self.rc, self.immortal = kind, data, 1, immortal

    def c_truth(self, c):
        return True

    def __repr__(self):
        return '<%s %r>' % (self.kind, self.data)


class Api:
    """one history: the interpreter, the models and what they have seen"""

    def __init__(self, trees, dec, feed):
        self.c = C(trees, dec, steps=6000000)
        self.feed, self.fed = feed, 0
        self.exc = None
        self.none = Obj('None', immortal=True)
        self.objects, self.heap = [], []
        self.cleared = 0
        self.args = None
        self.may_fail, self.failed = False, False
        self.read_at = None
        nat = self.c.natives
        for n in dir(self):
            if n.startswith('n_'):
                nat[n[2:]] = self.model(getattr(self, n))
        for n in self.c.vars:
            if n.startswith('PyExc_'):
                self.c.globals[n] = Block(n, 8, data={0: Obj('class', n[6:], True)})
        for n, v in (('Py_None', self.none), ('Py_True', Obj('bool', True, True)), ('Py_False', Obj('bool', False, True))):
            self.c.globals[n] = Block(n, 8, data={0: v})
        for n in ('stdout', 'stderr', 'stdin'):
            self.c.globals[n] = Block(n, 8, data={0: Ptr(Block(n, None, 'opaque'))})

    def model(self, f):
        return lambda c, *a: f(*a)

    def new(self, kind, data):
        o = Obj(kind, data)
        self.objects.append(o)
        return o

    def check(self, o, what='uses'):
        if not isinstance(o, Obj):
            self.c.fault('null-object', '%s NULL where an object is needed' % what)
        if o.rc <= 0 and not o.immortal:
            self.c.fault('reference-count', '%s %r after its last reference was dropped' % (what, o))

    def text_of(self, p):
        return bytes(x % 256 for x in self.c.cstring(p))

    # ---- references
    def n_Py_INCREF(self, o):
        self.check(o)
        o.rc += 1

    def n_Py_XINCREF(self, o):
        if isinstance(o, Obj):
            self.n_Py_INCREF(o)

    def n_Py_DECREF(self, o):
        self.check(o, 'drops a reference to')
        if o.immortal:
            return
        o.rc -= 1
        if o.rc == 0 and o.kind in ('tuple', 'list'):
            for x in o.data:
                if isinstance(x, Obj):
                    self.n_Py_DECREF(x)

    def n_Py_XDECREF(self, o):
        if isinstance(o, Obj):
            self.n_Py_DECREF(o)
        elif o == UNSET:
            self.c.fault('unset-memory', 'drops a reference stored nowhere')

    def n_Py_NewRef(self, o):
        self.n_Py_INCREF(o)
        return o

    def n_Py_XNewRef(self, o):
        if isinstance(o, Obj):
            self.n_Py_INCREF(o)
        return o

    def n_Py_CLEAR_stub(self, p):
        o = self.c.load(p, 'PyObject *')
        self.c.store(p, 'PyObject *', 0)
        self.n_Py_XDECREF(o)

    # ---- exceptions
    def n_PyErr_SetString(self, cls, text):
        self.exc = cls.data if isinstance(cls, Obj) else '?'

    def n_PyErr_Format(self, cls, *a):
        self.exc = cls.data
        return 0

    def n_PyErr_SetNone(self, cls):
        self.exc = cls.data

    def n_PyErr_NoMemory(self):
        self.exc = 'MemoryError'
        return 0

    def n_PyErr_Occurred(self):
        return Obj('class', self.exc, True) if self.exc else 0

    def n_PyErr_Clear(self):
        self.exc = None

    def fails(self, exc):
        """the call may fail, once in a history"""
        if self.may_fail and not self.failed and self.c.dec.choose(2):
            self.failed = True
            self.exc = exc
            return True
        return False

    # ---- objects
    def n_PyArg_ParseTuple(self, args, fmt, *out):
        f = self.text_of(fmt).decode().split(':')[0].split(';')[0]
        vals = args.data
        if len(f) != len(vals):
            self.exc = 'TypeError'
            return 0
        for ch, v, p in zip(f, vals, out):
            if ch in 'UOS' and isinstance(v, Obj):
                self.c.store(p, 'PyObject *', v)
            elif ch in 'inlkI' and isinstance(v, int):
                self.c.store(p, {'i': 'int', 'n': 'long', 'l': 'long', 'k': 'unsigned long', 'I': 'unsigned int'}[ch], v)
            elif ch == 's' and isinstance(v, Obj):
                self.c.store(p, 'char *', v.utf8)
            else:
                self.exc = 'TypeError'
                return 0
        return 1

    def n_Py_BuildValue(self, fmt, *vals):
        f = self.text_of(fmt).decode()
        wrap = f.startswith('(')
        items = []
        it = list(vals)
        bad = False
        made = []
        for ch in f.replace('(', '').replace(')', '').replace(',', '').replace(' ', ''):
            v = it.pop(0)
            if ch in 'iIlknbhH':
                if not isinstance(v, int):
                    raise Unsupported('Py_BuildValue %s of %r' % (ch, v))
                items.append(v)
            elif ch in 'sz':
                items.append(self.text_of(v).decode('utf-8', 'replace'))
            elif ch in 'ON':
                if not isinstance(v, Obj):
                    bad = True
                    continue
                self.check(v)
                if ch == 'O' and not v.immortal:
                    v.rc += 1
                made.append(v)
                items.append(v)
            else:
                raise Unsupported('Py_BuildValue ' + ch)
        if bad:
            for v in made:
                self.n_Py_DECREF(v)
            if not self.exc:
                self.exc = 'SystemError'
            return 0
        if not items and not wrap:
            return self.none
        if len(items) == 1 and not wrap:
            return items[0] if isinstance(items[0], Obj) else self.new('value', items[0])
        return self.new('tuple', items)

    def unicode(self, raw):
        if self.fails('UnicodeDecodeError'):
            return 0
        return self.new('str', raw)

    def n_PyUnicode_FromString(self, p):
        return self.unicode(self.text_of(p))

    def n_PyUnicode_FromStringAndSize(self, p, n):
        return self.unicode(bytes(self.c.load(Ptr(p.block, p.off + i), 'char') % 256 for i in range(n)))

    def n_PyUnicode_DecodeUTF8(self, p, n, errors):
        return self.n_PyUnicode_FromStringAndSize(p, n)

    def n_PyUnicode_AsUTF8(self, o):
        self.check(o)
        if o.kind != 'str' or o.utf8 is None:
            self.exc = 'UnicodeEncodeError'
            return 0
        return o.utf8

    def n_PyUnicode_AsUTF8AndSize(self, o, p):
        r = self.n_PyUnicode_AsUTF8(o)
        if isinstance(r, Ptr) and isinstance(p, Ptr):
            self.c.store(p, 'long', len(o.data))
        return r

    def n_PyUnicode_GetLength(self, o):
        self.check(o)
        return len(chars(o.data))

    n_PyUnicode_GET_LENGTH = n_PyUnicode_GetLength

    def n_PyUnicode_FindChar(self, o, ch, start, end, direction):
        self.check(o)
        t = chars(o.data)
        end = min(end, len(t))
        return t.find(chr(ch), start, end) if direction > 0 else t.rfind(chr(ch), start, end)

    def n_PyUnicode_Check(self, o):
        return int(o.kind == 'str')

    def n_PyList_New(self, n):
        if not isinstance(n, int) or n < 0 or n > 10 ** 6:
            self.exc = 'SystemError'
            return 0
        return self.new('list', [None] * n)

    def n_PyTuple_New(self, n):
        return self.new('tuple', [None] * n)

    def n_PyList_SET_ITEM(self, o, i, v):
        self.check(o)
        if not 0 <= i < len(o.data):
            self.c.fault('out-of-bounds', 'element %d of a list of %d' % (i, len(o.data)))
        o.data[i] = v                                    # steals the reference

    n_PyTuple_SET_ITEM = n_PyList_SET_ITEM

    def n_PyList_SetItem(self, o, i, v):
        self.check(o)
        if not 0 <= i < len(o.data):
            self.n_Py_XDECREF(v)
            self.exc = 'IndexError'
            return -1
        self.n_Py_XDECREF(o.data[i])
        o.data[i] = v
        return 0

    n_PyTuple_SetItem = n_PyList_SetItem

    def n_PyList_Append(self, o, v):
        self.check(o)
        self.n_Py_INCREF(v)
        o.data.append(v)
        return 0

    def n_PyTuple_Pack(self, n, *v):
        for x in v:
            self.n_Py_INCREF(x)
        return self.new('tuple', list(v))

    def n_PyLong_FromLong(self, v):
        return self.new('int', v)

    n_PyLong_FromSize_t = n_PyLong_FromSsize_t = n_PyLong_FromLong

    def n_PyModule_Create(self, d):
        return self.new('module', None)

    # ---- memory
    def n_malloc(self, n):
        b = Block('a block of %s bytes' % n, n, 'heap')
        self.heap.append(b)
        return Ptr(b)

    n_PyMem_Malloc = n_malloc

    def n_calloc(self, n, m):
        p = self.n_malloc(n * m)
        p.block.zeroed = True
        return p

    n_PyMem_Calloc = n_calloc

    def n_memset(self, d, v, n):
        if v or d.off or n != d.block.size:
            raise Unsupported('memset of a part')
        d.block.zeroed = True
        d.block.data.clear()
        return d

    def n_free(self, p):
        if p == 0:
            return
        if not isinstance(p, Ptr) or p.block.kind != 'heap' or p.off:
            self.c.fault('free', 'frees something that was not allocated')
        if not p.block.alive:
            self.c.fault('double-free', 'frees memory twice')
        p.block.alive = False

    n_PyMem_Free = n_free

    def n_realloc(self, p, n):
        q = self.n_malloc(n)
        if isinstance(p, Ptr):
            if not p.block.alive:
                self.c.fault('use-after-free', 'reallocates freed memory')
            q.block.zeroed = False
            if p.block.zeroed:
                raise Unsupported('realloc of calloc')
            q.block.data = {k: v for k, v in p.block.data.items() if k < n}
            p.block.alive = False
        return q

    n_PyMem_Realloc = n_realloc
    n_PyMem_RawMalloc, n_PyMem_RawRealloc, n_PyMem_RawFree, n_PyMem_RawCalloc = n_malloc, n_realloc, n_free, n_calloc
    n_PyObject_Malloc, n_PyObject_Realloc, n_PyObject_Free = n_malloc, n_realloc, n_free

    def n_PyList_Size(self, o):
        self.check(o)
        return len(o.data)

    n_PyList_GET_SIZE = n_PyTuple_Size = n_PyTuple_GET_SIZE = n_PyList_Size

    def n_PyList_GetItem(self, o, i):
        self.check(o)
        if not 0 <= i < len(o.data):
            self.exc = 'IndexError'
            return 0
        return o.data[i]

    n_PyTuple_GetItem = n_PyList_GetItem

    def n_PyList_GET_ITEM(self, o, i):
        self.check(o)
        if not 0 <= i < len(o.data):
            self.c.fault('out-of-bounds', 'element %d of %d' % (i, len(o.data)))
        return o.data[i]

    n_PyTuple_GET_ITEM = n_PyList_GET_ITEM

    def n_PyLong_AsLong(self, o):
        if isinstance(o, int):
            return o
        if isinstance(o, Obj) and isinstance(o.data, int):
            return o.data
        self.exc = 'TypeError'
        return -1

    n_PyLong_AsSsize_t = n_PyLong_AsSize_t = n_PyLong_AsLong

    def n_strcmp(self, a, b):
        x, y = self.text_of(a), self.text_of(b)
        return (x > y) - (x < y)

    def n_strncmp(self, a, b, n):
        x, y = self.text_of(a)[:n], self.text_of(b)[:n]
        return (x > y) - (x < y)

    def n_strlen(self, p):
        return len(self.c.cstring(p))

    def copy(self, d, s, n):
        for i in range(n):
            self.c.store(Ptr(d.block, d.off + i), 'char', self.c.load(Ptr(s.block, s.off + i), 'char'))

    def n_strncpy(self, d, s, n):
        done = False
        for i in range(n):
            ch = 0 if done else self.c.load(Ptr(s.block, s.off + i), 'char')
            done = done or ch == 0
            self.c.store(Ptr(d.block, d.off + i), 'char', ch)
        return d

    def n_strcpy(self, d, s):
        self.copy(d, s, len(self.c.cstring(s)) + 1)
        return d

    def n_memcpy(self, d, s, n):
        self.copy(d, s, n)
        return d

    n_memmove = n_memcpy

    def n_strdup(self, s):
        t = self.c.cstring(s)
        p = self.n_malloc(len(t) + 1)
        self.copy(p, s, len(t) + 1)
        return p

    def n_printf(self, *a):
        return 0

    n_fprintf = n_puts = n_printf

    # ---- the scanner
    def n_star_clear(self):
        self.cleared += 1

    def n_star_scanner(self):
        i, text, line = self.feed(self.fed)
        self.fed += 1
        p = self.c.text(text, 'yytext', 'scanner')
        for name, v in (('yytext', p), ('yyleng', len(text)), ('yylineno', line)):
            b = Block(name, 8)
            b.data[0] = v
            self.c.globals[name] = b
        n = self.c.load(Ptr(self.c.glob('in_string_len')), 'unsigned long')
        self.c.store(Ptr(self.c.glob('string_pos')), 'unsigned long', n)      # flex reads in large blocks
        return i

    # ---- entry points
    def method(self, fn, *args):
        """(result object or None, exception)"""
        self.exc = None
        a = self.new('tuple', list(args))
        r = self.c.call(fn, [Obj('module', None, True), a])
        return r


def program_path(path):
    import os
    from sa import program
    return os.path.join(program.REPO, path)


def string(c, text):
    o = Obj('str', text)
    o.utf8 = c.text(text, 'the input') if text is not None else None
    return o


def methods(trees):
    """{name: C function} of the method table"""
    c = C(trees, mini.Decisions(), {})
    tabs = [v for v in c.vars.values() if 'PyMethodDef' in v['type']['qualType']]
    out = {}
    for v in tabs:
        for row in cmini.find(v, lambda n: n['kind'] == 'InitListExpr' and n['type']['qualType'].endswith('PyMethodDef')):
            names = cmini.find(row, lambda n: n['kind'] == 'StringLiteral')
            fns = cmini.find(row, lambda n: n['kind'] == 'DeclRefExpr' and n['referencedDecl']['kind'] == 'FunctionDecl')
            if names and fns:
                out[bytes(cmini.decode_string(names[0]['value'])).decode()] = fns[0]['referencedDecl']['name']
    return out

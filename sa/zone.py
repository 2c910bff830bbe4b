"""Integers known only through differences (zones) and pieces of a text known only by where they start and end."""
from .mini import Abs, Cut, Unsupported, Native, Text, Raise, Inst


class Zone:
    """difference constraints x - y <= c over integer symbols; symbol 0 is the number zero"""

    def __init__(self):
        self.le = {}
        self.loose = {}
        self.n = 0

    def new(self):
        self.n += 1
        return self.n

    def add(self, x, y, c):
        """assume x - y <= c; False if that is impossible"""
        if self.implied(y, x, -c - 1):
            return False
        if self.le.get((x, y), c + 1) > c:
            self.le[(x, y)] = c
        return True

    def bound(self, x, y):
        """least c with x - y <= c known, or None"""
        if x == y:
            return 0
        dist = {x: 0}
        for _ in range(self.n + 2):
            changed = False
            for (a, b), c in self.le.items():
                if a in dist and (b not in dist or dist[a] + c < dist[b]):
                    dist[b] = dist[a] + c
                    changed = True
            if not changed:
                break
        return dist.get(y)

    def implied(self, x, y, c):
        b = self.bound(x, y)
        return b is not None and b <= c


class Lin(Abs):
    kind = 'int'

    def __init__(self, zone, terms, const=0):
        self.zone = zone
        self.terms = {k: v for k, v in terms.items() if v and k}
        self.const = const

    @staticmethod
    def sym(zone, s):
        return Lin(zone, {s: 1})

    def lift(self, o):
        if isinstance(o, Lin):
            return o
        if isinstance(o, bool) or not isinstance(o, int):
            raise Unsupported('arithmetic with %r' % (o,))
        return Lin(self.zone, {}, o)

    def plus(self, o, k=1):
        t = dict(self.terms)
        for s, c in o.terms.items():
            t[s] = t.get(s, 0) + k * c
        r = Lin(self.zone, t, self.const + k * o.const)
        return r.const if not r.terms else r

    def binop(self, it, op, other, reflected):
        if op == 'Mult' and isinstance(other, str):
            return Text((other, 'times', self))
        o = self.lift(other)
        a, b = (o, self) if reflected else (self, o)
        if op == 'Add':
            return a.plus(b)
        if op == 'Sub':
            return a.plus(b, -1)
        raise Unsupported('%s of lengths' % op)

    def unop(self, it, op):
        if op == 'USub':
            return Lin(self.zone, {}, 0).plus(self, -1)
        return super().unop(it, op)

    def diff(self):
        """(x, y, c) with self = x - y + c"""
        pos = [s for s, c in self.terms.items() if c == 1]
        neg = [s for s, c in self.terms.items() if c == -1]
        if len(pos) + len(neg) != len(self.terms) or len(pos) > 1 or len(neg) > 1:
            return None
        return (pos[0] if pos else 0), (neg[0] if neg else 0), self.const

    def sign_le(self, it, c):
        """is self <= c ?  decided, or asked"""
        d = self.diff()
        if d is None:
            # not a difference: nothing is known, but the answer stays the same
            k = (repr(self), c)
            if k not in self.zone.loose:
                self.zone.loose[k] = it.choose_bool()
            return self.zone.loose[k]
        x, y, k = d
        z = self.zone
        if z.implied(x, y, c - k):
            return True
        if z.implied(y, x, -(c - k) - 1):
            return False
        if it.choose_bool():
            if not z.add(x, y, c - k):
                raise Cut('impossible')
            return True
        if not z.add(y, x, -(c - k) - 1):
            raise Cut('impossible')
        return False

    def compare(self, it, op, other, reflected):
        if op in ('Is', 'IsNot'):
            return (self is other) == (op == 'Is')
        if other is None or isinstance(other, (str, tuple, list, dict)):
            if op in ('Eq', 'NotEq'):
                return op == 'NotEq'
            raise Raise(Inst(TypeError, {'args': ()}))
        o = self.lift(other)
        d = (o.plus(self, -1) if reflected else self.plus(o, -1))
        if isinstance(d, int):
            return {'Eq': d == 0, 'NotEq': d != 0, 'Lt': d < 0, 'LtE': d <= 0, 'Gt': d > 0, 'GtE': d >= 0}[op]
        if op == 'LtE':
            return d.sign_le(it, 0)
        if op == 'Lt':
            return d.sign_le(it, -1)
        if op == 'Gt':
            return not d.sign_le(it, 0)
        if op == 'GtE':
            return not d.sign_le(it, -1)
        eq = d.sign_le(it, 0) and not d.sign_le(it, -1)
        return eq if op == 'Eq' else not eq

    def truth(self, it):
        return self.compare(it, 'NotEq', 0, False)

    def isinstance(self, it, c):
        return int in (c if isinstance(c, tuple) else (c,))

    def index_into(self, it, o, k):
        """lookup of a list by a position that is only known by its differences"""
        if isinstance(k, Lin) and isinstance(o, (list, tuple)):
            n = len(o)
            for i in range(-n, n):
                if k.compare(it, 'Eq', i, False):
                    return o[i]
            raise Raise(Inst(IndexError, {'args': ()}))
        raise Unsupported('index')

    def __repr__(self):
        return 'Lin(%s%+d)' % (' '.join('%+d*e%d' % (c, s) for s, c in sorted(self.terms.items())), self.const)


class Whole(Abs):
    """the input text"""
    kind = 'input'

    def __init__(self, zone):
        self.zone = zone
        self.size = zone.new()
        self.measures = {}
        zone.add(0, self.size, 0)
        self.end = Lin.sym(zone, self.size)

    def length(self, it):
        return self.end

    def truth(self, it):
        return self.end.truth(it)

    def getitem(self, it, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported('strided slice of the input')
            a = 0 if k.start is None else k.start
            b = self.end if k.stop is None else k.stop
            # Python's clipping
            if it.compare('Gt', b, self.end):
                b = self.end
            if it.compare('Lt', a, 0) or it.compare('Lt', b, 0):
                raise Unsupported('negative slice bound')
            if it.compare('Gt', a, b):
                a = b
            return Slice(self, a, b)
        raise Unsupported('a character of the input')

    def isinstance(self, it, c):
        return str in (c if isinstance(c, tuple) else (c,))

    def getattr(self, it, name):
        return Slice(self, 0, self.end).getattr(it, name)


class Slice(Abs):
    kind = 'slice'

    def __init__(self, whole, a, b):
        self.whole, self.a, self.b = whole, a, b
        self.facts = {}

    def length(self, it):
        return it.binop('Sub', self.b, self.a)

    def truth(self, it):
        return it.compare('NotEq', self.b, self.a)

    def same(self, it, o):
        return it.compare('Eq', self.a, o.a) and it.compare('Eq', self.b, o.b)

    def compare(self, it, op, other, reflected):
        if op in ('Is', 'IsNot'):
            return (self is other) == (op == 'Is')
        if op in ('Eq', 'NotEq'):
            if isinstance(other, Slice):
                if self.same(it, other):
                    return op == 'Eq'
                for x, y in ((self, other), (other, self)):
                    if not x.truth(it):
                        return (not y.truth(it)) == (op == 'Eq')
                return it.choose_bool() == (op == 'Eq')
            if isinstance(other, str):
                if it.compare('NotEq', self.length(it), len(other)):
                    return op == 'NotEq'
                if other not in self.facts:
                    self.facts[other] = it.choose_bool()
                return self.facts[other] == (op == 'Eq')
            return op == 'NotEq'
        return super().compare(it, op, other, reflected)

    def getitem(self, it, k):
        if isinstance(k, slice) and k.step in (None, 1):
            n = self.length(it)
            a = 0 if k.start is None else k.start
            b = n if k.stop is None else k.stop
            if it.compare('Gt', b, n):
                b = n
            if it.compare('Lt', a, 0) or it.compare('Lt', b, 0):
                raise Unsupported('negative slice bound')
            if it.compare('Gt', a, b):
                a = b
            return Slice(self.whole, it.binop('Add', self.a, a), it.binop('Add', self.a, b))
        raise Unsupported('a character of the text')

    def isinstance(self, it, c):
        return str in (c if isinstance(c, tuple) else (c,))

    def binop(self, it, op, other, reflected):
        if op in ('Add', 'Mod'):
            return Text((other, self) if reflected else (self, other))
        return super().binop(it, op, other, reflected)

    def getattr(self, it, name):
        if name in ('count', 'rfind', 'find'):
            return Native(name, lambda x, *lim: self.measure(it, name, x, lim))
        if name in ('lower', 'upper', 'strip', 'rstrip', 'lstrip', 'replace', 'casefold', 'format', 'encode', 'title'):
            return Native(name, lambda *a, **k: Text((self, name) + a))
        return super().getattr(it, name)

    def measure(self, it, name, x, lim):
        """count/find/rfind: a number with the known bounds, the same for the same piece of text"""
        part = self
        if lim:
            if len(lim) == 1 and it.equal(lim[0], 0):
                pass
            elif name in ('count', 'rfind') and it.equal(lim[0], 0):
                part = self.getitem(it, slice(0, lim[1]))
            elif name == 'count':
                part = self.getitem(it, slice(lim[0], lim[1] if len(lim) > 1 else None))
            else:
                raise Unsupported('str.%s with limits' % name)
        if not isinstance(x, str) or len(x) != 1:
            raise Unsupported('str.%s' % name)
        z = self.whole.zone
        key = (name, x, repr(part.a), repr(part.b))
        if key not in self.whole.measures:
            s = z.new()
            n = it.binop('Sub', part.b, part.a)
            low = 0 if name == 'count' else -1
            ok = z.add(0, s, -low)
            d = Lin(z, {}, n).diff() if isinstance(n, int) else n.diff()
            if d and not d[1]:
                ok = ok and z.add(s, d[0], d[2] - (0 if name == 'count' else 1))
            if not ok:
                raise Cut('no such text')
            self.whole.measures[key] = Lin.sym(z, s)
        return self.whole.measures[key]

    def __repr__(self):
        return 'Slice[%r:%r]' % (self.a, self.b)

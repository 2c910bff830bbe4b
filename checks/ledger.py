"""Shared by C01-C04: interpret the operations of blocks, loops and block collections."""
from sa import absint, books
from sa.absint import TRUE, is_lower

SOURCES = ['StarFile', 'CifFile_module']
CHECKED = {'CreateLoop': {'length_check': TRUE}}
BLOCK_OPS = ['AddItem', '__setitem__', '__delitem__', 'RemoveItem', 'RemoveLoopItem', 'clear', 'update', 'ChangeItemOrder',
             'CreateLoop', 'AddLoopName', 'AddToLoop', 'AddLoopItem', 'RemoveKeyedPacket', 'merge']
LOOP_OPS = ['__setitem__', 'AddPacket', 'RemoveItem', 'RemoveLoopItem', 'ChangeItemOrder', 'AddToLoop']
CIF_OPS = ['__setitem__', '__delitem__', 'AddItem', 'AddCifItem', 'RemoveCifItem', 'CreateLoop', 'AddLoopName',
           'ChangeItemOrder', 'RemoveKeyedPacket']
COLL_OPS = ['__setitem__', '__delitem__', 'NewBlock', 'rename', 'set_parent', 'clear', 'update', 'merge_fast', '__setattr__']


class Compared:
    """names are also compared with the stored lower-case names one by one, or searched by position"""

    def stored_name(self, t):
        while t[0] in ('prev', 'pick') and isinstance(t[1], tuple):
            t = t[1]
        if t[0] == 'el':
            b = t[1]
            while b[0] in ('keys', 'lst', 'rev', 'slice'):
                b = b[1]
            if self.tracked(b) and not self.numbers(b):
                return b
        if hasattr(self, 'parent_of') and self.parent_of(t) is not None:
            return t
        return None

    def numbers(self, b):
        return b == getattr(self, 'T_loops', None)

    def assume(self, it, st, atom, val):
        if atom[0] == 'eq':
            for a, b in ((atom[1], atom[2]), (atom[2], atom[1])):
                c = self.stored_name(a)
                if c is not None:
                    self.check_key(it, st, b, c)
        return super().assume(it, st, atom, val)

    def call(self, it, st, name, recv, args, kw, node):
        if name in ('.index', '.count', '.get', '.has_key') and recv is not None and args and self.tracked(recv) \
                and not self.numbers(recv):
            self.check_key(it, st, args[0], recv)
        return super().call(it, st, name, recv, args, kw, node)


class Colls(Compared, books.CollBooks):
    pass


class Blocks(Compared, books.BlockBooks):
    compat = None

    def check_key(self, it, st, key, cont):
        if it is not None and key[0] == 'p' and any(
                a[0] == 'inst' and a[1] == key and 'str' in a[2] and v is False for a, v in st.facts.items()):
            return      # a position or loop number, not a name
        super().check_key(it, st, key, cont)

    def decide(self, it, st, atom):
        if self.compat is not None and atom == ('truth', ('at', self.base, 'compat_mode')):
            return self.compat
        return super().decide(it, st, atom)


def interpret(prog, kind, cls, name, compat=None):
    f = prog.find_method(cls, name)
    if f is None:
        return None
    if kind == 'block':
        base = ('at', books.SELF, 'parent_block') if cls == 'LoopBlock' else books.SELF
        c = Blocks(base)
        c.compat = compat
    else:
        c = Colls()
    it = absint.Interp(prog, c)
    r, e = it.run(f, cls, args=CHECKED.get(name))
    return c, it, r, e, f


def lowered(k):
    """a key that cannot contain an upper-case letter, or that was not handed in by the caller"""
    if is_lower(k):
        return True
    return not raw_text(k)


def raw_text(k):
    """does the term contain text exactly as the caller gave it?"""
    if not isinstance(k, tuple) or not k:
        return False
    if k[0] == 'lower':
        return False
    if k[0] == 'p':
        return ':' not in k[1]
    if k[0] in ('el', 'prev', 'pick', 'ix', 'strof', 'bop', 'lst', 'rev', 'keys', 'slice'):
        # an element / piece of caller-supplied text or list of names
        return any(raw_text(x) for x in k[1:])
    if k[0] == 'comp':
        return raw_text(k[1])
    if k[0] == 'call' and k[1] in ('.strip', '.rstrip', '.lstrip', 'str', 'unicode', '.replace'):
        return any(raw_text(x) for x in k[2])
    return False

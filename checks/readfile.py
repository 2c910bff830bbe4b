"""ReadStar, interpreted with stand-ins for the parsers, the files and the coding of characters."""
import itertools
import posixpath
import urllib.parse

from sa import mini
from sa.mini import Abs, ClassVal, Inst, Native, Raise, Unsupported
from .reading import FileInterp, tree
from .scanner import exc_name

HEADER = '#\\#CIF_2.0'
CODES = {'latin1': 'latin', 'latin-1': 'latin', 'iso-8859-1': 'latin', 'iso8859-1': 'latin', 'latin_1': 'latin',
         'utf-8-sig': 'sig', 'utf_8_sig': 'sig', 'utf8': 'utf', 'utf-8': 'utf', 'utf_8': 'utf', 'ascii': 'ascii',
         'us-ascii': 'ascii'}


def an(i):
    return ''.join(chr(0xE000 + 16 * i + k) for k in range(4))


class Bytes(Abs):
    """bytes known by what they decode to"""
    kind = 'bytes'

    def __init__(self, text, bom=False, utf=True, plain=True):
        self.text, self.bom, self.utf, self.plain = text, bom, utf, plain

    def truth(self, it):
        return bool(self.text) or self.bom

    def length(self, it):
        return 0 if not self.text else 1 + len(self.text)

    def isinstance(self, it, c):
        return bytes in (c if isinstance(c, tuple) else (c,))

    def decoded(self, code):
        if code == 'latin':
            return ('\u00ef\u00bb\u00bf' if self.bom else '') + (self.text if self.plain else latin(self.text))
        if code == 'ascii' and (self.bom or not self.plain) or not self.utf:
            return None
        return ('\ufeff' if self.bom and code == 'utf' else '') + self.text

    def getattr(self, it, name):
        if name == 'decode':
            def decode(code='utf-8', errors='strict'):
                k = CODES.get(code.lower() if isinstance(code, str) else None)
                if k is None or errors != 'strict':
                    raise Unsupported('decode(%r, %r)' % (code, errors))
                t = self.decoded(k)
                if t is None:
                    raise Raise(Inst(UnicodeDecodeError, {'args': (code,)}))
                return t
            return Native('decode', decode)
        if name in ('startswith', 'find', 'split', 'replace', 'strip'):
            raise Unsupported('bytes.%s' % name)
        raise Raise(Inst(AttributeError, {'args': (name,)}))


def latin(t):
    return t.replace(an(1), '\u00e9' + an(2))


class Stream(Abs):
    kind = 'stream'

    def __init__(self, content):
        self.content, self.reads, self.closed = content, 0, 0

    def truth(self, it):
        return True

    def isinstance(self, it, c):
        return False

    def getattr(self, it, name):
        if name == 'read':
            def read(*a):
                if a:
                    raise Unsupported('read with a size')
                self.reads += 1
                return self.content if self.reads == 1 else ''
            return Native(name, read)
        if name == 'close':
            def close():
                self.closed += 1
            return Native(name, close)
        if name in ('__enter__',):
            return Native(name, lambda: self)
        if name in ('__exit__',):
            return Native(name, lambda *a: self.getattr(it, 'close').fn())
        raise Raise(Inst(AttributeError, {'args': (name,)}))


class Parsers:
    """a grammar module with a known outcome"""

    def __init__(self, it, name, outcome, log):
        self.it, self.name, self.outcome, self.log = it, name, outcome, log
        cls = {n: ClassVal(n, {}, [Exception]) for n in ('YappsSyntaxError', 'NoMoreTokens')}
        self.classes = cls
        rt = Inst('module', {
            'YappsSyntaxError': cls['YappsSyntaxError'], 'NoMoreTokens': cls['NoMoreTokens'],
            'Scanner': Native('Scanner', self.scanner), 'print_error': Native('print_error', lambda *a: None)})
        self.module = Inst('module', {
            'yappsrt': rt, 'lastval': 'last', 'StarParser': Native('StarParser', self.parser),
            'StarParserScanner': Native('StarParserScanner', lambda t: self.scanner(None, [], t, '')),
            'YappsSyntaxError': cls['YappsSyntaxError'], 'NoMoreTokens': cls['NoMoreTokens']})

    def scanner(self, patterns, ignore, text, scantype='standard'):
        return Inst('scanner', {'input': text, 'kind': scantype, 'own': scantype == '' or patterns is None and not list(ignore)})

    def parser(self, sc):
        return Inst('parser', {'_scanner': sc, 'input': Native('input', lambda *a: self.run(sc, *a))})

    def run(self, sc, prepared):
        it = self.it
        self.log.append((self.name, sc.attrs['input'], sc.attrs['kind'], prepared))
        o = self.outcome
        if o == 'ok':
            b = it.call(it.globals.vars['StarBlock'], [])
            it.call(it.getattr(prepared, 'NewBlock'), [mini_name(self.name), b])
            return prepared
        exc = {'syntax': lambda: Inst(self.classes['YappsSyntaxError'], {'args': (), 'charpos': 1, 'msg': 'm', 'context': None}),
               'more': lambda: Inst(self.classes['NoMoreTokens'], {'args': ()}),
               'value': lambda: Inst(ValueError, {'args': ()}),
               'star': lambda: it.call(it.globals.vars['StarError'], ['x'])}[o]()
        raise Raise(exc)


def mini_name(n):
    from .reading import Name
    return Name('g' + n)


class It(FileInterp):
    def __init__(self, outcomes):
        FileInterp.__init__(self, mini.Decisions(), [tree('StarFile')], steps=200000)
        self.log, self.opened, self.streams = [], [], {}
        g = self.globals.vars
        for name, var in (('1.0', '1_0'), ('1.1', '1_1'), ('2.0', '2_0'), ('STAR2', 'STAR2')):
            g['YappsStarParser_' + var] = Parsers(self, name, outcomes.get(name, 'unexpected'), self.log).module
        g['urlopen'] = Native('urlopen', self.urlopen)
        g['urlparse'] = Native('urlparse', lambda u, *a: urllib.parse.urlparse(u, *a))
        g['urlunparse'] = Native('urlunparse', lambda u: urllib.parse.urlunparse(tuple(u)))
        g['Path'] = Native('Path', lambda p: Inst('path', {'as_uri': Native('as_uri', lambda: 'file://' + p)}))
        g['os'] = Inst('module', {'getcwd': Native('getcwd', lambda: '/here'), 'path': Inst('module', {
            'isabs': Native('isabs', posixpath.isabs), 'join': Native('join', posixpath.join),
            'abspath': Native('abspath', lambda p: posixpath.normpath(posixpath.join('/here', p)))})})

    def urlopen(self, u, *a):
        self.opened.append(u)
        return self.stream

    def getattr(self, o, name, node=None):
        if isinstance(o, urllib.parse.ParseResult):
            return getattr(o, name)
        return FileInterp.getattr(self, o, name, node)

    def module(self, name):
        if name == 'traceback':
            return Inst('module', {n: Native(n, lambda *a, **k: None) for n in ('print_exc', 'format_exc')})
        return FileInterp.module(self, name)


def read(it, source, stream, kw, scoping='instance', given=True):
    """-> (result or exception name, prepared)"""
    g = it.globals.vars
    it.stream = stream
    prepared = None
    if given:
        prepared = it.call(g['StarFile'], [], {'scoping': scoping})
    try:
        return it.call(g['ReadStar'], [stream if source is None else source], dict(kw, prepared=prepared)), prepared
    except Raise as r:
        return exc_name(r.exc), prepared


TRY = {'auto': ['2.0', '1.1', '1.0'], None: ['2.0', '1.1', '1.0'], '1.0': ['1.0'], '1.1': ['1.1'], '2.0': ['2.0'], 'STAR2': ['STAR2']}


def scenarios(say):
    """say(rule, text); -> number of scenarios"""
    n = 0
    body = an(0) + '\n' + an(1)

    # which grammar is used, and what a failed one leaves
    for grammar, tries in TRY.items():
        for header in (True, False):
            for outs in itertools.product(('ok', 'syntax', 'more', 'value', 'star') if len(tries) == 1 else
                                          ('ok', 'syntax', 'value'), repeat=len(tries)):
                for scan in ('standard', 'flex') if header else ('standard',):
                    for scoping in ('instance', 'dictionary'):
                        n += 1
                        it = It(dict(zip(tries, outs)))
                        text = (HEADER + '\n' if header else '') + body
                        got, prep = read(it, None, Stream(text), {'grammar': grammar, 'scantype': scan}, scoping)
                        label = 'grammar %r%s, parsers %s' % (grammar, '' if header else ' without the header', dict(zip(tries, outs)))
                        todo = [t for t in tries if header or t != '2.0']
                        want = []
                        for t in todo:
                            want.append(t)
                            if dict(zip(tries, outs))[t] in ('ok', 'star'):
                                break
                        if [l[0] for l in it.log] != want:
                            say('grammars', '%s: tries %s instead of %s' % (label, [l[0] for l in it.log], want))
                            continue
                        last = dict(zip(tries, outs))[want[-1]] if want else None
                        if last != 'ok':
                            if got != 'StarError':
                                say('failure', '%s: %s instead of StarError' % (label, got if isinstance(got, str) else 'a file'))
                            elif it.call(it.getattr(prep, 'keys'), []):
                                say('failure', '%s: leaves blocks behind' % label)
                            continue
                        if not isinstance(got, Inst):
                            say('grammars', '%s: %s' % (label, got))
                            continue
                        if got is not prep:
                            say('grammars', '%s: the object given is not the one returned' % label)
                            continue
                        if it.getattr(got, 'grammar') != want[-1]:
                            say('grammars', '%s: the grammar is recorded as %r' % (label, it.getattr(got, 'grammar')))
                        if it.getattr(got, 'characterset') != ('unicode' if want[-1] in ('2.0', 'STAR2') else 'ascii'):
                            say('grammars', '%s: the character set is %r' % (label, it.getattr(got, 'characterset')))
                        if it.getattr(got, 'scoping') != scoping:
                            say('grammars', '%s: the scoping asked for is changed' % label)
                        if list(it.call(it.getattr(got, 'keys'), [])) != [mini_name(want[-1])]:
                            say('grammars', '%s: the blocks are not those of %s' % (label, want[-1]))
                        for name, t, kind, p in it.log:
                            if t != text:
                                say('text', '%s: the text parsed is not the text of the file' % label)
                            flex = scan == 'flex' and name in ('1.0', '1.1')
                            if (kind == 'flex') != flex:
                                say('scanner', '%s: the %s scanner is used for %s' % (label, 'compiled' if kind == 'flex' else 'Python', name))
    for bad in ('3.0', '', 'cif2', 2.0):
        n += 1
        it = It({})
        got, prep = read(it, None, Stream(body), {'grammar': bad})
        if not isinstance(got, str) or it.log:
            say('grammars', 'the unknown grammar %r is not refused' % (bad,))
    # without an object to fill
    n += 1
    it = It({'STAR2': 'ok'})
    got, prep = read(it, None, Stream(body), {}, given=False)
    if not isinstance(got, Inst) or not isinstance(got.cls, ClassVal) or got.cls.name != 'StarFile':
        say('grammars', 'without an object to fill, %s instead of a StarFile' % (got if isinstance(got, str) else 'something else',))

    # where the text comes from, and its coding
    for where in (None, 'data.cif', 'sub/data.cif', '/top/data.cif', 'http://a.b/c.cif', 'file:///q/r.cif'):
        for permissive in (False, True):
            for content in (Bytes(body), Bytes(body, bom=True), Bytes(body, plain=False), Bytes(body, bom=True, plain=False),
                            Bytes(body, utf=False, plain=False), Bytes(HEADER + body, bom=True), Bytes('', bom=True),
                            Bytes(''), body, ''):
                if isinstance(content, str) and where is not None:
                    continue
                for g, need in (('1.1', False), ('2.0', True)):
                    n += 1
                    it = It({g: 'ok'})
                    st = Stream(content)
                    got, prep = read(it, where, st, {'grammar': g, 'permissive': permissive})
                    label = '%s, %s, grammar %s%s' % (
                        'a stream' if where is None else where,
                        'text' if isinstance(content, str) else 'bytes %s%s' % (
                            'in another coding' if not content.utf else 'in UTF-8' if not content.plain else 'in ASCII',
                            ' with a byte order mark' if content.bom else ''), g, ', permissive' if permissive else '')
                    text = content if isinstance(content, str) else content.decoded('sig')
                    if text is None:
                        text = content.decoded('latin') if permissive else None
                    uri = '' if where is None else where if ':' in where else 'file://' + posixpath.join('/here', where)
                    if where is not None and it.opened != [uri]:
                        say('source', '%s: opens %s' % (label, it.opened))
                        continue
                    if text is None:
                        if got != 'StarError' or it.log:
                            say('coding', '%s: is not refused' % label)
                        continue
                    if text == '':
                        if got is not prep or it.log or it.call(it.getattr(got, 'keys'), []):
                            say('empty', '%s: an empty file is not read as a file without blocks' % label)
                        elif it.getattr(got, 'my_uri') != uri:
                            say('source', '%s: the address is not recorded' % label)
                        continue
                    if need and text[:10] != HEADER:
                        if got != 'StarError' or it.log:
                            say('header', '%s: a file without the header is read as 2.0' % label)
                        continue
                    if not isinstance(got, Inst):
                        say('coding', '%s: %s' % (label, got))
                        continue
                    if it.log[0][1] != text:
                        say('coding', '%s: the text parsed is not the text of the file' % label)
                    if it.getattr(got, 'my_uri') != uri:
                        say('source', '%s: the address is recorded as %r' % (label, it.getattr(got, 'my_uri')))

    # end of file mark, length of lines, binary sections
    M = '-BINARY-FORMAT-SECTION-'
    for text, kw, want in (
            (body + '\x1a' + an(2), {}, body), (body + '\x1a', {}, body), (an(0) + '\x1a\n' + an(1) + '\x1a', {}, an(0)),
            ('aaaa\nbbbbbb\ncccc', {'maxlength': 5}, None), ('aaaa\nbbbbb', {'maxlength': 5}, 'aaaa\nbbbbb'),
            ('aaaa\nbbbbbb', {'maxlength': -1}, 'aaaa\nbbbbbb'), ('bbbbbb\naa', {'maxlength': 5}, None),
            ('aa\nbbbbbb', {'maxlength': 5}, None), ('aa\n' + 'b' * 5 + '\n', {'maxlength': 5}, 'aa\n' + 'b' * 5 + '\n'),
            (an(0) + M + an(1) + M + an(2), {'CBF': True}, (an(0), an(1), an(2))),
            (an(0) + M + an(1) + M + an(2) + M + an(3) + M + an(4), {'CBF': True}, (an(0), an(1), an(2), an(3), an(4))),
            (an(0) + M + an(1) + M + an(2), {}, an(0) + M + an(1) + M + an(2)),
            (body, {'CBF': True}, body)):
        n += 1
        it = It({'1.1': 'ok'})
        got, prep = read(it, None, Stream(text), dict(kw, grammar='1.1'))
        label = 'a text %s with %s' % ('with a mark of the end' if '\x1a' in text else 'of a CBF file' if M in text else 'of several lines', kw)
        if want is None:
            if got != 'StarError' or it.log:
                say('length', '%s: a line that is too long is not refused' % label)
            continue
        if not isinstance(got, Inst):
            say('text', '%s: %s' % (label, got))
            continue
        seen = it.log[0][1]
        if isinstance(want, tuple):
            kept, gone = want[::2], want[1::2]
            at = [seen.find(k) for k in kept]
            if min(at) < 0 or at != sorted(at) or any(x in seen for x in gone) or any(seen.count(k) != 1 for k in kept):
                say('text', '%s: not just the binary sections are left out' % label)
        elif seen != want:
            say('text', '%s: the text parsed is another one' % label)
    return n

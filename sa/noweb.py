"""Tangle noweb sources, keeping for every output line the .nw file and line it came from."""
import re

_DEF = re.compile(r'^<<(.*)>>=\s*$')
_REF = re.compile(r'<<((?:(?!>>).)+)>>')


class NowebError(Exception):
    pass


def read_chunks(path):
    chunks, current = {}, None
    with open(path, encoding='utf-8') as fh:
        for no, line in enumerate(fh.read().split('\n'), 1):
            m = _DEF.match(line)
            if m:
                current = m.group(1)
                chunks.setdefault(current, [])
                continue
            if current is not None and (line == '@' or line.startswith('@ ')):
                current = None
                continue
            if current is not None:
                if line.startswith('@@'):
                    line = line[1:]
                chunks[current].append((line, no))
    return chunks


def tangle(path, root, rel=None):
    """-> (list of text lines, list of (file,line)) ; behaves like `notangle -Rroot`."""
    chunks = read_chunks(path)
    if root not in chunks:
        raise NowebError('%s has no chunk <<%s>>' % (path, root))
    rel = rel or path

    def expand(name, stack):
        if name not in chunks:
            raise NowebError('%s: undefined chunk <<%s>>' % (path, name))
        if name in stack:
            raise NowebError('%s: recursive chunk <<%s>>' % (path, name))
        out = []
        for line, no in chunks[name]:
            pieces = [('', (rel, no))]          # text so far on the current output line
            pos = 0
            first = True
            for m in _REF.finditer(line):
                if m.start() > 0 and line[m.start() - 1] == '@':
                    continue                     # @<< escape
                ref = m.group(1)
                if ref not in chunks:
                    # yapps uses <<args>> in rules: only defined chunks are references
                    continue
                pieces[-1] = (pieces[-1][0] + line[pos:m.start()], pieces[-1][1])
                indent = len(pieces[-1][0])
                sub = expand(ref, stack + [name])
                # noweb drops the newline of the last line of the chunk
                if sub:
                    pieces[-1] = (pieces[-1][0] + sub[0][0],
                                  sub[0][1] if not pieces[-1][0].strip() else pieces[-1][1])
                    for t, loc in sub[1:]:
                        pieces.append(((' ' * indent + t) if t else t, loc))
                pos = m.end()
            pieces[-1] = (pieces[-1][0] + line[pos:].replace('@<<', '<<').replace('@>>', '>>'), pieces[-1][1])
            out.extend(pieces)
        return out

    res = expand(root, [])
    return [t for t, _ in res], [loc for _, loc in res]

"""Resolution of every name, attribute, import and argument list in the Python sources, and of local reads along paths."""
import os

from sa import gtext, names, program
from sa.program import AnalysisBroken

FILES = {'__init__': 'src/__init__.py', 'drel.__init__': 'src/drel/__init__.py'}
PACKAGES = {'drel.': ('py_from_ast', 'drel_runtime', 'drel_lex', 'drel_ast_yacc')}
PARSERS = {'1.0': 'YappsStarParser_1_0', '1.1': 'YappsStarParser_1_1', '2.0': 'YappsStarParser_2_0',
           'STAR2': 'YappsStarParser_STAR2', 'TypeContents': 'TypeContentsParser'}
ASIDE = {'drel.parsetab', 'parsetab', 'drel.lextab', 'lextab'}


def project():
    mods = {}

    def add(name, path, lines, locs):
        mods[name] = names.Mod(name, path, '\n'.join(lines) + '\n', locs)
    for n, (path, root) in program.SOURCES.items():
        full = 'drel.' + n if n in PACKAGES['drel.'] else n
        add(full, path, *program.read_source(path, root))
    for n, path in FILES.items():
        add(n, path, *program.read_source(path, None))
    for n, (path, root) in program.GRAMMARS.items():
        lines, locs = program.read_source(path, root)
        add(PARSERS[n], path, *gtext.python(lines, locs, path))
    alias = {}
    for d, pre in (('src/yapps3', 'yapps3.'), ('src/Programs', 'Programs.')):
        try:
            found = sorted(f for f in os.listdir(os.path.join(program.REPO, d)) if f.endswith('.py'))
        except OSError as e:
            raise AnalysisBroken(str(e))
        for f in found:
            path = d + '/' + f
            add(pre + f[:-3].replace('-', '_'), path, *program.read_source(path, None))
    alias[('yapps3', 'yapps3_compiled_rt')] = 'yapps3_compiled_rt'
    return names.Project(mods, 'CifFile', alias)


def run(ctx):
    p = project()
    p.check()
    for rule, what, text, at in p.found:
        ctx.violation(rule, what, text, at)
    for k, v in p.counts.items():
        ctx.count(k, v)
    ctx.floor('functions', p.counts.get('functions', 0), 300)

"""py_star_scan.c interpreted from clang's syntax tree over a checked memory and a model of Python's C API, for call
histories of the methods prepare, scan, token, last_ten and cleanup: what each call returns or raises, the references it
keeps and drops, the memory it uses."""
import itertools

from sa import cmini, mini
from sa.cmini import Fault, Ptr
from sa.mini import Unsupported, Cut
from sa.program import AnalysisBroken
from . import cscan

KINDS = ['END', 'LBLOCK', 'GLOBAL', 'STOP', 'save_heading', 'save_end', 'data_heading', 'data_name', 'start_sc_line',
         'sc_line_of_text', 'end_sc_line', 'data_value_1', '(error)']
NUL = {'nul': b'da\0a_x', 'nul first': b'\0ata_x', 'nul last': b'data_\0'}
TEXTS = dict(NUL, wide='d\u00e9\u4e2d_\U0001f600'.encode())
NEEDED = ('prepare', 'scan', 'token', 'last_ten', 'cleanup')


def feed(k):
    """the k-th token the scanner reports"""
    text = ('t%d' % k + 'x' * (k % 5)).encode()
    return (k + 1) % 13, text, 10 + k


def want(k):
    i, text, line = feed(k)
    return [line, 0, KINDS[i], text]


def plain(o):
    return [x.data if isinstance(x, cscan.Obj) else x for x in o.data]


class Failed(Exception):
    def __init__(self, rule, fn, text):
        self.rule, self.fn, self.text = rule, fn, text


def history(trees, table, ops, d, fail=False):
    """-> [(rule, function, text)]"""
    api = cscan.Api(trees, d, feed)
    c = api.c
    init = [n for n in c.funcs if n.startswith('PyInit_')]
    if len(init) != 1:
        raise AnalysisBroken('module initialisation not found')
    try:
        m = c.call(init[0], [])
    except Fault as e:
        return [(e.rule, init[0], e.text)]
    if not isinstance(m, cscan.Obj):
        return [('module', init[0], 'returns no module')]
    api.may_fail = fail
    have = []                                           # numbers of the tokens in the list, as the scanner reported them
    handed = []                                         # results the caller holds
    done = []
    for op in list(ops) + ['cleanup', 'prepare']:
        name, arg = op if isinstance(op, tuple) else (op, None)
        last = len(done) >= len(ops)
        done.append(name if arg is None else '%s(%s)' % (name, arg))
        if name == 'token' and isinstance(arg, str):
            arg = len(have) + int(arg[1:] or 0)
        fn = table[name]
        args = []
        if name == 'prepare':
            args = [cscan.string(c, None if arg == 'bad' else TEXTS.get(arg, b'data_x'))]
            api.cleared = 0
        elif name == 'token':
            args = [arg]
        failed, before, fed = api.failed, len(api.objects), api.fed
        where = '%s after %s' % (fn, ', '.join(done[:-1])[-120:] or 'nothing')
        try:
            r = api.method(fn, *args)
        except Fault as e:
            return [(e.rule, fn, '%s (%s)' % (e.text, ', '.join(done)[-160:]))]
        seq = ', '.join(done)[-160:]
        if r == 0 or r is None:
            if not api.exc:
                return [('exception', fn, 'returns NULL without an exception (%s)' % seq)]
        else:
            if not isinstance(r, cscan.Obj):
                return [('result', fn, 'returns %r (%s)' % (r, seq))]
            if api.exc:
                return [('exception', fn, 'returns a result with an exception set (%s)' % seq)]
            if r.rc < 1 and not r.immortal:
                return [('reference-count', fn, 'returns an object it holds no reference to (%s)' % seq)]
            if not r.immortal:
                handed.append(r)
        if api.failed and not failed:
            # a token that is no text, or the like: the failure reaches the caller, nothing else is known
            if r != 0 and r is not None:
                return [('exception', fn, 'hides a failure (%s)' % seq)]
            if name == 'token' and api.exc == 'IndexError':
                return [('exception', fn, 'a token that cannot be made is reported as the end of the tokens (%s)' % seq)]
            return sweep(api, table, handed, seq)
        if name == 'prepare':
            if arg in NUL and not isinstance(r, cscan.Obj):
                return sweep(api, table, handed, seq)
            if arg == 'bad':
                if isinstance(r, cscan.Obj):
                    return [('exception', fn, 'accepts text that has no UTF-8 form (%s)' % seq)]
                return sweep(api, table, handed, seq)
            if not isinstance(r, cscan.Obj) or r is not api.none:
                return [('result', fn, 'returns %r (%s)' % (r, seq))]
            have = []
            if api.cleared < 1:
                return [('reset', fn, 'does not reset the scanner (%s)' % seq)]
            try:
                pos = c.load(Ptr(c.glob('string_pos')), 'unsigned long')
                n = c.load(Ptr(c.glob('in_string_len')), 'unsigned long')
                p = c.load(Ptr(c.glob('input_string')), 'char *')
            except Fault as e:
                return [('input', fn, e.text)]
            size = len(TEXTS.get(arg, b'data_x'))
            if pos != 0 or n != size or p != args[0].utf8:
                return [('input', fn, 'the scanner starts at %s of %s bytes instead of 0 of %d (%s)' % (pos, n, size, seq))]
        elif name == 'cleanup':
            if not isinstance(r, cscan.Obj):
                return [('exception', fn, 'raises %s (%s)' % (api.exc, seq))]
            have = []
        elif name == 'scan':
            have.append(fed)
            if api.fed != fed + 1:
                return [('scan', fn, 'reads %d tokens (%s)' % (api.fed - fed, seq))]
            if not isinstance(r, cscan.Obj):
                return [('exception', fn, 'raises %s (%s)' % (api.exc, seq))]
        elif name == 'token':
            if arg == len(have):
                have.append(fed)
            if api.fed != fed + (1 if arg == len(have) - 1 and len(have) and have[-1] == fed else 0):
                return [('scan', fn, 'reads %d tokens (%s)' % (api.fed - fed, seq))]
            if 0 <= arg < len(have):
                if not isinstance(r, cscan.Obj):
                    return [('exception', fn, 'raises %s (%s)' % (api.exc, seq))]
                if r.kind != 'tuple' or plain(r) != want(have[arg]):
                    return [('result', fn, 'gives %r for token %d, should be %r (%s)' % (r.data, arg, want(have[arg]), seq))]
            else:
                if isinstance(r, cscan.Obj):
                    return [('result', fn, 'gives %r for token %d of %d (%s)' % (r.data, arg, len(have), seq))]
                if api.exc != 'IndexError':
                    return [('exception', fn, 'raises %s for a token that is not there (%s)' % (api.exc, seq))]
        elif name == 'last_ten':
            if not isinstance(r, cscan.Obj):
                return [('exception', fn, 'raises %s (%s)' % (api.exc, seq))]
            w = [want(k) for k in have[-10:]]
            g = [plain(x) if isinstance(x, cscan.Obj) else x for x in r.data] if r.kind == 'list' else r.data
            if g != w:
                return [('result', fn, 'gives %s, should be %s (%s)' % (str(g)[:150], str(w)[:150], seq))]
        # every object made is owned by the list of tokens or by the caller
        bad = owned(api, have, handed)
        if bad:
            return [('reference-count', fn, '%s (%s)' % (bad, seq))]
        if name == 'cleanup' and any(b.alive for b in api.heap):
            return [('leak', fn, '%d blocks of memory are still held (%s)' % (sum(b.alive for b in api.heap), seq))]
        if last and name == 'prepare' and sum(b.alive for b in api.heap) > 6:
            return [('leak', fn, 'memory of earlier tokens is still held (%s)' % seq)]
    return []


def owned(api, have, handed):
    """reference counts: one for every place that holds the object"""
    count = {}

    def hold(o):
        if isinstance(o, cscan.Obj):
            count[o] = count.get(o, 0) + 1
            if o.kind in ('tuple', 'list') and count[o] == 1:
                for x in o.data:
                    hold(x)
    for o in handed:
        hold(o)
    texts = {feed(k)[1] for k in have}
    for o in api.objects:
        if o.kind == 'tuple' and o not in count and o.rc == 1 and not any(isinstance(x, cscan.Obj) and x.kind == 'str' and False for x in o.data):
            continue                                     # arguments
        extra = 1 if o.kind == 'str' and o.data in texts else 0
        if o.kind == 'module':
            continue
        if o.rc != count.get(o, 0) + extra and not (o.kind == 'tuple' and o not in count):
            return 'an object (%s %r) has %d references, %d are held' % (o.kind, o.data, o.rc, count.get(o, 0) + extra)
    return None


def sweep(api, table, handed, seq):
    """after a failure: cleaning up and starting again works"""
    api.may_fail = False
    for name in ('cleanup', 'prepare', 'scan', 'cleanup'):
        try:
            r = api.method(table[name], *([cscan.string(api.c, b'data_x')] if name == 'prepare' else []))
        except Fault as e:
            return [(e.rule, table[name], '%s (%s, failed, %s)' % (e.text, seq, name))]
        if not isinstance(r, cscan.Obj):
            return [('exception', table[name], '%s fails with %s after a failure (%s)' % (name, api.exc, seq))]
    bad = owned(api, [], handed)
    if bad:
        return [('reference-count', table['cleanup'], '%s (%s, failed)' % (bad, seq))]
    if any(b.alive for b in api.heap):
        return [('leak', table['cleanup'], 'memory is still held (%s, failed)' % seq)]
    return []


OPS = ['prepare', 'scan', 'cleanup', 'last_ten', ('token', '+0'), ('token', '-1'), ('token', '+1'), ('token', -1), ('token', 0)]


def histories(tier):
    for n in range(1, 4):
        for ops in itertools.product(OPS, repeat=n):
            yield ops, n <= 2
    for n in (9, 10, 11, 12, 25):
        yield ['prepare'] + ['scan'] * n + ['last_ten'], False
        yield ['prepare'] + [('token', '+0')] * n + ['last_ten', ('token', 0), ('token', 9), ('token', -1), 'prepare', ('token', '+0')], False
    yield ['prepare', ('prepare', 'bad')], False
    yield [('prepare', 'bad')], False
    yield [('prepare', 'nul')], False
    yield [('prepare', 'wide'), 'scan'], False
    yield ['prepare', 'scan', ('prepare', 'wide'), ('token', '+0'), 'last_ten'], False
    yield [('prepare', 'nul first')], False
    yield [('prepare', 'nul last')], False
    yield ['prepare', 'scan', ('prepare', 'nul')], False
    yield ['prepare', 'scan', 'scan', ('prepare', 'bad')], False
    yield ['prepare'] + ['scan'] * 3 + ['last_ten', 'cleanup', 'cleanup', 'scan', ('token', '+0'), ('token', 0)], True
    if tier == 'thorough':
        for ops in itertools.product(OPS, repeat=4):
            yield ops, False


def run(ctx):
    t, errs = cmini.tree(cscan.PY)
    if errs:
        raise AnalysisBroken('clang: ' + errs[0])
    trees = [t]
    table = cscan.methods(trees)
    for n in NEEDED:
        if n not in table:
            ctx.violation('method', 'StarScanMethods', 'there is no method %s' % n, cscan.PY)
            return
    n = 0
    missed = []
    for ops, fail in histories(ctx.tier):
        try:
            for bad in mini.explore(lambda d: history(trees, table, ops, d, fail), limit=200):
                n += 1
                for rule, fn, text in bad:
                    ctx.violation(rule, fn, text, cscan.PY)
        except AnalysisBroken as e:
            missed.append('%s: %s' % (ops, e))
    growth(ctx, trees, table, missed)
    try:
        for bad in mini.explore(lambda d: large(trees, table, d), limit=3):
            for rule, fn, text in bad:
                ctx.violation(rule, fn, text, cscan.PY)
            ctx.count('large_texts')
    except (AnalysisBroken, Cut) as e:
        missed.append('large: %s' % e)
    if missed:
        ctx.coverage['not_analysed'] = missed[:5]
        ctx.count('histories_not_analysed', len(missed))
    declarations(ctx)
    ctx.floor('histories', n, 200)
    ctx.assumptions = ['memory allocation succeeds', 'the C API of Python behaves as documented']


def growth(ctx, trees, table, missed):
    """the lists grow: as many tokens as they hold, one more, and again"""
    import re
    sizes = [4192]
    try:
        with open(cscan.program_path(cscan.HDR)) as f:
            m = re.search(r'#define\s+MEM_ALLOC_SIZE\s+(\d+)', f.read())
            if m:
                sizes = [int(m.group(1))]
    except OSError:
        pass
    for size in sizes:
        ops = ['prepare'] + ['scan'] * (size - 1) + [('token', '+0'), ('token', '+0'), ('token', 0), ('token', size - 1), 'last_ten']
        if size < 5000:
            ops += ['scan'] * size + ['last_ten', ('token', size), ('token', 2 * size)]
        try:
            for bad in mini.explore(lambda d: quick(trees, table, ops, d), limit=3):
                for rule, fn, text in bad:
                    ctx.violation(rule, fn, text, cscan.PY)
            ctx.count('growth_histories')
        except (AnalysisBroken, Cut) as e:
            missed.append('growth: %s' % e)


BIG = 70001                                             # more than 16 bits hold


def large(trees, table, d):
    """long texts, a long token and a high line number come through whole"""
    lines = [7, BIG, BIG + 1, BIG + 2]
    texts = [b'a', b'x' * BIG, b'y' * 70000, b'']
    api = cscan.Api(trees, d, lambda k: ((k + 6) % 13, texts[k % 4], lines[k % 4]))
    c = api.c
    c.steps = max(c.steps, 5000000)
    c.call([n for n in c.funcs if n.startswith('PyInit_')][0], [])
    fn = table['prepare']
    try:
        r = api.method(fn, cscan.string(c, b'data_x' * 12000))
        n = c.load(Ptr(c.glob('in_string_len')), 'unsigned long')
        if not isinstance(r, cscan.Obj) or n != 72000:
            return [('size', fn, 'the scanner sees %s bytes of a text of 72000' % n)]
        for k in range(4):
            fn = table['token']
            r = api.method(fn, k)
            if not isinstance(r, cscan.Obj):
                return [('size', fn, 'raises %s for a token of %d bytes on line %d' % (api.exc, len(texts[k]), lines[k]))]
            got = plain(r)
            if got != [lines[k], 0, KINDS[(k + 6) % 13], texts[k]]:
                return [('size', fn, 'gives line %r and a text of %s bytes for a token of %d bytes on line %d'
                         % (got[0], len(got[3]) if isinstance(got[3], bytes) else got[3], len(texts[k]), lines[k]))]
        fn = table['last_ten']
        r = api.method(fn)
        if [plain(x) for x in r.data] != [[lines[k], 0, KINDS[(k + 6) % 13], texts[k]] for k in range(4)]:
            return [('size', fn, 'gives other tokens than were read when one has %d bytes' % BIG)]
        fn = table['cleanup']
        api.method(fn)
    except Fault as e:
        return [(e.rule, fn, '%s (a token of %d bytes, line %d)' % (e.text, BIG, BIG))]
    return []


def quick(trees, table, ops, d):
    """like history, with the checks that cost much left to the end"""
    api = cscan.Api(trees, d, feed)
    c = api.c
    c.call([n for n in c.funcs if n.startswith('PyInit_')][0], [])
    have, handed = [], []
    for k, op in enumerate(ops):
        name, arg = op if isinstance(op, tuple) else (op, None)
        if name == 'token' and isinstance(arg, str):
            arg = len(have) + int(arg[1:] or 0)
        fed = api.fed
        args = [cscan.string(c, b'data_x')] if name == 'prepare' else [arg] if name == 'token' else []
        try:
            r = api.method(table[name], *args)
        except Fault as e:
            return [(e.rule, table[name], '%s (call %d, %d tokens)' % (e.text, k, len(have)))]
        if not isinstance(r, cscan.Obj):
            return [('exception', table[name], 'raises %s (call %d, %d tokens)' % (api.exc, k, len(have)))]
        if not r.immortal:
            handed.append(r)
        if api.fed > fed:
            have.append(fed)
        if name == 'token' and plain(r) != want(have[arg]):
            return [('result', table[name], 'gives %r for token %d, should be %r' % (r.data, arg, want(have[arg])))]
        if name == 'last_ten' and [plain(x) for x in r.data] != [want(i) for i in have[-10:]]:
            return [('result', table[name], 'wrong tokens (%d tokens)' % len(have))]
    bad = owned(api, have, handed)
    return [('reference-count', table['scan'], bad)] if bad else []


def declarations(ctx):
    """one variable, one type: the declarations in the header agree with the definitions in the scanner"""
    t1, _ = cmini.tree(cscan.PY)
    t2, _ = cmini.tree(cscan.LEXC, stubs=False)
    c1, c2 = cmini.C([t1], None), cmini.C([t2], None)
    n = 0
    for name, d in c1.vars.items():
        if d.get('storageClass') == 'extern' and name in c2.vars and c2.vars[name].get('storageClass') != 'extern' \
                and name not in ('stdin', 'stdout', 'stderr'):
            n += 1
            a, b = c1.typ(d), c2.typ(c2.vars[name])
            if c1.sizeof(a) != c2.sizeof(b) or a != b:
                ctx.violation('declaration', name, 'is declared %s in %s and defined %s in %s' % (a, cscan.HDR, b, cscan.LEXC), cscan.HDR)
    for name, d in c2.vars.items():
        if d.get('storageClass') == 'extern' and name in c1.vars and c1.vars[name].get('storageClass') != 'extern':
            n += 1
            a, b = c2.typ(d), c1.typ(c1.vars[name])
            if a != b:
                ctx.violation('declaration', name, 'is declared %s in %s and defined %s in %s' % (a, cscan.LEXC, b, cscan.PY), cscan.HDR)
    ctx.floor('shared_variables', n, 4)

"""Reading a file: the actions of the four grammars and the block collections they fill are interpreted over sequences of tokens whose
texts are anonymous (families of files that cover every kind of value, nesting, order and equality of names), ReadStar with
stand-ins for parsers, streams and codings; and the layers beneath: scanners, parsers and the generator."""
import os
from multiprocessing import Pool

from sa import cmini, relang
from sa.program import AnalysisBroken
from . import c05, c08, c09, c10, c12, cscan, gramset, readfile, reading

GRAMMARS = ('1.0', '1.1', '2.0', 'STAR2')
PARTS = 4
W = {}


def jobs(deep):
    for g in GRAMMARS:
        for fam, fs in reading.files(g, deep):
            for k in range(PARTS):
                yield g, fam, 'plain', k, deep
                if fam == 'equal headings' or deep:
                    yield g, fam, 'before', k, deep
                if fam != 'values' or deep:
                    yield g, fam, 'Dic', k, deep
                if fam != 'equal headings':
                    yield g, fam, 'None', k, deep
                if g == 'STAR2' and fam == 'values':
                    yield g, fam, 'commas', k, deep
        for k in range(PARTS):
            yield g, 'damaged', 'plain', k, deep
    yield '', 'ReadStar', 'plain', 0, deep


def one(job):
    g, family, how, k, deep = job
    out, done, miss = [], 0, []

    def attempt(label, f, *a, **kw):
        nonlocal done
        try:
            bad = f(W['grams'], g, *a, **kw)
            done += 1
        except AnalysisBroken as e:
            miss.append('%s: %s' % (label() if callable(label) else label, e))
            return
        if bad and sum(r == bad[0] for r, _ in out) < 2:
            out.append((bad[0], '%s: %s' % (label() if callable(label) else label, bad[1])))
    if family == 'ReadStar':
        def say(rule, text):
            if sum(r == rule for r, _ in out) < 2:
                out.append((rule, text))
        try:
            done = readfile.scenarios(say)
        except AnalysisBroken as e:
            miss.append(str(e))
    elif family == 'damaged':
        for i, (label, toks) in enumerate(reading.damaged(g)):
            if i % PARTS == k:
                attempt(label, reading.refuses, toks)
    else:
        for fam, fs in reading.files(g, deep):
            if fam != family:
                continue
            for i, f in enumerate(fs):
                if i % PARTS != k:
                    continue
                label = (lambda f=f: reading.text_of(f))
                if how == 'before':
                    for b in (('a', 0), ('zz', 0), ('a', 1)):
                        attempt(lambda f=f: 'into a file with block %s: %s' % (b[0], reading.text_of(f)), reading.read, f,
                                before=reading.Name(*b))
                elif how == 'None':
                    if len({h.lower().id for h in headings(f)}) == len(headings(f)):
                        attempt(label, reading.read, f, standard=None)
                elif how == 'Dic':
                    attempt(label, reading.read, f, standard='Dic')
                elif how == 'commas':
                    attempt(label, reading.read, f, commas=False)
                else:
                    attempt(label, reading.read, f)
    return job, out, done, miss


def headings(f):
    def of(es):
        return [x for e in es if e[0] == 'f' for x in [e[1]] + of(e[2])]
    return [x for h, es in f for x in [h] + of(es)]


CASES = (str.lower, str.upper, str.title, str.swapcase)
ENDS = {'1.0': ' \n', '1.1': ' \n', '2.0': ' \n]}', 'STAR2': ' \n]},'}


def reserved(ctx):
    """no token that can begin a value is a reserved word"""
    for g, gram in W['grams'].items():
        words = ['loop_', 'stop_', 'global_', 'data_', 'save_', 'data_x', 'save_x', 'data_1_', 'save_#']
        words += ['lOOP_', 'loOp_', 'dAta_', 'daTa_x', 'sAvE_', 'sTop_', 'stOp_', 'gLOBAL_', 'globAl_', 'data_\u00a0' if g in ('2.0', 'STAR2') else 'data_$']
        for name in sorted(gram.ref.first(gram.rules['data_value'])):
            if name not in gram.tokens:
                continue
            m = relang.Match(relang.Prog(gram.tokens[name]))
            for w in sorted({c(x) for x in words for c in CASES} | set(words)):
                for end in ENDS[g] + '$':
                    st = m.initial()
                    for ch in w:
                        st = m.step(st, ord(ch))
                    st = m.step(st, relang.MARK)
                    if end != '$':
                        st = m.step(st, ord(end))
                    ctx.count('reserved words')
                    if m.result(st) == 'exact':
                        ctx.violation('reserved', '%s|%s' % (g, w.split('_')[0].lower()),
                                      'grammar %s: %r before %r is taken for the value %s' % (g, w, end, name), reading.YP)
    tab = c09.Tables(cmini.tree(cscan.LEXC, stubs=False)[0])
    value = accepted(tab, b'x')
    for w in (b'loop_', b'stop_', b'global_', b'data_', b'save_', b'data_x', b'save_x'):
        for c in (bytes.lower, bytes.upper, bytes.title, bytes.swapcase):
            ctx.count('reserved words')
            if accepted(tab, c(w)) == value:
                ctx.violation('reserved', 'compiled scanner|%s' % w.decode(), 'the compiled scanner takes %r for a value' % c(w), cscan.LEXC)


def accepted(tab, word):
    s = 1
    for b in word:
        if tab.dead(s):
            return 0
        s = tab.step(s, b)
    return tab.yy_accept[s]


def run(ctx):
    deep = ctx.tier == 'thorough'
    W['grams'] = {g: gramset.Gram(g) for g in GRAMMARS}
    miss = []
    with Pool(min(8, os.cpu_count() or 1)) as pool:
        for (g, fam, how, k, d), out, done, m in pool.imap_unordered(one, list(jobs(deep))):
            what = 'scenarios of ReadStar' if fam == 'ReadStar' else 'damaged files' if fam == 'damaged' else 'files'
            ctx.count(what, done)
            miss += m
            where = reading.SF if fam == 'ReadStar' else reading.YP
            name = 'ReadStar' if fam == 'ReadStar' else 'grammar %s, %s' % (g, fam) + ('' if how == 'plain' else ', ' + how)
            for rule, text in out:
                ctx.violation(rule, name, text, where)
    reserved(ctx)
    if miss:
        ctx.coverage['files_not_analysed'] = len(miss)
        ctx.coverage['not_analysed'] = miss[:4]
    total = ctx.coverage.get('files', 0)
    if len(miss) > total // 4 and not ctx.found:
        raise AnalysisBroken('%d of %d files could not be followed: %s' % (len(miss), total, miss[0]))
    said = ['the tokens are those of the text (decided by C05, C08, C09 and C11)',
            'the names of tokens differ or are equal whatever their case; nothing else of them is known but that they are legal']
    for layer in (c05, c08, c09, c10, c12):
        layer.run(ctx)
        said += [a for a in ctx.assumptions if a not in said]
    ctx.assumptions = said

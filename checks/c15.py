"""Copies: blocks and collections of several forms, and after every single operation, are copied by interpreted code; the copy says
the same, keeps the settings, and shares nothing with the original that can be changed; a change of either leaves the other as it was."""
import itertools
import os
from multiprocessing import Pool

from sa import mini
from sa.mini import Abs, Inst, Raise, Unsupported
from sa.program import AnalysisBroken
from . import editing, reading
from .reading import tree
from .scanner import exc_name

PARTS = 16
SETTINGS = {'StarBlock': ('maxnamelength', 'characterset'), 'CifBlock': ('maxnamelength', 'characterset', 'compat_mode'),
            'file': ('scoping', 'standard', 'grammar', 'characterset', 'header_comment')}


def parts(x, path, out, depth=0):
    """id -> path, of everything below x that can be changed"""
    if isinstance(x, (Abs, str, int, float, type(None))) or depth > 30:
        return out
    if isinstance(x, Inst):
        if not isinstance(x.cls, mini.ClassVal) or id(x) in out:
            return out
        out[id(x)] = (x, path)
        for k, v in x.attrs.items():
            parts(v, '%s.%s' % (path, k), out, depth + 1)
    elif isinstance(x, (list, dict, set)):
        if id(x) in out:
            return out
        out[id(x)] = (x, path)
        if isinstance(x, dict):
            for k, v in x.items():
                parts(v, '%s[%s]' % (path, k), out, depth + 1)
        elif isinstance(x, list):
            for i, v in enumerate(x):
                parts(v, '%s[%s]' % (path, i), out, depth + 1)
    elif isinstance(x, tuple):
        for i, v in enumerate(x):
            parts(v, '%s[%s]' % (path, i), out, depth + 1)
    return out


def shared(a, b):
    pa, pb = parts(a, 'original', {}), parts(b, 'copy', {})
    both = [(pb[i][1], pa[i][1]) for i in pa if i in pb]
    return min(both, key=lambda p: (len(p[0]), p)) if both else None


def settings(it, kind, b):
    out = {}
    for k in SETTINGS[kind]:
        v = it.getattr(b, k)
        out[k] = tuple(sorted(map(str, v))) if isinstance(v, (set, frozenset)) else v
    return out


WHICH = {'StarBlock': ('StarFile',), 'CifBlock': ('StarFile', 'CifFile_module')}


def prepared(it, kind, b):
    """settings that are not the ones a new object has"""
    if kind == 'file':
        it.call(it.getattr(b, 'set_grammar'), ['STAR2'])
        it.call(it.getattr(b, 'set_characterset'), ['unicode'])
        it.setattr(b, 'header_comment', 'c')
        it.setattr(b, 'master_template', [{'dataname': 'x', 'column': 3}])
    else:
        it.call(it.getattr(b, 'set_characterset'), ['unicode'])
        it.setattr(b, 'maxnamelength', 40)
        if kind == 'CifBlock':
            it.setattr(b, 'compat_mode', True)


def made(kind, start, h, standard='CIF'):
    """-> interpreter, object, model; None if the history is not documented"""
    if kind == 'file':
        n, bad, it, b, model = editing.follow_file(standard, start, h)
    else:
        n, bad, it, b, model = editing.follow(start, h, kind, WHICH[kind])
    return None if bad or model is None or n < len(h) else (it, b, model)


def cases(kind, deep):
    if kind == 'file':
        for st, label, start, h in editing.file_histories(deep):
            if len(h) < 2 and st in ('CIF', None):
                for s in (False, True):
                    for then in [None] + list(editing.file_menu()):
                        for on in (0, 1) if then is not None else (0,):
                            if then is None or not h or deep:
                                yield 'standard %s: %s' % (st, label), h, 'copy', s, then, on, start, st
        return
    ops = list(editing.menu(deep))
    for label, start in editing.STARTS:
        for h in [()] + [(o,) for o in ops]:
            for how in ('copy', 'construct'):
                for s in (False, True):
                    yield label, h, how, s, None, 0, start, None
    for label, start in editing.STARTS:
        for how in ('copy', 'construct'):
            for h in [()] + ([(o,) for o in ops[::3]] if deep else []):
                for then in ops:
                    for on in (0, 1):
                        yield label, h, how, False, then, on, start, None


def one_case(kind, h, how, s, then, on, start, st):
    x = made(kind, start, h, st)
    if x is None:
        return None
    it, b, model = x
    if s:
        prepared(it, kind, b)
    had = settings(it, kind, b)
    template = mini_freeze(it.getattr(b, 'master_template')) if kind == 'file' else None
    change = editing.change if kind == 'file' else editing.apply
    differs = editing.file_differs if kind == 'file' else editing.differs
    expect = editing.changed if kind == 'file' else editing.expect
    try:
        c = change(it, b, (how,))
    except Raise as r:
        return [('refused', '%s is refused: %s' % (how, exc_name(r.exc)))]
    out = []
    for name, y in (('the original', b), ('the copy', c)):
        d = differs(it, y, model)
        if d:
            out.append(('equal', 'after %s, %s: %s' % (how, name, d)))
    p = shared(b, c)
    if p:
        out.append(('shared', '%s is %s' % p))
    if how == 'copy':
        has = settings(it, kind, c)
        for k, v in had.items():
            if has[k] != v:
                out.append(('settings', 'the copy has %s %s, the original %s' % (k, has[k], v)))
        if kind == 'file' and mini_freeze(it.getattr(c, 'master_template')) != template:
            out.append(('settings', 'the copy has another output template'))
        if kind != 'file' and c.cls is not b.cls:
            out.append(('settings', 'the copy of a %s is a %s' % (b.cls.name, c.cls.name)))
    if then is not None and not out:
        if kind == 'file' and then[0] == 'merge' and len(then) > 2 and model.find(then[2]) is None:
            return out
        one, other = (c, b) if on == 0 else (b, c)
        try:
            m, no = expect(model, then)
        except Unsupported:
            return out
        try:
            r = change(it, one, then)
            one = r
        except Raise:
            if not no:
                return out + [('effect', '%s of the %s is refused' % (editing.show(then), ('copy', 'original')[on]))]
            m = model
        d = differs(it, other, model)
        if d:
            out.append(('shared', '%s of the %s changes the %s: %s' % (editing.show(then), ('copy', 'original')[on], ('original', 'copy')[on], d)))
        if kind == 'file' and then[0] == 'construct':
            it.setattr(one, 'scoping', 'instance')
        d = differs(it, one, m) if m is not None else None
        if d and not (then[0] in ('update', 'addtoloop') and no):
            out.append(('effect', 'after %s of the %s: %s' % (editing.show(then), ('copy', 'original')[on], d)))
    return out


def mini_freeze(x):
    if isinstance(x, dict):
        return ('dict',) + tuple((k, mini_freeze(v)) for k, v in x.items())
    if isinstance(x, list):
        return ('list',) + tuple(mini_freeze(v) for v in x)
    return x


def one(job):
    kind, k, deep = job
    out, n, miss = [], 0, []
    for i, (label, h, how, s, then, on, start, st) in enumerate(cases(kind, deep)):
        if i % PARTS != k:
            continue
        what = '%s%s: %s' % (label, ''.join('; ' + editing.show(o) for o in h), how)
        try:
            bad = one_case(kind, h, how, s, then, on, start, st)
        except (AnalysisBroken, Unsupported) as e:
            miss.append('%s: %s' % (what, e))
            continue
        if bad is None:
            continue
        n += 1
        for rule, text in bad:
            if sum(r == rule for r, _, _ in out) < 3:
                out.append((rule, how, '%s: %s' % (what, text)))
    return job, out, n, miss


def run(ctx):
    deep = ctx.tier == 'thorough'
    miss = []
    with Pool(min(8, os.cpu_count() or 1)) as pool:
        for (kind, k, d), out, n, m in pool.imap_unordered(one, [(kind, k, deep) for kind in ('StarBlock', 'CifBlock', 'file')
                                                                 for k in range(PARTS)]):
            ctx.count('copies of a %s' % kind, n)
            miss += m
            for rule, how, text in out:
                ctx.violation(rule, '%s, %s' % (kind, how), text, reading.SF)
    total = sum(v for k, v in ctx.coverage.items() if k.startswith('copies'))
    if miss:
        ctx.coverage['not_followed'] = len(miss)
        ctx.coverage['not_analysed'] = miss[:4]
    if len(miss) > total // 4 and not ctx.found:
        raise AnalysisBroken('%d of %d copies could not be followed: %s' % (len(miss), total, miss[0]))
    ctx.floor('copies', total, 1000)
    ctx.assumptions = ['texts, numbers and names cannot be changed', 'no dictionary is assigned to the block',
                       'names and values are legal and nothing else of them is known but whether they are equal']

"""Abstract interpretation of the Python tokeniser and parser base class: token patterns are symbols that may match up to
any position, positions are integers known only by their differences (zones). In every order the ends of the matches can
have, the token returned, the position and the refusals are compared with the longest-match rule."""
import time

from . import scanner
from sa import mini
from sa.program import AnalysisBroken


def explore(ctx, jobs, loc):
    """jobs: (construct, name, path function); -> number of scenarios in which at least one path could be followed"""
    done, start = 0, time.time()
    for construct, name, f in jobs:
        seen = {'n': 0}
        miss = []

        def guarded(d):
            try:
                r = f(d)
                seen['n'] += 1
                return r
            except mini.Endless:
                return [('endless', 'does not come to an end in ' + name)]
            except mini.Raise as r:
                return [('raises', 'raises %s in %s' % (scanner.exc_name(r.exc), name))]
            except AnalysisBroken as e:
                miss.append(str(e))
                return []
        try:
            for bad in mini.explore(guarded, seconds=12 if time.time() - start < 240 else 1):
                for rule, text in bad:
                    ctx.violation(rule, construct, text, loc)
        except AnalysisBroken as e:
            miss.append(str(e))
        if miss:
            ctx.coverage.setdefault('not_analysed', []).append('%s %s: %d paths: %s' % (construct, name, len(miss), miss[0]))
        done += seen['n'] > 0
        ctx.count('paths', seen['n'])
        ctx.sample('%s %s: %d path classes' % (construct, name, seen['n']))
    return done


def run(ctx):
    tree = scanner.runtime_tree()
    jobs = []
    for k in range(len(scanner.SCRIPTS)):
        for sup in (False, True):
            jobs.append(('Scanner.token', 'requests %d%s' % (k, ' (generated parser)' if sup else ''),
                         lambda d, k=k, sup=sup: scanner.scenario(tree, k, sup, d)))
    names = scanner.names_in(tree)
    for n in names:
        for k in (1, 4):
            jobs.append(('Scanner.token', 'requests %d, a token called %s' % (k, n),
                         lambda d, k=k, n=n: scanner.scenario(tree, k, False, d, rename=n)))
        jobs.append(('Parser', 'protocol with %s' % n, lambda d, n=n: scanner.parser(tree, d, n, 'B')))
        jobs.append(('Parser', 'protocol with %s second' % n, lambda d, n=n: scanner.parser(tree, d, 'B', n)))
    for ignore in ('', 'B'):
        jobs.append(('Scanner', 'after another one, ignored: %s' % (ignore or '-'), lambda d, ignore=ignore: scanner.second(tree, d, ignore)))
    jobs.append(('Scanner', 'positions', lambda d: scanner.positions(tree, d)))
    jobs.append(('Scanner', 'compiled', lambda d: scanner.compiled(tree, d)))
    done = explore(ctx, jobs, scanner.RT)
    ctx.assumptions = ['patterns of ignored tokens do not match the empty text', 'up to 3 token kinds and 5 positions per '
                       'scenario: the choice at one position depends on nothing else']
    ctx.floor('scenarios', done, 15)

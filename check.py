#!/usr/bin/env python3
"""check.py <property> : decide one property of /repo's current sources by static analysis.

exit 0  the property held on everything analysed (listed known findings are printed)
exit 1  a violation that is not listed was found
exit 2  the analysis could not be carried out
"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa.program import AnalysisBroken  # noqa: E402


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.found = {}          # key -> record
        self.coverage = {}
        self.samples = []
        self.assumptions = []
        self.explanation = ''

    def violation(self, rule, construct, text, loc=''):
        """construct: stable name of what breaks the rule (no line numbers)"""
        key = '%s|%s' % (rule, construct)
        if key not in self.found:
            self.found[key] = {'rule': rule, 'construct': construct, 'text': text, 'at': loc}

    def count(self, name, n=1):
        self.coverage[name] = self.coverage.get(name, 0) + n

    def sample(self, text, limit=40):
        if len(self.samples) < limit:
            self.samples.append(text)

    def floor(self, what, n, least):
        """the rule has to apply to something"""
        self.coverage[what] = n
        if n < least:
            raise AnalysisBroken('%s: only %d found, at least %d expected' % (what, n, least))


def known(pid):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            if line.startswith('finding: property=%s key=' % pid):
                key, _, text = line.split(' key=', 1)[1].partition(' :: ')
                out[key.strip()] = text.strip()
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t = time.time()
    ctx = Ctx(pid, tier)
    broken = None
    try:
        mod = importlib.import_module('checks.' + pid.lower())
        mod.run(ctx)
    except AnalysisBroken as e:
        broken = str(e)
    except (Exception, RecursionError):
        broken = 'internal: ' + traceback.format_exc()[-600:].replace('\n', ' / ')
    listed = known(pid)
    new = [v for k, v in ctx.found.items() if k not in listed]
    old = [(k, v) for k, v in ctx.found.items() if k in listed]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': dict(ctx.coverage, explanation=ctx.explanation or (mod.__doc__ or '').strip(), samples=ctx.samples,
                         known_findings=[k for k, _ in old], findings=[v for v in new]),
        'assumptions': ctx.assumptions, 'wall_s': round(time.time() - t, 2), 'violations': len(new),
    }
    if broken:
        ev['coverage']['analysis_broken'] = broken
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', pid + '.json')
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    for k, v in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, listed[k] or v['text']))
    for v in new:
        print('%s: %s [%s] %s' % (v['at'] or '-', v['rule'], v['construct'], v['text']))
    if new:
        print('VIOLATION property=%s replay=evidence/%s.json' % (pid, pid))
        return 1
    if broken:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, broken))
        return 2
    print('OK property=%s %s' % (pid, ', '.join('%s=%s' % (k, v) for k, v in ctx.coverage.items() if isinstance(v, int))))
    return 0


if __name__ == '__main__':
    sys.exit(main())

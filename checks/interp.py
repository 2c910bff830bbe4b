"""Run the abstract interpreter over several entry points in parallel."""
import multiprocessing
import os
import signal
import sys
import traceback

from sa import program, absint

_prog = None
_jobs = None


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def _one(i):
    fn, job, limit = _jobs[i]
    sys.setrecursionlimit(20000)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return i, fn(_prog, job), None
    except Timeout:
        return i, None, 'time limit of %d s' % limit
    except program.AnalysisBroken as e:
        return i, None, 'broken: %s' % e
    except Exception:
        return i, None, 'internal: ' + traceback.format_exc()[-400:]
    finally:
        signal.alarm(0)


def run(sources, jobs, limit=240):
    """jobs: [(fn, job)]; fn(prog, job) -> picklable.  -> [(job, result or None, problem or None)]"""
    global _prog, _jobs
    _prog = program.Program(sources)
    _jobs = [(fn, job, limit) for fn, job in jobs]
    out = [None] * len(jobs)
    n = min(8, os.cpu_count() or 4, max(1, len(jobs)))
    mp = multiprocessing.get_context('fork')
    with mp.Pool(n, maxtasksperchild=8) as pool:
        for i, res, why in pool.imap_unordered(_one, range(len(jobs))):
            out[i] = (jobs[i][1], res, why)
    return out


def settle(ctx, results, least):
    """note what could not be analysed; at least `least` entry points have to be"""
    bad = ['%s: %s' % (j, w) for j, r, w in results if r is None]
    if bad:
        ctx.coverage['not_analysed'] = bad
    ctx.floor('entry_points', sum(1 for j, r, w in results if r is not None), least)

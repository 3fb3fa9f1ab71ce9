"""Parallel obligations for the protocol checks."""
import os, sys, time, multiprocessing as mp, traceback
sys.setrecursionlimit(100000)
import poly, vn, absint
from vc import Fail
_TASKS = []
def _one(i):
    key, where, fn = _TASKS[i]
    t = time.time()
    absint.SITES.clear()
    try:
        return i, True, fn(), time.time() - t, dict(absint.SITES)
    except Exception as e:
        n = type(e).__name__
        if os.environ.get('VC_DEBUG') and n != 'Fail':
            traceback.print_exc()
        return i, False, str(e) if n == 'Fail' else 'could not be decided (%s: %s)' % (n, str(e)[:600]), time.time() - t, {}

def par(c, tasks, workers=8, chunk=1):
    """Obligations (key, where, fn) decided in forked processes; fn may return a list of (key, where, ok, detail) instead."""
    global _TASKS
    _TASKS = tasks
    if not tasks:
        return
    with mp.get_context('fork').Pool(min(workers, len(tasks)), maxtasksperchild=None) as pool:
        res = sorted(pool.imap_unordered(_one, range(len(tasks)), chunk), key=lambda x: x[0])
    for i, ok, d, s, cov in res:
        for k, v in cov.items():
            absint.merge_site(k, v)
        key, where, _ = tasks[i]
        if ok and isinstance(d, list):
            for k2, w2, ok2, d2 in d:
                c.obs.append((k2, w2, ok2, d2, s / max(1, len(d))))
                trace(k2, ok2, d2, s)
        else:
            c.obs.append((key, where, ok, d, s))
            trace(key, ok, d, s)

def trace(key, ok, d, s):
    if os.environ.get('VC_TRACE') and (not ok or os.environ['VC_TRACE'] != '0'):
        print('%s %s %s %.2fs' % ('ok  ' if ok else 'FAIL', key, str(d)[:200 if ok else 600], s), flush=True)

QUICK = [('SNARK', (16, 8, 3)), ('NIZK', (32, 4, 2)), ('NIZK', (4, 32, 2)), ('NIZK', (4, 4, 2)), ('NIZK', (2, 2, 1)), ('NIZK', (8, 2, 0)), ('NIZK', (4, 3, 1, 0, 3)),
         ('SNARK', (4, 4, 2)), ('SNARK', (2, 8, 0)), ('SNARK', (5, 3, 2)), ('SNARK', (8, 4, 3)), ('SNARK', (4, 16, 1)),
         ('NIZK', (4, 4, 4)), ('SNARK', (4, 4, 4)), ('NIZK', (2, 16, 1)), ('NIZK', (8, 8, 7)), ('NIZK', (16, 4, 3)),
         ('SNARK', (64, 32, 3)), ('SNARK', (16, 64, 2)), ('NIZK', (256, 16, 2)), ('NIZK', (64, 64, 63)), ('NIZK', (16, 256, 5)), ('NIZK', (128, 100, 20)), ('NIZK', (100, 5, 1))]
DEEP = [('NIZK', (1024, 64, 5)), ('NIZK', (32, 1024, 3)), ('SNARK', (256, 128, 10)), ('SNARK', (512, 20, 1)), ('NIZK', (600, 700, 64))]
REAL = [('NIZK', (8192, 8192, 5))]       # the size of the membership circuits
def shapes(tier, real=True):
    return (REAL if real and tier == 'thorough' else []) + QUICK + (DEEP if tier == 'thorough' else [])
def setup(kind, a):
    import spartan
    return spartan.Setup(spartan.Shape(*a), kind == 'SNARK')
def sname(kind, a):
    return '%s %s' % (kind, ','.join(map(str, a)))

"""Shape analysis: the verifier is interpreted on proofs all of whose parts are unknown and in which one vector (in the
thorough tier also pairs of vectors) has another length than the statement fixes.  Its acceptance condition must be
identically false: for no content of the proof does it return success.  Returning an error and stopping with a panic both
count as rejection.  The statement side (number of public inputs) is varied in the same way."""
import re
import vn, poly
from vc import Fail
from poly import P
from absint import Diverge
from proto import outcome, describe, atoms_in
from pcheck import par, setup, sname
from p07 import ASSUME

def generic(path):
    return re.sub(r'\[\d+\]', '[*]', path)

def rejects(su, change, ia=None):
    pf = su.proof(change=change)
    try:
        r, _, _ = su.verify(pf, ia)
    except Diverge:
        return None
    acc = outcome(su.it, r)
    if isinstance(acc, int) and acc == 0:
        return None
    return acc

def run(c):
    thorough = c.tier == 'thorough'
    shp = [('NIZK', (4, 4, 2)), ('NIZK', (8, 2, 0)), ('SNARK', (4, 4, 2))] + ([('NIZK', (2, 2, 1)), ('NIZK', (16, 8, 3)), ('SNARK', (8, 2, 0))] if thorough else [])
    fn = {'NIZK': 'packages/Spartan-secq/src/lib.rs NIZK::verify', 'SNARK': 'packages/Spartan-secq/src/lib.rs SNARK::verify'}
    tasks = []
    for kind, a in shp:
        su = setup(kind, a)
        seen = {}
        su.proof(seen=seen)
        if not seen:
            raise Fail('the proof has no vectors')
        groups = {}
        for path, n in seen.items():
            groups.setdefault(generic(path), []).append(path)
        def one(su, path, m, n):
            def f():
                k = rejects(su, {path: m})
                if k is not None:
                    raise Fail('a proof whose %s has %d entries instead of %d is accepted (%s)' % (path, m, n, 'always' if isinstance(k, int) else 'under %d tests' % len(atoms_in(k))))
                return 'rejected'
            return f
        for g, paths in groups.items():
            pick = paths if thorough else sorted({paths[0], paths[len(paths) // 2], paths[-1]})
            for path in pick:
                n = seen[path]
                ms = {n + 1, n - 1, 0, 2 * n} if thorough else {n + 1, n - 1, 0}
                for m in sorted(x for x in ms if x >= 0 and x != n):
                    tasks.append(('%s/%s/%d' % (sname(kind, a), path, m - n), fn[kind] + ' (' + g + ')', one(su, path, m, n)))
        # two vectors whose lengths compensate
        pairs = []
        same = {}
        for path in seen:
            parent = re.sub(r'(\.\w+|\[\d+\])$', '', path)
            same.setdefault(parent, []).append(path)
            same.setdefault(re.sub(r'(\.\w+|\[\d+\])$', '', parent) + '..', []).append(path)
        for ps in same.values():
            for i in range(len(ps)):
                for j in range(len(ps)):
                    if i != j and (thorough or abs(i - j) <= 1) and len(ps) <= 12:
                        pairs.append((ps[i], ps[j]))
        def two(su, p1, m1, p2, m2):
            def f():
                k = rejects(su, {p1: m1, p2: m2})
                if k is not None:
                    raise Fail('a proof whose %s and %s have %d and %d entries is accepted' % (p1, p2, m1, m2))
                return 'rejected'
            return f
        for x, y in sorted(set(pairs)):
            if seen[y] >= 1:
                tasks.append(('%s/%s+1,%s-1' % (sname(kind, a), x, y), fn[kind], two(su, x, seen[x] + 1, y, seen[y] - 1)))
            if x < y:
                tasks.append(('%s/%s+1,%s+1' % (sname(kind, a), x, y), fn[kind], two(su, x, seen[x] + 1, y, seen[y] + 1)))
                if seen[x] >= 1 and seen[y] >= 1:
                    tasks.append(('%s/%s-1,%s-1' % (sname(kind, a), x, y), fn[kind], two(su, x, seen[x] - 1, y, seen[y] - 1)))
        import spartan
        def inp(su, d):
            def f():
                n = su.sh.ni + d
                ia = spartan.assign(su.it, [vn.var('x%d' % i) for i in range(n)])
                k = rejects(su, {}, ia)
                if k is not None:
                    raise Fail('accepted with %d public inputs instead of %d' % (n, su.sh.ni))
                return 'rejected'
            return f
        for d in (-1, 1, su.sh.ni):
            if su.sh.ni + d >= 0 and d:
                tasks.append(('%s/public inputs/%+d' % (sname(kind, a), d), fn[kind], inp(su, d)))
        c.count('vectors of the proof', len(seen))
    par(c, tasks, chunk=4)
    c.assumptions += ASSUME + ['decided for the listed statement shapes and length changes']
    return __doc__

"""Randomness-effect analysis of the prover.  Interpreting it on an unknown witness yields every proof message together with
its derivative with respect to the random values drawn.  Every one of those values comes from a generator seeded with at
least 240 bits of operating-system entropy drawn in this very proof.  The masking is complete exactly when the rank of that
Jacobian equals the number of messages minus the number of relations the verifier tests (computed from the reference
verifier): a constant, reused, dropped or wrongly combined blinding value lowers the rank.  Two proofs made one after the
other share no random value, and the verifier draws none."""
import corescalar
import os, vc, vn, poly
from vc import Fail
from absint import S, E, R
from vn import V, G, Cg
from proto import get, fields, tid, Spec
from pcheck import par, shapes, setup, sname
from p07 import ASSUME

def leaves(su, v, t, path, out):
    p = su.p
    if isinstance(v, (V, Cg, G)):
        out.append((path, v))
        return out
    if isinstance(v, R):
        return leaves(su, su.it.load(v), t, path, out)
    ty = p.types[t]
    if not isinstance(v, S):
        raise Fail('%s: a part the analysis does not know (%s)' % (path, type(v).__name__))
    k = ty['k']
    if k == 'adt' and (ty['n'].endswith('::Vec') or isinstance(v.t, str)):
        for i, x in enumerate(v.f):
            leaves(su, x, ty['a'][0], '%s[%d]' % (path, i), out)
    elif k == 'adt':
        for (n, ft), x in zip(fields(p, v.t), v.f):
            leaves(su, x, ft, path + '.' + n if path else n, out)
    else:
        for i, x in enumerate(v.f):
            leaves(su, x, ty['f'][i] if k in ('tuple', 'tup') else ty['e'], '%s.%d' % (path, i) if k != 'array' else '%s[%d]' % (path, i), out)
    return out

def reduce_rows(rows, p):
    piv, dep = {}, []
    for n, row in enumerate(rows):
        row = dict(row)
        while row:
            c = min(row)
            if c in piv:
                f = row[c]
                for k, w in piv[c].items():
                    t = (row.get(k, 0) - f * w) % p
                    if t: row[k] = t
                    else: row.pop(k, None)
            else:
                i = pow(row[c], -1, p)
                piv[c] = {k: w * i % p for k, w in row.items()}
                break
        else:
            dep.append(n)
    return len(piv), dep

class Count(Spec):
    """collects the relations by message group instead of testing them"""
    def __init__(self, log):
        Spec.__init__(self, log)
        self.rel = []
    def geq(self, a, b, name):
        self.rel.append((name, a.d == b.d))
    def veq(self, a, b, name):
        self.rel.append((name, a.d == b.d))

def run(c):
    fn = {'NIZK': 'packages/Spartan-secq/src/lib.rs NIZK::prove', 'SNARK': 'packages/Spartan-secq/src/lib.rs SNARK::prove'}
    fv = {k: v.replace('prove', 'verify') for k, v in fn.items()}
    def blinding(kind, a):
        def f():
            import spartan
            out = []
            su = setup(kind, a)
            su.it.seeds = []
            pf, _, _, _ = su.prove()
            ls = leaves(su, pf, tid(su.p, 'libspartan::' + kind), '', [])
            r, _, log = su.verify(pf)
            drew = su.drew
            old, spartan.Spec = spartan.Spec, Count
            try:
                rel = su.spec(pf, log).rel
            finally:
                spartan.Spec = old
            key = lambda x: '%s/%s' % (x, sname(kind, a))
            # groups of messages that must be fully masked, with the relations over them
            sat = [l for l in ls if l[0].startswith('r1cs_sat_proof.')]
            pre = [n for n, _ in rel]
            evalrel = ('row memory', 'col memory', 'matrix', 'operations layer', 'memory layer', 'claimed evaluation point')
            groups = [('satisfiability proof', sat, [n for n in pre if not n.startswith(evalrel) and not n.startswith(('opening of the dereferenced', 'opening of the operations', 'opening of the final'))])]
            if kind == 'SNARK':
                b = 'r1cs_eval_proof.proof.poly_eval_network_proof.proof_hash_layer.'
                for pp, nm in (('proof_ops', 'opening of the operations'), ('proof_mem', 'opening of the final timestamps'), ('proof_derefs', 'opening of the dereferenced values')):
                    groups.append((nm, [l for l in ls if l[0].startswith(b + pp + '.')], [n for n in pre if n.startswith(nm)]))
            p = vn.p
            for nm, g, rl in groups:
                if not g or not rl:
                    out.append((key('masking of the ' + nm), fn[kind], False, 'no messages or relations found'))
                    continue
                bad = [d for _, v in g for d in v.d if not d.startswith(('tape:', 'os:'))]
                # within one group relations first: a message determined by the relations is not independent
                const = [q for q, v in g if not v.d]
                rank, dep = reduce_rows([v.d for _, v in g], p)
                want = len(g) - len(rl)
                msg = None
                if const:
                    msg = 'not masked by any random value: %s' % ', '.join(const[:6])
                elif bad:
                    msg = 'depends on %s' % bad[0]
                elif rank < want:
                    msg = '%d messages under %d relations carry only %d independent random values; determined by the others: %s' % (len(g), len(rl), rank, ', '.join(g[i][0] for i in dep)[:700])
                out.append((key('masking of the ' + nm), fn[kind], msg is None, msg or '%d messages, %d relations, rank %d' % (len(g), len(rl), rank)))
            # entropy of the generators
            seeds = su.it.seeds
            low = [s for s in seeds if sum(int(n.rsplit('/', 1)[1]) for n in s) < 240]
            used = {d for _, v in ls for d in v.d}
            ok = not low and used and (seeds or all(d.startswith('os:') for d in used))
            out.append((key('entropy'), 'packages/Spartan-secq/src/random.rs RandomTape::new', bool(ok), '%d generators seeded, smallest seed %s bits' % (len(seeds), min([sum(int(n.rsplit('/', 1)[1]) for n in s) for s in seeds] or [0]))))
            # every generator used is seeded in this proof; a second proof shares nothing
            su.it.seeds = []
            pf2, _, _, _ = su.prove()
            ls2 = leaves(su, pf2, tid(su.p, 'libspartan::' + kind), '', [])
            used2 = {d for _, v in ls2 for d in v.d}
            sh = used & used2
            out.append((key('freshness'), fn[kind], not sh and bool(used2), 'two proofs share %d random values' % len(sh) if sh else '%d and %d random values, none shared' % (len(used), len(used2))))
            out.append((key('verifier'), fv[kind], drew == 0, 'the verifier draws randomness' if drew else 'draws no randomness'))
            return out
        return f
    par(c, [('blinding/%s' % sname(k, a), fn[k], blinding(k, a)) for k, a in shapes(c.tier, False)])
    import tsglue
    corescalar.sampling(c)
    c.ob('source/browser', 'packages/lib/src/wasm/wasm.js __wbg_getRandomValues, __wbg_randomFillSync', lambda: tsglue.check_entropy(c, os.path.join(vc.REPO, 'packages/lib/src')))
    c.assumptions += ASSUME + ['the operating system source and the transcript-based generator are ideal']
    return __doc__

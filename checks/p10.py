"""(a) The acceptance condition of the verifier on an unknown proof is exactly the conjunction of the protocol's relations,
written independently as group and field terms over the proof's parts, the code's own challenges and the statement (equal
terms have equal values under random evaluation in the field and in an independent-generator representation of the group).
(b) The verifier interpreted on the proof the prover computes for an unknown satisfying assignment accepts: every relation
holds identically in the coefficients, the assignment, the randomness and the challenges (except for challenges that are
zero, which have no inverse)."""
import vn, poly
from vc import Fail
from poly import P
from proto import outcome, compare, Spec, atoms_in, describe
from pcheck import par, shapes, setup, sname
from p07 import ASSUME

def run(c):
    fn = {'NIZK': 'packages/Spartan-secq/src/lib.rs NIZK::verify', 'SNARK': 'packages/Spartan-secq/src/lib.rs SNARK::verify'}
    fnp = {k: v.replace('::verify', '::prove, ') + v.split(' ')[1] for k, v in fn.items()}
    def exact(kind, a):
        def f():
            su = setup(kind, a)
            pf = su.proof()
            r, _, log = su.verify(pf)
            return '%d relations, exactly those prescribed' % compare(su.it, r, su.spec(pf, log))
        return f
    def honest(kind, a):
        def f():
            su = setup(kind, a)
            pf, _, _, pan = su.prove()
            r, _, log = su.verify(pf)
            sp = su.spec(pf, log)
            acc = outcome(su.it, r)
            nz = {q: 0 for q in sp.nz}
            k = poly.subst(acc, nz) if isinstance(acc, P) else acc
            if not (isinstance(k, int) and k == 1):
                bad = sorted(sp.eqs[q] if q in sp.eqs else describe(q) for q in atoms_in(k)) if isinstance(k, P) else ['always']
                raise Fail('an honest proof is rejected: %s' % '; '.join(bad[:4]))
            for g, cond, why, where in pan:
                ok = poly.sub(1, poly.mul(g, poly.bnot(cond)))
                k = poly.subst(ok, nz) if isinstance(ok, P) else ok
                if not (isinstance(k, int) and k == 1):
                    raise Fail('the honest prover may panic: %s at %s' % (why, where))
            return 'accepted for every satisfying assignment'
        return f
    sh = shapes(c.tier)
    par(c, [('exact/%s' % sname(k, a), fn[k], exact(k, a)) for k, a in sh] + [('honest/%s' % sname(k, a), fnp[k], honest(k, a)) for k, a in sh])
    c.assumptions += ASSUME + ['identities are decided by evaluation at random points of a 256-bit field (Schwartz-Zippel error below 2^-200)']
    return __doc__

"""The verifier is interpreted on a proof all of whose parts are unknown; the condition under which it returns success without
panicking is computed as a Boolean polynomial over the equality tests it makes.  For every relation the protocol prescribes
the condition must vanish once that relation is set to false: no path accepts with the relation violated, whatever the
other tests give."""
import vn, poly
from vc import Fail
from poly import P
from proto import outcome
from pcheck import par, shapes, setup, sname
from p07 import ASSUME

def run(c):
    fn = {'NIZK': 'packages/Spartan-secq/src/lib.rs NIZK::verify', 'SNARK': 'packages/Spartan-secq/src/lib.rs SNARK::verify'}
    def one(kind, a):
        def f():
            su = setup(kind, a)
            pf = su.proof()
            r, _, log = su.verify(pf)
            sp = su.spec(pf, log)
            acc = outcome(su.it, r)
            if isinstance(acc, int) and acc == 0:
                raise Fail('no proof is ever accepted')
            out = []
            for q, name in sp.eqs.items():
                k = poly.subst(acc, {q: 0}) if isinstance(acc, P) else acc
                ok = isinstance(k, int) and k == 0
                out.append(('%s/%s' % (sname(kind, a), name), fn[kind], ok, 'necessary for acceptance' if ok else 'a proof violating this relation can be accepted'))
            c2 = [x for x in out if not x[2]]
            return out
        return f
    par(c, [('accept/%s' % sname(k, a), fn[k], one(k, a)) for k, a in shapes(c.tier)])
    c.assumptions += ASSUME
    return __doc__

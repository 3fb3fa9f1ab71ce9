"""The verifier is interpreted on a proof all of whose parts are unknown.  For every challenge it draws, the history of the
transcript at that point is compared with what the protocol requires to be bound by then: the statement (digest of the
instance, or sizes and commitments of the computation commitment), the public inputs, and every earlier message of the
proof, compared by value.  The digest itself is shown to depend on every entry of the instance: any change of a row,
a column, a coefficient or a dimension changes it."""
import vn, spartan
from vc import Fail
from spartan import Shape, entries, payload, get
from proto import new_interp, prog
from absint import Diverge, S
from proto import fields
from pcheck import par, shapes, setup, sname
from p07 import ASSUME

def run(c):
    def one(kind, a):
        def f():
            su = setup(kind, a)
            pf = su.proof()
            r, _, log = su.verify(pf)
            sp = su.spec(pf, log)
            if sp.next != len(sp.challenges):
                raise Fail('the code draws %d challenges, the protocol %d' % (len(sp.challenges), sp.next))
            if sp.missing:
                seen, out = set(), []
                for n, label, what in sp.missing:
                    if what not in seen:
                        seen.add(what)
                        out.append('challenge %d ("%s") is drawn before "%s" is absorbed' % (n, label, what))
                raise Fail('; '.join(out[:5]))
            return '%d challenges, %d values required to be bound' % (len(sp.challenges), len(sp.need))
        return f
    fn = {'NIZK': 'packages/Spartan-secq/src/lib.rs NIZK::verify', 'SNARK': 'packages/Spartan-secq/src/lib.rs SNARK::verify'}
    par(c, [('bound/%s' % sname(k, a), fn[k], one(k, a)) for k, a in shapes(c.tier)])
    # ---- the statement of a computation commitment: every part of it, by single changes
    class Stop(Exception): pass
    class Log(list):
        def append(self, e):
            if e[0] == 'challenge': raise Stop()
            list.append(self, e)
    def prefix(su, pf, comm):
        """what is absorbed before the first challenge; None if there is none"""
        it = su.it
        it.vlog, it.panics = Log(), []
        try: it.callfn('libspartan::SNARK::verify', [it.ref(pf), it.ref(comm), it.ref(su.ia), it.ref(vn.new_transcript(b'x', True)), it.ref(su.gens)])
        except Stop: return tuple(it.vlog)
        except Diverge: pass
        return None
    def changes(v, path=''):
        if isinstance(v, bool): return
        if isinstance(v, int): yield path, 2 * v if v else 1
        elif isinstance(v, (vn.Cg, vn.G)): yield path, vn.cvar('another') if isinstance(v, vn.Cg) else vn.gvar('another')
        elif isinstance(v, S):
            adt = not isinstance(v.t, str) and prog().types[v.t]['k'] == 'adt' and not prog().types[v.t]['n'].endswith('::Vec')
            names = [n for n, _ in fields(prog(), v.t)] if adt else ['[%d]' % i for i in range(len(v.f))]
            for i, x in enumerate(v.f):
                for q, y in changes(x, path + ('.' if adt else '') + names[i]): yield q, S(v.t, v.f[:i] + (y,) + v.f[i + 1:])
        else: raise Fail('%s: a part of the commitment the analysis does not know (%s)' % (path, type(v).__name__))
    def stmt():
        su = setup('SNARK', (4, 4, 2))
        pf = su.proof()
        p0 = prefix(su, pf, su.comm)
        if p0 is None: raise Fail('no challenge is drawn')
        n = r = 0
        for path, v in changes(su.comm):
            q = prefix(su, pf, v)
            n += 1
            if q is None: r += 1
            elif q == p0: raise Fail('the first challenge does not depend on %s of the computation commitment' % path.strip('.'))
        return '%d single changes of the commitment, %d rejected at once' % (n, r)
    c.ob('statement/SNARK', fn['SNARK'], stmt)
    # ---- the instance digest
    def digest(nc, nv, ni, A, B, C):
        it = new_interp()
        inst = payload(it.callfn('libspartan::Instance::new', [nc, nv, ni, entries(it, A), entries(it, B), entries(it, C)]))[0]
        return tuple(vn.message(list(get(prog(), inst, 'digest').f)))
    v = [vn.var('k%d' % i) for i in range(6)]
    base = (4, 4, 1, [(0, 0, v[0]), (1, 5, v[1])], [(2, 4, v[2])], [(3, 1, v[3])])
    def dig():
        d0 = digest(*base)
        if digest(*base) != d0:
            raise Fail('the digest of one instance is not determined by it')
        def ch(i, j, e):
            x = list(base)
            l = list(x[i]); l[j] = e; x[i] = l
            return x
        n = 0
        vs = []
        for i in (3, 4, 5):
            for j, (r, cc, k) in enumerate(base[i]):
                vs += [('row', ch(i, j, ((r + 1) % 4, cc, k))), ('column', ch(i, j, (r, (cc + 1) % 4, k))), ('coefficient', ch(i, j, (r, cc, v[5])))]
            x = list(base); x[i] = x[i][:-1]
            vs.append(('missing entry', x))
        x = list(base); x[3], x[4] = x[4], x[3]
        vs.append(('order of the matrices', x))
        vs.append(('number of constraints', (8,) + base[1:]))
        vs.append(('number of variables', (4, 8, 1) + base[3:]))
        vs.append(('number of inputs', (4, 4, 2) + base[3:]))
        for what, x in vs:
            if digest(*x) == d0:
                raise Fail('the digest does not depend on the %s' % what)
        return '%d single changes of an instance change its digest' % len(vs)
    c.ob('digest', 'packages/Spartan-secq/src/r1csinstance.rs R1CSInstance::get_digest, packages/Spartan-secq/src/lib.rs Instance::new', dig)
    c.assumptions += ASSUME + ['bincode and zlib encodings are injective']
    return __doc__

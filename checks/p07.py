"""For each proof system and each statement shape the prover is interpreted on an unknown instance, an unknown witness and
unknown randomness, and the verifier on the proof it returns; both record every transcript operation with its label and the
identity of the value (a hash of its defining term).  The two operation lists must be equal, element by element, and the
final transcript states must agree; no operation may depend on data that only one of them has."""
import vn
from vc import Fail
from pcheck import par, shapes, setup, sname

def show(e):
    k, label, x = e
    l = label.decode('latin1') if isinstance(label, bytes) else str(label)
    return '%s "%s"' % (k, l)
def ident(e):
    k, label, x = e
    return (k, label, tuple(x) if k == 'append' else None)

def run(c):
    def one(kind, a):
        def f():
            su = setup(kind, a)
            pf, tr, log, pan = su.prove()
            r, tr2, log2 = su.verify(pf)
            for i, (x, y) in enumerate(zip(log, log2)):
                if ident(x) != ident(y):
                    prev = ' after %s' % show(log[i - 1]) if i else ''
                    raise Fail('operation %d%s: the prover does %s, the verifier %s%s' % (i, prev, show(x), show(y), ' of another value' if x[:2] == y[:2] else ''))
                if x[0] == 'challenge' and x[2].v != y[2].v:
                    raise Fail('operation %d: challenge "%s" differs' % (i, x[1]))
            if len(log) != len(log2):
                who, l = ('prover', log) if len(log) > len(log2) else ('verifier', log2)
                raise Fail('only the %s does %s (operation %d)' % (who, show(l[min(len(log), len(log2))]), min(len(log), len(log2))))
            if not any(e[0] == 'challenge' for e in log):
                raise Fail('no challenge is drawn')
            if tr.alts[0][1].dig != tr2.alts[0][1].dig:
                raise Fail('the transcripts end in different states')
            return '%d operations, %d challenges' % (len(log), sum(e[0] == 'challenge' for e in log))
        return f
    fn = {'NIZK': 'packages/Spartan-secq/src/lib.rs NIZK::prove / NIZK::verify', 'SNARK': 'packages/Spartan-secq/src/lib.rs SNARK::prove / SNARK::verify'}
    par(c, [('transcript/%s' % sname(k, a), fn[k], one(k, a)) for k, a in shapes(c.tier)])
    c.assumptions += ASSUME
    return __doc__
ASSUME = ['decided for the listed statement shapes (numbers of variables, constraints and inputs); at each shape for all coefficients, witnesses, inputs and random choices',
          'merlin transcripts are injective: different sequences of operations give different states (random-oracle idealisation); challenges are compared by history',
          'field and group operations are the exact ones (decided under P01, P03 and by k256 / primeorder)']

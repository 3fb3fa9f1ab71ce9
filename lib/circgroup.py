"""The group law of y^2 = x^3 + 7 over F_p as an oracle for the point templates."""
from circom import P, elab
from circalg import Ring, Case, flatten, solve, monic
from vc import Fail

def curve_facts():
    """no point has x = 0 or y = 0: 7 is no square and -7 no cube"""
    if pow(7, (P - 1) // 2, P) != P - 1: raise Fail('7 is a square: points with x = 0 exist')
    if (P - 1) % 3 or pow(P - 7, (P - 1) // 3, P) == 1: raise Fail('-7 is a cube: points with y = 0 exist')

def cases(which):
    R = Ring()
    V, C, A, M = R.var, R.const, R.add, R.mul
    xP, yP, xQ, yQ = (V(n) for n in ('xP', 'yP', 'xQ', 'yQ'))
    cub = lambda x: A(M(M(x, x), x), C(7))
    R.sq = {'yP': cub(xP), 'yQ': cub(xQ)}
    one = C(1)
    def frac(n, d): return (n, d)
    def fr(R=R):
        add = lambda a, b, k=1: (A(M(a[0], b[1]), M(b[0], a[1]), k), M(a[1], b[1]))
        mul = lambda a, b: (M(a[0], b[0]), M(a[1], b[1]))
        return add, mul
    add, mul = fr()
    w = lambda p: (p, one)
    def line(l, x1, y1, x2):
        x = add(add(mul(l, l), w(x1), -1), w(x2), -1)
        return [x, add(mul(l, add(w(x1), x, -1)), w(y1), -1)]
    chord = lambda: line((A(yQ, yP, -1), A(xQ, xP, -1)), xP, yP, xQ)
    tang = lambda: line((M(C(3), M(xP, xP)), M(C(2), yP)), xP, yP, xP)
    z = {}
    neg = lambda p: M(C(-1), p)
    pts = {
        'P + Q, xP != xQ': ([xP, yP, xQ, yQ], [A(xP, xQ, -1), xP, yP, xQ, yQ], chord),
        'P + P': ([xP, yP, xP, yP], [xP, yP], tang),
        'P + (-P)': ([xP, yP, xP, neg(yP)], [xP, yP], lambda: [w(z), w(z)]),
        'O + Q': ([z, z, xQ, yQ], [xQ, yQ], lambda: [w(xQ), w(yQ)]),
        'P + O': ([xP, yP, z, z], [xP, yP], lambda: [w(xP), w(yP)]),
        'O + O': ([z, z, z, z], [], lambda: [w(z), w(z)]),
        '2P': ([xP, yP], [xP, yP], tang),
    }
    return [Case(n, R, pts[n][0], pts[n][1], pts[n][2]) for n in which]

COMPLETE = ['P + Q, xP != xQ', 'P + P', 'P + (-P)', 'O + Q', 'P + O', 'O + O']
TEMPL = {'Secp256k1AddIncomplete': ('eff_ecdsa_membership/secp256k1/add.circom', COMPLETE[:1], ['xP', 'yP', 'xQ', 'yQ']),
         'Secp256k1AddComplete': ('eff_ecdsa_membership/secp256k1/add.circom', COMPLETE, ['xP', 'yP', 'xQ', 'yQ']),
         'Secp256k1Double': ('eff_ecdsa_membership/secp256k1/double.circom', ['2P'], ['xP', 'yP'])}

def system(name):
    f, cs, ins = TEMPL[name]
    I = elab(f).inst(name, [])
    if {n for n, (k, _) in I.names.items() if k == 'input'} != set(ins) or [n for n, (k, _) in I.names.items() if k == 'output'] != ['outX', 'outY']:
        raise Fail('the signals of %s are not %s, outX, outY' % (name, ', '.join(ins)))
    fl = flatten(I)
    order = [I.names[n][1] for n in ins]
    m = dict(zip(I.ids('input'), fl[2]))
    return (fl[0], fl[1], [m[i] for i in order], fl[3], fl[4])

def analyse(name, case, f):
    """f(case, solver, outputs) for every subcase"""
    fl = system(name)
    n = 0
    for c in cases(TEMPL[name][1]):
        if c.name != case: continue
        for cc, s, r in solve(fl, c):
            f(cc, s, r); n += 1
    return n

def law(case, s, r):
    """outputs determined and equal to the group law"""
    if r is None: raise Fail('case %s: no witness satisfies the constraints' % case.name)
    for nm, got, want in zip(('outX', 'outY'), r, case.spec()):
        R = case.R
        d = R.red(R.add(R.mul(got[0], want[1]), R.mul(want[0], got[1]), -1))
        if d and any(v in s.unk for m in d for v, e in m):
            raise Fail('case %s: %s depends on %s, which the prover may choose' % (case.name, nm, ', '.join(sorted({s.nm(v) for m in d for v, e in m if v in s.unk}))))
        if d:
            raise Fail('case %s: %s is not the coordinate of the sum' % (case.name, nm))

def forced(case, s, r):
    """outputs contain no value the prover may choose"""
    if r is None: return
    for nm, got in zip(('outX', 'outY'), r):
        us = {s.nm(v) for m in got[0] for v, e in m if v in s.unk}
        if us: raise Fail('case %s: %s depends on %s, which the prover may choose' % (case.name, nm, ', '.join(sorted(us))))

def honest(case, s, r):
    """what the witness generator assigns satisfies the constraints"""
    if r is None: raise Fail('case %s: no witness satisfies the constraints' % case.name)
    for u, t in s.hints.items():
        want = (s.solved or {}).get(u)
        if want is None: continue
        h = s.hint_value(t)
        R = case.R
        d = R.red(R.add(R.mul(h[0], want[1]), R.mul(want[0], h[1]), -1))
        if d: raise Fail('case %s: the value assigned to %s does not satisfy the constraints' % (case.name, s.nm(u)))

"""Constants: every field, curve and generator constant is read from the compiled program (constant evaluation, or
abstract interpretation of the function returning it), turned into the number it denotes and compared with the value its
definition prescribes (2^k mod p, exact 2-adicity, element orders against the factorisation of p-1, curve equation,
prime group order by scalar multiplication in Python)."""
import re
import corescalar, montparams
import mir, poly, fields, mdom
from absint import Interp, S, E
from fields import FTS, P_SECP, N_SECP, deref
from vc import Fail

FACTORS = {P_SECP: [2, 3, 7, 13441, 205115282021455665897114700593932402728804164701536103180137503955397371],
           N_SECP: [2, 3, 149, 631, 107361793816595537, 174723607534414371449, 341948486974166000522343609283189]}
GX = 0x76c39f5585cb160eb6b06c87a2ce32e23134e45a097781a6a24288e37702eda6
GY = 0x3ffc646c7b2918b5dc2d265a8e82a7f7d18983d26e8dc055a4120ddad952677f
B = 7

def two_adic(p):
    s, t = 0, p - 1
    while t % 2 == 0:
        s, t = s + 1, t // 2
    return s

def factors_ok(p):
    n = p - 1
    for q in FACTORS[p]:
        if n % q:
            raise Fail('internal: factor table')
        while n % q == 0:
            n //= q
    if n != 1:
        raise Fail('internal: factor table incomplete')

# affine arithmetic on y^2 = x^3 + B over F_q
def ec_add(P, Q, q):
    if P is None:
        return Q
    if Q is None:
        return P
    if P[0] == Q[0]:
        if (P[1] + Q[1]) % q == 0:
            return None
        l = 3 * P[0] * P[0] * pow(2 * P[1], -1, q) % q
    else:
        l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, q) % q
    x = (l * l - P[0] - Q[0]) % q
    return x, (l * (P[0] - x) - P[1]) % q
def ec_mul(k, P, q):
    R = None
    while k:
        if k & 1:
            R = ec_add(R, P, q)
        P = ec_add(P, P, q)
        k >>= 1
    return R

def ints(v):
    """flatten to a list of machine words"""
    if isinstance(v, int):
        return [v]
    if isinstance(v, dict):
        for k in ('arr', 'f', 'agg', 'tup'):
            if k in v:
                return [y for x in v[k] for y in ints(x)]
    if isinstance(v, S):
        return [y for x in v.f for y in ints(x)]
    raise Fail('not a constant: %r' % (v,))

def mont(ws, p):
    if len(ws) != 5:
        raise Fail('unexpected number of limbs %d' % len(ws))
    n = sum(w << (64 * i) for i, w in enumerate(ws))
    if n >= p:
        raise Fail('limbs are not canonical: %s' % hex(n))
    return n * pow(2, -256, p) % p

def run(c):
    for ft in FTS:
        mod = ft.name.rsplit('::', 1)[0]
        p = ft.p
        pr = ft.prog
        for nm, want in (('R', 1), ('R2', 2**256), ('R3', 2**512)):
            k = '%s::%s' % (mod, nm)
            if k in pr.consts:
                def ob(k=k, want=want):
                    v = mont(ints(pr.consts[k]['v']), p)
                    if v != want % p:
                        raise Fail('%s denotes %s' % (k, hex(v)))
                    return hex(want % p)
                c.ob('%s/%s' % (ft.label, nm), ft.file + ' const ' + nm, ob)
        k = mod + '::MODULUS'
        if k in pr.consts:
            def ob(k=k):
                n = sum(w << (64 * i) for i, w in enumerate(ints(pr.consts[k]['v'])))
                if n != p:
                    raise Fail('MODULUS is %s' % hex(n))
                return hex(n)
            c.ob('%s/MODULUS' % ft.label, ft.file + ' const MODULUS', ob)
        k = mod + '::INV'
        if k in pr.consts:
            def ob(k=k):
                n, = ints(pr.consts[k]['v'])
                if n * p % 2**64 != 2**64 - 1:
                    raise Fail('INV * MODULUS is %d modulo 2^64' % (n * p % 2**64))
                return hex(n)
            c.ob('%s/INV' % ft.label, ft.file + ' const INV', ob)
    sq = mir.prog('secq256k1')
    T = [(FTS[1].name, 'field_secp', P_SECP, lambda r: mont(ints(r), P_SECP), FTS[1].file),
         (FTS[2].name, 'field_secq', N_SECP, lambda r: mont(ints(r), N_SECP), FTS[2].file),
         ('secq256k1::scalar::Scalar', 'secq_scalar', P_SECP, lambda r: sum(w << (64 * i) for i, w in enumerate(ints(r))), 'packages/secq256k1/src/scalar.rs')]
    for name, label, p, val, file in T:
        pf = '<%s as ff::PrimeField>::' % name
        def const(nm):
            k = pf + nm
            if k not in sq.consts:
                raise Fail('constant %s not found' % k)
            return ints(sq.consts[k]['v'])[0]
        def fn(nm):
            it = Interp(sq)
            return val(deref(it, it.run_body(sq.body(sq.find(pf + nm)), [])))
        def want(nm, w):
            def ob():
                v = const(nm)
                if v != w:
                    raise Fail('%s is %d, not %d' % (nm, v, w))
                return str(v)
            return ob
        c.ob(label + '/NUM_BITS', file, want('NUM_BITS', p.bit_length()))
        c.ob(label + '/CAPACITY', file, want('CAPACITY', p.bit_length() - 1))
        c.ob(label + '/S', file, want('S', two_adic(p)))
        def root():
            r, s = fn('root_of_unity'), two_adic(p)
            if pow(r, 1 << s, p) != 1 or pow(r, 1 << (s - 1), p) != p - 1:
                raise Fail('root_of_unity %s does not have order 2^%d' % (hex(r), s))
            return hex(r)
        c.ob(label + '/root_of_unity', file, root)
        def gen():
            factors_ok(p)
            g = fn('multiplicative_generator')
            bad = [q for q in FACTORS[p] if pow(g, (p - 1) // q, p) == 1]
            if bad or g == 0:
                raise Fail('%d does not generate the multiplicative group (order divides (p-1)/%d)' % (g, bad[0] if bad else 0))
            return str(g)
        c.ob(label + '/generator', file, gen)
    lib = 'packages/secq256k1/src/lib.rs'
    cv = '<secq256k1::Secq256K1 as primeorder::PrimeCurveParams>::'
    def curve(nm, want):
        def ob():
            k = cv + nm
            if k not in sq.consts:
                raise Fail('constant %s not found' % k)
            ws = ints(sq.consts[k]['v'])
            vs = [mont(ws[i:i + 5], N_SECP) for i in range(0, len(ws), 5)]
            if vs != want:
                raise Fail('%s is %s' % (nm, [hex(v) for v in vs]))
            return ' '.join(hex(v) for v in vs)
        c.ob('curve/' + nm, lib, ob)
    curve('ZERO', [0]); curve('ONE', [1]); curve('EQUATION_A', [0]); curve('EQUATION_B', [B])
    curve('GENERATOR', [GX, GY])
    def order():
        ks = [k for k in ('secq256k1::ORDER', '<secq256k1::Secq256K1 as k256::elliptic_curve::Curve>::ORDER') if k in sq.consts]
        if len(ks) < 1:
            raise Fail('no ORDER constant')
        for k in ks:
            n = sum(w << (64 * i) for i, w in enumerate(ints(sq.consts[k]['v'])))
            if n != P_SECP:
                raise Fail('%s is %s' % (k, hex(n)))
        if (GY * GY - GX**3 - B) % N_SECP:
            raise Fail('generator is not on the curve')
        if ec_mul(P_SECP, (GX, GY), N_SECP) is not None:
            raise Fail('order * generator is not the identity')
        return 'order * generator = identity; the order is prime'
    c.ob('curve/ORDER', lib, order)
    for nm, want in (('secq256k1::affine::AffinePoint::generator', [GX, GY, 0]), ('secq256k1::affine::AffinePoint::identity', [0, 0, 1]),
                     ('<secq256k1::affine::AffinePoint as k256::elliptic_curve::Group>::generator', [GX, GY, 0]),
                     ('<secq256k1::affine::AffinePoint as k256::elliptic_curve::Group>::identity', [0, 0, 1])):
        def ob(nm=nm, want=want):
            it = Interp(sq)
            ws = ints(deref(it, it.run_body(sq.body(sq.find(nm)), [])))
            v = [mont(ws[:5], N_SECP), mont(ws[5:10], N_SECP), ws[10]]
            if want[2] != v[2] or (not want[2] and v != want):
                raise Fail('denotes %s' % v)
            return str(v[:1])
        c.ob('point/' + nm.rsplit('::', 2)[-2] + '::' + nm.rsplit('::', 1)[-1], 'packages/secq256k1/src/affine.rs ' + nm, ob)
    def cross():
        a = {ft.label: ft.p for ft in FTS}
        # the scalar field of secq256k1 is the base field of secp256k1 and conversely
        if FTS[0].p != P_SECP:
            raise Fail('cycle')
        return 'proof-system scalars live in the field of order ORDER'
    corescalar.constants(c)
    montparams.check(c)
    c.assumptions.append('constants are evaluated by the compiler; moduli are established by P01 (arithmetic is exact modulo p)')
    return __doc__

"""Powers, inverses and square roots: abstract interpretation of every exponentiation, inversion and square-root routine
of the field types in multiplicative domains.  pow: the exponent computed is the number given, as a polynomial in its
bits.  invert: the exponent is -1 (through a modular inverse modulo the right prime) or p-2.  Square roots and
square-root ratios: the field group is split into its 2-Sylow subgroup and odd part, and the routine is interpreted
once per class of the argument's 2-part, so the result's square is compared exactly for every field element."""
import re
import poly, felem, fields, mdom
from absint import Interp, S, E, R, Dom, UNIT, Diverge, Poison
from poly import P, Unsupported
from fields import FTS, args_for, deref, pointee
from mdom import Mo, G2, eqp
from vc import Fail

def bits64(name, n=4):
    """n words, each the sum of 64 bit symbols"""
    ws = []
    for w in range(n):
        x = 0
        for i in range(64):
            x = poly.add(x, poly.mul(1 << i, poly.var('%s%d' % (name, 64 * w + i), 0, 1)))
        ws.append(x)
    return ws

class Big(Dom):
    __slots__ = ('v', 'neg')
    def __init__(self, v):
        self.v = v
# Trimmed encodings: the analysis is repeated for every length 1..32 of the trimmed number (length l: bytes l.. are 0).
TRIM = {'len': 32, 'used': None}
def trimmed(m):
    if TRIM['used'] is not None and not TRIM['used'].same(m):
        raise Unsupported('two trimmed numbers')
    TRIM['used'] = m
    return mo_words(m)[:TRIM['len']]

_W = {}
def mo_words(m):
    if m.const() is not None:
        return tuple((m.c >> (8 * i)) & 255 for i in range(32))
    for w, x in _W.items():
        if x.ft is m.ft and x.same(m):
            return w
    w = tuple(poly.var('mb%d_%d' % (len(_W), j), 0, 255) for j in range(32))
    _W[w] = m
    return w
def mo_of(ws):
    ws = tuple(ws)
    if all(isinstance(x, int) for x in ws):
        return sum(x << (8 * i) for i, x in enumerate(ws))
    if len(ws) > 32 and all(isinstance(x, int) and x == 0 for x in ws[32:]):
        ws = ws[:32]
    if TRIM['used'] is not None:
        m, n = TRIM['used'], TRIM['len']
        if len(ws) >= n and all(isinstance(x, int) and x == 0 for x in ws[n:]) and \
                all(x is y or (isinstance(y, P) and isinstance(x, P) and x.c == y.c) for x, y in zip(ws, mo_words(m)[:n])):
            return m
    for w, m in _W.items():
        if len(w) == len(ws) and all(x is y or (isinstance(y, P) and x.c == y.c) for x, y in zip(w, ws)):
            return m
    return None

def conv(ft):
    """Conversions of Mo values to bytes and back, and the big-number library on them."""
    N, ov = ft.name, {}
    L = lambda it, v: Mo.lift(ft, v, it)
    def to_le(it, a, f):
        return S('arr', mo_words(L(it, a[0])))
    def from_le(it, a, f):
        m = mo_of(it.items(a[0]))
        if m is None:
            raise Unsupported('bytes of an unknown number')
        return Mo.konst(ft, m) if isinstance(m, int) else m
    for nm in ('%s::to_bytes' % N, '<%s as secq256k1::field::BaseField>::to_bytes' % N):
        ov[nm] = to_le
    ov['%s::from_bytes_wide' % N] = from_le
    for cr in ('num_bigint_dig', 'num_bigint'):
        def fb(it, a, f, rev=False):
            xs = list(it.items(a[0]))
            if rev:
                xs.reverse()
            if all(isinstance(x, int) for x in xs):
                return Big(sum(x << (8 * i) for i, x in enumerate(xs)))
            m = mo_of(xs)
            if m is None:
                raise Unsupported('number of unknown bytes')
            return Big(m)
        ov[cr + '::BigUint::from_bytes_le'] = fb
        ov[cr + '::BigUint::from_bytes_be'] = lambda it, a, f: fb(it, a, f, True)
        def inv(it, a, f):
            x, m = deref(it, a[0]).v, deref(it, a[1]).v
            if isinstance(x, int):
                x = Mo.konst(ft, x)
            if m != ft.p:
                raise Fail('inverse modulo %s instead of the field modulus' % (hex(m) if isinstance(m, int) else m))
            z = x.eq(Mo.konst(ft, 0))
            alts = ((0, z, ()), (1, poly.bnot(z), (Big(x.inv()),))) if not isinstance(z, int) else (((0, 1, ()),) if z else ((1, 1, (Big(x.inv()),)),))
            return E('Option', alts)
        for r in ('&%s::BigUint' % cr, '%s::BigUint' % cr):
            for l in ('', '&'):
                ov['<%s%s::BigUint as %s::ModInverse<%s>>::mod_inverse' % (l, cr, cr, r)] = inv
        def tb(it, a, f, rev=False, sign=True):
            w = trimmed(deref(it, a[0]).v)
            v = S('vec', w[::-1] if rev else w)
            return S('tup', (E('Sign', ((2, 1, ()),)), v)) if sign else v
        for e, rev in (('le', False), ('be', True)):
            ov['%s::BigInt::to_bytes_%s' % (cr, e)] = lambda it, a, f, rev=rev: tb(it, a, f, rev)
            ov['%s::BigUint::to_bytes_%s' % (cr, e)] = lambda it, a, f, rev=rev: tb(it, a, f, rev, False)
        ov[cr + '::BigInt::to_biguint'] = lambda it, a, f: it.some(deref(it, a[0]))
    return ov

def names(ft, pats):
    for n in sorted(ft.prog.byname):
        for pat, kind in pats:
            if re.match('^' + pat.replace('{F}', re.escape(ft.name)) + '$', n):
                b = ft.prog.body(ft.prog.find(n))
                if b is not None and '/repo/' in b.file:
                    yield n, kind, b

PATS = [(r'{F}::pow', 'pow'), (r'{F}::pow_vartime', 'pow'), (r'{F}::pow_by_self', 'pbs'), (r'{F}::pow2k', 'pow2k'),
        (r'{F}::invert', 'inv'), (r'<{F} as .*Field>::invert', 'inv'), (r'{F}::batch_invert', 'batch'),
        (r'<{F} as .*Field>::sqrt', 'sqrt'), (r'<{F} as .*Field>::cube', 'cube'), (r'<{F} as .*SqrtRatio>::sqrt_ratio', 'ratio')]
NEED = {'scalar': {'pow', 'inv', 'batch'}, 'field_secp': {'pow', 'inv', 'batch', 'ratio', 'sqrt', 'pbs'}, 'field_secq': {'pow', 'inv', 'batch', 'ratio', 'sqrt', 'pbs'}}

def run(c):
    for ft in FTS:
        seen = set()
        for n, kind, b in names(ft, PATS):
            seen.add(kind)
            c.count('functions_analysed')
            key = '%s/%s' % (ft.label, n.replace(ft.name, 'F'))
            where = '%s %s' % (ft.file, n)
            if kind in ('sqrt', 'ratio'):
                globals()['k_' + kind](c, ft, n, b, key, where)
            else:
                c.ob(key, where, lambda: globals()['k_' + kind](c, ft, n, b))
        miss = NEED[ft.label] - seen
        if miss:
            c.fail('%s/present' % ft.label, ft.file, 'no routine found for %s' % sorted(miss))
    k256(c)
    c.assumptions.append('field operations and conversions are exact (P01, P02, P25); the moduli are prime; num-bigint-dig\'s mod_inverse and k256\'s Scalar::sqrt do what they document')
    return __doc__

def interp(ft, D, drop=(), extra=None):
    ov = mdom.ops(ft, D)
    if D is Mo:
        ov.update(conv(ft))
    ov.update(extra or {})
    for d in drop:
        ov.pop(d, None)
    return Interp(ft.prog, ov)

def call(it, b, args):
    """args by value; wrapped in references as the signature wants"""
    vs = args_for(it, b, lambda i, n, ty: args[i - 1])
    r = it.run_body(b, vs)
    if it.panics:
        raise Fail('may panic')
    return r, vs

def x(ft, e=1, nm='x'):
    return Mo(ft, 1, {nm: e})

def expo(ft, r, nm='x'):
    if not isinstance(r, Mo) or r.c != 1 or set(r.e) - {nm}:
        raise Fail('result is %r' % (r,))
    return r.e.get(nm, 0)

def k_pow(c, ft, n, b):
    ws = bits64('e')
    it = interp(ft, Mo, [n])
    r, _ = call(it, b, [x(ft), S('arr', tuple(ws))])
    want = 0
    for i, w in enumerate(ws):
        want = poly.add(want, poly.mul(1 << (64 * i), w))
    got = expo(ft, deref(it, r))
    if not eqp(got, want):
        raise Fail('raises to another power: exponent differs by %s' % poly.show(poly.sub(got, want), 4))
    return 'x^n for every 256-bit n'

def k_pow2k(c, ft, n, b):
    for k in list(range(0, 70)) + [88, 128, 200, 255]:
        it = interp(ft, Mo, [n])
        r, _ = call(it, b, [x(ft), k])
        if expo(ft, deref(it, r)) != 1 << k:
            raise Fail('pow2k(%d) raises to %s' % (k, expo(ft, r)))
    return 'x^(2^k) for 74 values of k'

def powhook(ft, rec):
    def h(it, a, f):
        ws = it.items(a[1])
        e = 0
        for i, w in enumerate(ws):
            e = poly.add(e, poly.mul(1 << (64 * i), w))
        rec.append(e)
        m = Mo.lift(ft, a[0], it)
        if m.c != 1 or len(m.e) != 1:
            raise Unsupported('power of a product')
        (k, e0), = m.e.items()
        return Mo(ft, 1, {k: poly.mul(e0, e)})
    return {'%s::pow' % ft.name: h, '%s::pow_vartime' % ft.name: h}

def k_pbs(c, ft, n, b):
    """exponent given as a field element: its canonical value"""
    y = felem.sym(ft, 'y')
    ov = dict(felem.FeOps([ft]).ov)
    tb = lambda it, a, f: S('arr', felem.byte_words(felem.lift(ft, a[0], it)))
    rec = []
    it = Interp(ft.prog, ov)
    it.overrides.update({'%s::to_bytes' % ft.name: tb, '<%s as secq256k1::field::BaseField>::to_bytes' % ft.name: tb})
    it.overrides.update(powhook(ft, rec))
    xs = x(ft)
    it.overrides.pop(n, None)
    r, _ = call(it, b, [xs, y])
    want = felem.number(felem.byte_words(y), 8)
    got = expo(ft, deref(it, r))
    if not eqp(got, want):
        raise Fail('exponent is not the canonical value of the argument')
    return 'x^(canonical value of the exponent)'

def k_inv(c, ft, n, b):
    def go(v):
        it = interp(ft, Mo, [n])
        r, _ = call(it, b, [v])
        r = deref(it, r)
        val, some = r.f[0], r.f[1]
        if isinstance(some, S):
            some = some.f[0]
        return it, deref(it, val), some
    it, val, some = go(Mo.konst(ft, 0))
    if some != 0:
        raise Fail('inverting zero does not report failure: %r' % (some,))
    mdom.NONZERO.add('x')
    try:
        for n_ in range(32, 0, -1):
            TRIM.update(len=n_, used=None)
            it, val, some = go(x(ft))
            if some != 1:
                raise Fail('inverting a non-zero element may report failure: %r' % (some,))
            if isinstance(val, Poison):
                raise Fail('value undetermined: %s' % val.why)
            m = Mo.lift(ft, val, it)
            e = m.e.get('x', 0)
            if m.c != 1 or set(m.e) - {'x'} or not isinstance(e, int) or (e + 1) % (ft.p - 1):
                raise Fail('inverse of non-zero x is computed as %r' % m)
            if TRIM['used'] is None:
                break
    finally:
        mdom.NONZERO.clear()
        TRIM.update(len=32, used=None)
    return 'x^-1, success exactly for x != 0'

def k_cube(c, ft, n, b):
    it = interp(ft, Mo, [n])
    r, _ = call(it, b, [x(ft)])
    if expo(ft, deref(it, r)) != 3:
        raise Fail('not the cube')
    return 'x^3'

def k_batch(c, ft, n, b):
    top = {'quick': 6, 'thorough': 8, 'deep': 10}[c.tier]
    for k in range(0, top + 1):
        def inv(it, a, f):
            m = Mo.lift(ft, a[0], it)
            return S('ctopt', (m.inv(), 1))
        ov = {nm: inv for nm, kd, _ in names(ft, PATS) if kd == 'inv'}
        it = interp(ft, Mo, [n], ov)
        it.overrides.update({nm: (lambda it, a, f: 0 if Mo.lift(ft, a[0], it).e else NotImplemented) for nm in ()})
        cell = it.ref(S('arr', tuple(Mo(ft, 1, {'x%d' % i: 1}) for i in range(k))))
        r = deref(it, it.run_body(b, [R(cell.cell, cell.path, (0, k))]))
        out = it.items(cell)
        for i, o in enumerate(out):
            o = Mo.lift(ft, o, it)
            if not o.same(Mo(ft, 1, {'x%d' % i: -1})):
                raise Fail('element %d of %d becomes %r' % (i, k, o))
        if not Mo.lift(ft, r, it).same(Mo(ft, 1, {'x%d' % i: -1 for i in range(k)})):
            raise Fail('returned product for %d elements is %r' % (k, r))
        bad = [p for p in it.panics if 'meq' not in str(p)]
    return 'x_i^-1 and their product for 0..%d elements' % top

def g2(ft, extra=None):
    def pbs(it, a, f):
        e = G2.lift(ft, a[1], it).const()
        if e is None:
            raise Unsupported('unknown exponent')
        return G2.lift(ft, a[0], it).pow(e)
    def pw(it, a, f):
        ws = it.items(a[1])
        if not all(isinstance(w, int) for w in ws):
            raise Unsupported('unknown exponent')
        return G2.lift(ft, a[0], it).pow(sum(w << (64 * i) for i, w in enumerate(ws)))
    def p2k(it, a, f):
        return G2.lift(ft, a[0], it).pow(1 << a[1])
    ov = {'%s::pow_by_self' % ft.name: pbs, '%s::pow' % ft.name: pw, '%s::pow_vartime' % ft.name: pw, '%s::pow2k' % ft.name: p2k}
    ov.update(extra or {})
    return interp(ft, G2, (), ov)

def ct(it, r):
    r = deref(it, r)
    v, s = r.f[0], r.f[1]
    if isinstance(s, S):
        s = s.f[0]
    return deref(it, v), s

def k_sqrt(c, ft, n, b, key, where):
    s = mdom.sylow(ft.p)
    cases = [None] + list(range(s.n))
    res = {}
    def go(k):
        it = g2(ft, k256_sqrt(ft))
        it.overrides.pop(n, None)
        v = G2(ft, True) if k is None else G2.sym(ft, 'x', k)
        r, _ = call(it, b, [v])
        return v, ct(it, r), it
    def value():
        for k in cases:
            v, (y, some), it = go(k)
            res[k] = some
            if isinstance(some, int) and some == 0 and not (k is None or k % 2 == 0):
                continue
            if k is not None and k % 2:
                continue
            y = G2.lift(ft, y, it)
            if y.mul(y).eq(v) != 1:
                raise Fail('root of a square is wrong (class %s)' % k)
        return 'y^2 = x for every square x (%d classes)' % len(cases)
    c.ob(key + '/value', where, value)
    def flag():
        for k in cases:
            want = 1 if k is None or k % 2 == 0 else 0
            if res.get(k) is None:
                raise Fail('not analysed')
            if res[k] != want:
                raise Fail('reports %s for %s' % ('a root' if not want else 'no root', 'non-squares' if not want else 'squares'))
        return 'success exactly for squares'
    c.ob(key + '/flag', where, flag)

def k256_sqrt(ft):
    """k256's Scalar as used by field_secq::sqrt: a field of the same modulus, library code."""
    if ft.label != 'field_secq':
        return {}
    s = mdom.sylow(ft.p)
    def sq(it, a, f):
        v = G2.lift(ft, a[0], it)
        if v.z:
            return S('ctopt', (v, 1))
        if v.k % 2:
            return S('ctopt', (Poison('root of a non-square'), 0))
        h = pow(2, -1, s.t)
        return S('ctopt', (G2(ft, False, v.k // 2, pow(v.c, pow(2, -1, s.t), s.p), {k: e * h % s.t for k, e in v.e.items()}), 1))
    ident = lambda it, a, f: deref(it, a[0])
    okct = lambda it, a, f: S('ctopt', (deref(it, a[0]), 1))
    ov = {}
    for pre in ('k256::Scalar',):
        ov['<%s as k256::elliptic_curve::Field>::sqrt' % pre] = sq
        ov['<%s as ff::Field>::sqrt' % pre] = sq
        ov['<%s as k256::elliptic_curve::PrimeField>::from_repr' % pre] = okct
        ov['<%s as ff::PrimeField>::from_repr' % pre] = okct
        ov['<%s as k256::elliptic_curve::PrimeField>::to_repr' % pre] = ident
        ov['%s::to_bytes' % pre] = ident
    N = ft.name
    ov['<%s as ff::PrimeField>::to_repr' % N] = ident
    ov['<%s as secq256k1::elliptic_curve::PrimeField>::to_repr' % N] = ident
    ov['%s::from_sec1' % N] = okct
    ov['<%s as ff::PrimeField>::from_repr' % N] = okct
    return ov

def k256(c):
    pass

def k_ratio(c, ft, n, b, key, where):
    s = mdom.sylow(ft.p)
    def go():
        zs = set()
        cnt = 0
        for kv in range(s.n):
            for ku in [None] + list(range(s.n)):
                it = g2(ft)
                it.overrides.pop(n, None)
                u = G2(ft, True) if ku is None else G2.sym(ft, 'u', ku)
                v = G2.sym(ft, 'v', kv)
                r, _ = call(it, b, [u, v])
                cnt += 1
                r = deref(it, r)
                qr, y = r.f[0], G2.lift(ft, r.f[1], it)
                if isinstance(qr, S):
                    qr = qr.f[0]
                if not isinstance(qr, int):
                    raise Unsupported('undetermined flag')
                w = y.mul(y).mul(v)
                if ku is None:
                    if not y.z:
                        raise Fail('ratio of zero has root %r' % y)
                    continue
                sq = (ku - kv) % 2 == 0
                if qr != (1 if sq else 0):
                    raise Fail('squareness flag wrong for 2-part classes u: %d, v: %d' % (ku, kv))
                if sq:
                    if w.eq(u) != 1:
                        raise Fail('root of a square ratio is wrong for 2-part classes u: %d, v: %d' % (ku, kv))
                else:
                    # y^2 v = Z u for one fixed non-square Z
                    d = (w.k - u.k) % s.n
                    if w.e != u.e or d % 2 == 0:
                        raise Fail('root for a non-square ratio is wrong for 2-part classes u: %d, v: %d' % (ku, kv))
                    zs.add(pow(s.g, d, s.p) * w.c % s.p)
        if len(zs) != 1:
            raise Fail('non-square ratios use %d different non-squares' % len(zs))
        z = zs.pop()
        c.cov.setdefault('classes', {})[ft.label] = cnt
        c.cov.setdefault('z', {})[ft.label] = str(z if z < 10**6 else z - ft.p)
        if z != ft.p + Z[ft.label]:
            raise Fail('non-square ratios are scaled by %s instead of Z = %d' % (z, Z[ft.label]))
        return 'y^2 v = u or y^2 v = Z u, flag exact, in all %d classes' % cnt
    c.ob(key, where, go)
Z = {'field_secp': -11, 'field_secq': -14}

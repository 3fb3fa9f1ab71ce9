"""Hash-to-curve and point decoding.  AffinePoint::from_uniform_bytes is interpreted with its two field elements unknown;
inverses, square-root ratios and parities stay symbolic.  For every outcome of every test it makes, the coordinates of the
two points added are compared, as rational functions over the field, with the simplified SWU map followed by the 3-isogeny
derived here from the curve equations (Velu's formulas).  Decoding is interpreted on encodings that decode and that do not."""
import itertools
import mir, poly, felem, fields, vn, proto, models
from absint import S, E, R, Dom, Interp, Diverge, UNIT
from poly import P, Unsupported
from felem import Fe
from fields import FTS
from ratfun import Ring, Q, Y
from vc import Fail
from vn import deref1
FT = FTS[2]
p = FT.p
RG = Ring(p)
FL = 'packages/secq256k1/src/affine.rs '
B7 = 7
Z = -14 % p
A1 = 3642995984045157452672683439396299070953881827175886364060394186787010798372
B1 = 1771

def spec():
    """the isogeny y'^2 = x'^3 + A1 x' + B1  ->  y^2 = x^3 + 7 by Velu's formulas"""
    # kernel: a root of the 3-division polynomial
    psi = [-A1 * A1 % p, 12 * B1 % p, 6 * A1 % p, 0, 3]
    ok = []
    for x0 in RG.roots(psi):
        g = (x0 ** 3 + A1 * x0 + B1) % p
        v, w = 2 * (3 * x0 * x0 + A1) % p, 4 * g % p
        a, b = (A1 - 5 * v) % p, (B1 - 7 * (w + x0 * v)) % p
        if a == 0 and b == B7 * 3 ** 6 % p:
            ok.append((x0, v, w))
    if len(ok) != 1:
        raise Fail('the documented curve has %d 3-isogenies to y^2 = x^3 + 7' % len(ok))
    return ok[0]

class Key:
    n = 0
def fe_atom(kind, name, data):
    return Fe(FT, poly.coeffs(poly.of_atom(poly.atom(kind, name, 0, p - 1, data))))

class Enc(Dom):
    """an encoded point with these coordinates"""
    __slots__ = ('x', 'y')
    def __init__(self, x, y):
        self.x, self.y = x, y
class Pt(Dom):
    """sum of decoded points"""
    __slots__ = ('terms',)
    def __init__(self, terms):
        self.terms = tuple(terms)

class Run:
    def __init__(self):
        it = self.it = Interp(mir.prog('secq256k1'), dict(felem.FeOps([FT]).ov))
        ov = it.overrides
        N = FT.name
        L = lambda it, v: felem.lift(FT, v, it)
        self.wide, self.bytes = [], {}
        self.data = [poly.var('ub%d' % i, 0, 255) for i in range(128)]
        def from_wide(it, a, f):
            xs = [deref1(it, x) for x in vn.bitems(it, a[0])]
            k = tuple(x.key() for x in xs)
            want = {0: [x.key() for x in self.data[:64]], 1: [x.key() for x in self.data[64:]]}
            for i, w in want.items():
                if list(k) == w:
                    if i not in self.wide:
                        self.wide.append(i)
                    return fe_atom('u', 'u%d' % i, ('u', i))
            raise Fail('a field element is derived from other bytes than one half of the input')
        def invert(it, a, f):
            x = L(it, a[0])
            k = x.const()
            if k is not None:
                return S('ctopt', (felem.from_int(FT, pow(k, -1, p) if k else 0), int(k != 0)))
            return S('ctopt', (fe_atom('inv', ('inv', x.key()), ('inv', x)), poly.bnot(felem.fe_eq(x, felem.from_int(FT, 0)))))
        def ratio(it, a, f):
            n, d = L(it, a[0]), L(it, a[1])
            k = (n.key(), d.key())
            return S('tup', (poly.of_atom(poly.atom('sq', k, 0, 1, ('sq', n, d))), fe_atom('root', k, ('root', n, d))))
        def odd(it, a, f):
            x = L(it, a[0])
            k = x.const()
            return k & 1 if k is not None else poly.of_atom(poly.atom('odd', x.key(), 0, 1, ('odd', x)))
        def be(it, a, f):
            x = L(it, a[0])
            w = felem.byte_words(x)
            self.bytes[tuple(poly.P.key(b) if isinstance(b, P) else b for b in w[::-1])] = x
            return S('arr', w[::-1])
        def coords(it, a, f):
            out = []
            for v in a[:2]:
                bs = [deref1(it, x) for x in flat(it, v)]
                x = self.bytes.get(tuple(b.key() if isinstance(b, P) else b for b in bs))
                if x is None:
                    raise Fail('a point is built from bytes that are not the big-endian encoding of a coordinate')
                out.append(x)
            return Enc(*out)
        def dec(it, a, f):
            e = deref1(it, a[0])
            if not isinstance(e, Enc):
                raise Unsupported('decoding')
            return S('ctopt', (Pt([(e.x, e.y)]), poly.of_atom(poly.atom('oncurve', (e.x.key(), e.y.key()), 0, 1, ('oncurve', e)))))
        def pts(it, v):
            v = deref1(it, v)
            while isinstance(v, S) and len(v.f) == 1:
                v = v.f[0]
            if not isinstance(v, Pt):
                raise Unsupported('point of an unexpected form')
            return v
        names = list(it.p.byname)
        def put(pred, fn):
            k = 0
            for n in names:
                if pred(n):
                    ov[n] = fn
        put(lambda n: n.endswith('FieldElement::from_bytes_wide') and N in n, from_wide)
        put(lambda n: N in n and n.split('::')[-1] == 'invert', invert)
        put(lambda n: N in n and n.split('::')[-1] == 'sqrt_ratio', ratio)
        put(lambda n: N in n and n.split('::')[-1] == 'is_odd', odd)
        put(lambda n: N in n and n.split('::')[-1] == 'to_be_bytes', be)
        def pw(it, a, f):
            e = [deref1(it, x) for x in vn.bitems(it, a[1])]
            if any(not isinstance(x, int) for x in e):
                raise Unsupported('exponent')
            n = sum(x << (64 * i) for i, x in enumerate(e))
            if n > 64:
                raise Unsupported('large exponent')
            return felem.fe_pow(L(it, a[0]), n)
        put(lambda n: N in n and n.split('::')[-1] in ('pow_vartime', 'pow'), pw)
        for o in ('EncodedPoint::from_affine_coordinates',):
            ov[o] = coords
        ov['AffinePoint::decompress'] = dec
        ov['<AffinePoint<Secq256K1> as FromEncodedPoint<Secq256K1>>::from_encoded_point'] = dec
        ov['<AffinePoint as FromEncodedPoint<Secq256K1>>::from_encoded_point'] = dec
        add = lambda it, a, f: Pt(pts(it, a[0]).terms + pts(it, a[1]).terms)
        PP, AP, W = 'ProjectivePoint<Secq256K1>', 'AffinePoint<Secq256K1>', 'AffinePoint'
        for X in (PP, AP, W):
            for l in ('', '&'):
                for Bq in ('', '<%s>' % PP, '<&%s>' % PP, '<%s>' % AP, '<&%s>' % AP, '<%s>' % W, '<&%s>' % W):
                    ov['<%s%s as Add%s>::add' % (l, X, Bq)] = add
            for Bq in (PP, AP, W):
                ov['<%s as From<%s>>::from' % (X, Bq)] = lambda it, a, f: pts(it, a[0])
                ov['<%s as Into<%s>>::into' % (X, Bq)] = lambda it, a, f: pts(it, a[0])
        def into(it, a, f):
            return a[0] if isinstance(a[0], S) and a[0].t == 'arr' and len(a[0].f) == 32 else NotImplemented
        ov['Into::into'] = ov['From::from'] = into
        ov['ProjectivePoint::to_affine'] = lambda it, a, f: pts(it, a[0])
        n0 = [n for n in names if n.endswith('AffinePoint::from_uniform_bytes')]
        if len(n0) != 1:
            raise Fail('AffinePoint::from_uniform_bytes not found')
        r = it.callfn(n0[0], [it.ref(S('arr', tuple(self.data)))])
        self.terms = pts(it, r).terms

def flat(it, v):
    out = []
    def walk(v):
        v = deref1(it, v)
        if isinstance(v, S):
            for y in v.f:
                walk(y)
        else:
            out.append(v)
    walk(v)
    return out

def atoms_of(x, seen):
    """all symbolic atoms an element depends on, inner ones included"""
    for m in x.c:
        for a, e in m:
            if a not in seen:
                seen[a] = poly.ATOMS[a]
                for y in poly.ATOMS[a].data[1:] if isinstance(poly.ATOMS[a].data, tuple) else ():
                    if isinstance(y, Fe):
                        atoms_of(y, seen)
                    elif isinstance(y, P):
                        atoms_of(Fe(FT, y.c), seen)
    return seen

class Case:
    """one assignment of the tests; u is an indeterminate or, where a test asks it to be a root, a number"""
    def __init__(self, at, val, u):
        self.at, self.val = at, val
        self.u = u
        self.w = None
        self.memo = {}
    def q(self, n):
        return Q(RG, RG.trim([n % p]))
    def y(self, a, b=None):
        return Y(self.w, a, self.q(0) if b is None else b)
    def ev(self, x):
        """value of an element"""
        t = self.y(self.q(0))
        for m, k in x.c.items():
            z = self.y(self.q(k))
            for a, e in m:
                v = self.atom(a)
                for _ in range(e):
                    z = z * v
            t = t + z
        return Y(self.w, t.a, t.b)
    def atom(self, a):
        if a in self.memo:
            return self.memo[a]
        d = self.at[a]
        k = d.kind
        if k == 'u':
            r = self.y(self.u)
        elif a in self.val:
            r = self.y(self.q(self.val[a]))
        elif k == 'inv':
            v = self.ev(d.data[1])
            if v.zero():
                raise ZeroDivisionError
            self.dens.append(v)
            r = v.inv()
        elif k == 'root':
            n, v = self.ev(d.data[1]), self.ev(d.data[2])
            if not (n.b.zero() and v.b.zero()):
                raise Unsupported('nested square roots')
            if self.w is not None and not (self.rn == n.a and self.rd == v.a):
                raise Unsupported('two square roots')
            if v.zero():
                raise Fail('a square-root ratio has denominator 0')
            r = 'root'
            sq = [b for b in self.val if self.at[b].kind == 'sq' and self.at[b].key == d.key]
            if not sq:
                raise Unsupported('a root whose existence is not tested')
            self.dens.append(v)
            self.rn, self.rd = n.a, v.a
            w = n.a * v.a.inv()
            self.w = w if self.val[sq[0]] else w * self.q(Z)
            self.ratio = w
            r = Y(self.w, self.q(0), self.q(1))
        else:
            raise Unsupported('atom %s' % k)
        self.memo[a] = r
        return r
    dens = None

def check_point(run, i, term, x0v):
    x0, v0, w0 = x0v
    X, Yc = term
    at = atoms_of(X, {})
    atoms_of(Yc, at)
    us = {a.data[1] for a in at.values() if a.kind == 'u'}
    if us != {i}:
        raise Fail('point %d depends on the halves %s of the input' % (i, sorted(us)))
    tests = [a for a, d in at.items() if d.kind in ('feq', 'sq')]
    pars = [a for a, d in at.items() if d.kind == 'odd']
    bad = [d.kind for d in at.values() if d.kind not in ('u', 'inv', 'root', 'feq', 'sq', 'odd')]
    if bad:
        raise Unsupported('depends on %s' % bad[:3])
    n = 0
    for vals in itertools.product((0, 1), repeat=len(tests)):
        val = dict(zip(tests, vals))
        base = Case(at, val, Q(RG, [0, 1]))
        base.dens = []
        # the places where an equality test on u holds
        roots, empty, false = None, False, []
        for a in tests:
            d = at[a]
            if d.kind != 'feq':
                continue
            e = base.ev(d.data[1])
            if not e.b.zero():
                raise Unsupported('a test of a root')
            if e.a.zero():
                empty |= not val[a]
                continue
            rs = set(RG.roots(e.a.n))
            if val[a]:
                roots = rs if roots is None else roots & rs
            else:
                false.append(rs)
        if roots is not None:
            for f in false:
                roots -= f
        if empty or roots is not None and not roots:
            continue
        exc = set(RG.roots([0, 0, Z, 0, Z * Z % p]))
        special = set().union(*false) if false and roots is None else set()
        if roots is None:
            cases = [(Q(RG, [0, 1]), special)] + [(Q(RG, RG.trim([r])), None) for r in exc - special]
        else:
            cases = [(Q(RG, RG.trim([r])), None) for r in roots]
        for u, excluded in cases:
            n += one(at, val, pars, u, excluded, X, Yc, x0v, i)
    return '%d combinations of tests' % n

def one(at, val, pars, u, excluded, X, Yc, x0v, i):
    x0, v0, w0 = x0v
    k = lambda m: Q(RG, RG.trim([m % p]))
    # the specification
    t = k(Z) * u * u
    e = t * t + t
    bA = k(-B1 * pow(A1, -1, p))
    if e.zero():
        x1 = k(B1 * pow(Z * A1, -1, p))
    else:
        x1 = bA * (k(1) + e.inv())
    g = lambda x: x * x * x + k(A1) * x + k(B1)
    cnt = 0
    c = Case(at, val, u)
    c.dens = []
    # fix the root first
    for a in sorted(at):
        if at[a].kind == 'root':
            c.atom(a)
    if c.w is None:
        raise Fail('no square root is taken')
    if c.ratio != g(x1):
        # equal up to the square of a known element
        raise Fail('the existence of a root of something else than g(x1) is tested')
    sq = [val[a] for a in val if at[a].kind == 'sq'][0]
    if len(u.n) <= 1 and len(u.d) == 1:
        gv = g(x1).n[0] if g(x1).n else 0
        if RG.square(gv) != bool(sq):
            return 0
    xw = x1 if sq else t * x1
    gw = g(xw)
    # the candidates for the ordinate before the isogeny: the arguments of the parity tests
    q0 = None
    odd = {}
    for a in pars:
        y = c.ev(at[a].data[1])
        if y.b.zero() and (y.a == u or y.a == -u):
            odd[a] = ('u', y.a == u)
            continue
        if not (y * y).b.zero() or (y * y).a != gw:
            raise Fail('the sign is taken from something else than u and the ordinate')
        if q0 is None:
            q0 = y
        odd[a] = ('y', y == q0)
    if q0 is None or not any(o[0] == 'u' for o in odd.values()):
        raise Fail('the sign of the ordinate does not depend on the parities of u and of the ordinate')
    dx = xw - k(x0)
    di = dx.inv()
    Xs = (xw + k(v0) * di + k(w0) * di * di) * k(pow(9, -1, p))
    dY = (k(1) - k(v0) * di * di - k(2 * w0) * di * di * di) * k(pow(27, -1, p))
    for pu, py in itertools.product((0, 1), repeat=2):
        v2 = dict(val)
        for a, (s, same) in odd.items():
            if s == 'u' and u.zero():
                v2[a] = 0
            else:
                v2[a] = (pu if s == 'u' else py) ^ (0 if same else 1)
        if u.zero() and pu:
            continue
        c2 = Case(at, v2, u)
        c2.dens = []
        for a in sorted(at):
            if at[a].kind == 'root':
                c2.atom(a)
        gx, gy = c2.ev(X), c2.ev(Yc)
        if not gx.b.zero() or gx.a != Xs:
            raise Fail('the abscissa of point %d is not that of the simplified SWU map and 3-isogeny (g(x1) %s)' % (i, 'square' if sq else 'not square'))
        want = q0 if pu == py else -q0
        if gy != want * Y(c2.w, dY, k(0)):
            raise Fail('the ordinate of point %d is not that of the simplified SWU map and 3-isogeny (g(x1) %s, parities %d %d)' % (i, 'square' if sq else 'not square', pu, py))
        # denominators are products of things that are never zero
        for d in c2.dens:
            nonzero(d, excluded, x0, xw, u)
        cnt += 1
    return cnt

def nonzero(d, excluded, x0, xw, u):
    if not d.b.zero():
        raise Unsupported('a denominator with a root')
    if len(u.n) <= 1 and len(u.d) == 1:
        if d.a.zero():
            raise Fail('a denominator is zero')
        return
    # away from the excluded points, a product of powers of (xw - x0), which is never zero
    num = d.a.n
    f = (xw - Q(RG, RG.trim([x0]))).n
    while len(f) > 1:
        g = RG.pgcd(num, f)
        if len(g) < 2:
            break
        num = RG.pdivmod(num, g)[0]
    for r in RG.roots(num):
        if excluded is None or r not in excluded:
            raise Fail('a denominator vanishes for u = %d' % r)

def run(c):
    x0v = []
    def params():
        x0, v, w = spec()
        x0v.append((x0, v, w))
        g = lambda x: (x ** 3 + A1 * x + B1) % p
        if RG.square(Z) or Z == p - 1:
            raise Fail('Z is a square or -1')
        if RG.roots([(B1 - Z) % p, A1, 0, 1]):
            raise Fail('g(x) - Z is reducible')
        if not RG.square(g(B1 * pow(Z * A1, -1, p))):
            raise Fail('g(B/(ZA)) is not a square')
        if RG.roots([B1, A1, 0, 1]):
            raise Fail('the curve has points of order 2')
        if RG.square(g(x0)):
            raise Fail('the kernel of the isogeny is rational')
        return 'Z = -14; the documented curve is 3-isogenous to y^2 = x^3 + 7 in one way; no rational point has a zero denominator or ordinate'
    c.ob('parameters', FL + 'iso_a, iso_b, iso_z', params)
    state = []
    def uniform():
        r = Run()
        state.append(r)
        if sorted(r.wide) != [0, 1] or len(r.terms) != 2:
            raise Fail('the result is the sum of %d points from the halves %s' % (len(r.terms), sorted(r.wide)))
        for g, cond, why, where in r.it.panics:
            bad = [poly.ATOMS[a].kind for a in poly.atoms_of(cond) | poly.atoms_of(g) if poly.ATOMS[a].kind not in ('feq', 'oncurve', 'sq', 'odd')]
            if isinstance(cond, int) or bad:
                raise Fail('may stop: %s' % why)
        return 'sum of the images of the two halves'
    c.ob('halves', FL + 'AffinePoint::from_uniform_bytes', uniform)
    for i in (0, 1):
        def pt(i=i):
            if not state or not x0v:
                raise Fail('not analysed')
            ts = [t for t in state[0].terms if any(a.kind == 'u' and a.data[1] == i for a in atoms_of(t[0], {}).values())]
            if len(ts) != 1:
                raise Fail('%d points depend on half %d' % (len(ts), i))
            return check_point(state[0], i, ts[0], x0v[0])
        c.ob('map of half %d' % i, 'packages/secq256k1/src/hashtocurve.rs map_to_curve_simple_swu, iso_map', pt)
    # ---- decoding
    G = 'packages/Spartan-secq/src/group.rs '
    def decode(suffix, kind):
        def f():
            it = proto.new_interp()
            names = [n for n in it.p.byname if n.endswith(suffix) and ('EncodedPoint' in n or 'AffinePoint::' in n)]
            if len(names) != 1:
                raise Fail('%s: %d definitions' % (suffix, len(names)))
            e = vn.cvar('some_encoding')
            if isinstance(e.ok, int):
                raise Fail('analysis: the encoding always decodes')
            a = it.ref(e) if kind != 'value' else e
            r = it.callfn(names[0], [a])
            for g, cond, why, where in it.panics:
                raise Fail('stops on an encoding that does not decode: %s at %s' % (why, where))
            if isinstance(r, S) and r.t == 'ctopt':
                okc, pay = r.f[1], r.f[0]
            else:
                okc, pay = 0, None
                for v, kk, fs in r.alts:
                    good = v == (1 if suffix.endswith('DecompressEncodedPoint>::decompress') else 0)
                    if good:
                        okc, pay = poly.add(okc, kk), fs[0]
            if isinstance(okc, int) or okc.key() != e.ok.key():
                raise Fail('succeeds for other encodings than those that decode')
            x = vn.gl(pay, it)
            if x.v != e.v or x.d != e.d:
                raise Fail('returns another point than the decoded one')
            return 'the decoded point, or the failure value'
        return f
    c.ob('unpack', G + 'CompressedGroupExt::unpack', decode('CompressedGroupExt>::unpack', 'ref'))
    c.ob('decompress', G + 'DecompressEncodedPoint::decompress', decode('DecompressEncodedPoint>::decompress', 'ref'))
    c.ob('AffinePoint::decompress', FL + 'AffinePoint::decompress', decode('AffinePoint::decompress', 'value'))
    c.assumptions += ['field operations, inverses, square-root ratios, parities and byte conversions are those of P01-P03 and P25', 'primeorder/sec1 decode exactly the encodings of curve points, given the curve constants (P04) and the field operations', 'the numbers of points of the two curves are odd and prime, as documented']
    return __doc__

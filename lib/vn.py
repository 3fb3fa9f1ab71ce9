"""Value-numbering domain for the protocol level.

Scalars (V), group elements (G), encoded points (Cg) and transcripts (T) are abstract values.  A scalar expression over
atoms (inputs, prover messages, challenges, random draws) is represented by its value number: the value of the expression
in F_p under a fixed pseudo-random valuation of the atoms (random interpretation, Gulwani & Necula, POPL 2003): two
expressions get the same number iff they are equal as polynomials, up to probability degree/2^256.  Nothing of the
program is executed; an equality test of two different numbers yields an unknown bit, so both arms of every branch on
data are analysed.  A group element is numbered as the linear combination of generators it is.  Every value also
carries its derivative with respect to the prover's random draws (used to decide whether masks are applied).
A challenge is an atom determined by the complete transcript history, so it is the same atom for prover and verifier
exactly when both histories are the same."""
import hashlib, re
import poly, absint, models
from absint import S, E, R, Dom, UNIT, Poison
from poly import P, Unsupported
from fields import P_SECP as p, N_SECP, RR
RI = pow(2**RR, -1, p)

def H(*k):
    return int.from_bytes(hashlib.sha512(repr(k).encode()).digest(), 'big') % p
def dig(*k):
    return hashlib.sha256(repr(k).encode()).hexdigest()[:24]

NAMES = {}      # number -> name of the atom
_AFP = {}       # poly atom id -> (number, derivative)
def atom_val(i):
    r = _AFP.get(i)
    if r is None:
        a = poly.ATOMS[i]
        r = (H('polyatom', a.kind, str(a.key) if a.kind == 'var' else i), {})
        _AFP[i] = r
    return r

def dadd(a, b, k=1):
    if not b:
        return a
    o = dict(a)
    for x, w in b.items():
        t = (o.get(x, 0) + k * w) % p
        if t:
            o[x] = t
        else:
            o.pop(x, None)
    return o
def dscale(a, k):
    if not a or k == 0:
        return {}
    return {x: w * k % p for x, w in a.items() if w * k % p}

def evalp(n):
    """Number of an integer polynomial."""
    if isinstance(n, int):
        return n % p, {}
    t, d = 0, {}
    for m, k in n.c.items():
        v, dv = k % p, {}
        for a, e in m:
            w, dw = atom_val(a)
            for _ in range(e):
                dv = dadd(dscale(dv, w), dscale(dw, v)) if (dv or dw) else {}
                v = v * w % p
        t = (t + v) % p
        d = dadd(d, dv)
    return t, d

class V(Dom):
    """scalar"""
    __slots__ = ('v', 'd', 'k')
    def __init__(self, v, d=None, k=False):
        self.v, self.d, self.k = v % p, d or {}, k
    def __eq__(self, o):
        return isinstance(o, V) and self.v == o.v
    def __hash__(self):
        return self.v
    def __repr__(self):
        return 'V(%s)' % show(self)
    def eq(self, it, o):
        return veq(self, lift(o, it))
    def merge(self, it, c, o):
        o = lift(o, it)
        w, _ = evalp(c)
        return V(o.v + w * (self.v - o.v), dadd(dscale(self.d, w), dscale(o.d, (1 - w) % p)))
    def getfield(self, it, i):
        if self.k:
            m = self.v * 2**RR % p
            return S('arr', tuple((m >> (64 * i)) & (2**64 - 1) for i in range(4)) + (0,))
        raise Unsupported('limbs of an unknown scalar')
    def setfield(self, it, i, v):
        raise Unsupported('limbs of an unknown scalar')

class G(Dom):
    """group element, numbered by its coordinates in the generators"""
    __slots__ = ('v', 'd')
    def __init__(self, v, d=None):
        self.v, self.d = v % p, d or {}
    def __eq__(self, o):
        return isinstance(o, G) and self.v == o.v
    def __hash__(self):
        return self.v
    def __repr__(self):
        return 'G(%s)' % show(self)
    def eq(self, it, o):
        return geq(self, gl(o, it))
    def merge(self, it, c, o):
        o = gl(o, it)
        w, _ = evalp(c)
        return G(o.v + w * (self.v - o.v))

class Cg(Dom):
    """encoded point; ok: 1 or the unknown bit 'decodes'"""
    __slots__ = ('v', 'd', 'ok')
    def __init__(self, v, d=None, ok=1):
        self.v, self.d, self.ok = v % p, d or {}, ok
    def __eq__(self, o):
        return isinstance(o, Cg) and self.v == o.v
    def __hash__(self):
        return self.v
    def __repr__(self):
        return 'Cg(%s)' % show(self)
    def eq(self, it, o):
        o = deref1(it, o)
        if not isinstance(o, Cg):
            raise Unsupported('comparison of an encoded point with %s' % type(o).__name__)
        return geq(self, o)
    def merge(self, it, c, o):
        if isinstance(o, Cg) and o.v == self.v:
            return self
        raise Unsupported('join of encoded points')

def show(x):
    if isinstance(x, V) and x.k:
        return str(x.v if x.v < p // 2 else x.v - p)
    return NAMES.get(x.v, '#%06x' % (x.v & 0xffffff))

def const(n):
    return V(n, None, True)
def var(name):
    v = H('scalar', name)
    NAMES[v] = name
    return V(v)
def rvar(name):
    """A random draw."""
    v = H('scalar', name)
    NAMES[v] = name
    return V(v, {name: 1})
def gvar(name):
    v = H('group', name)
    NAMES[v] = name
    return G(v)
def cvar(name):
    """An encoded point from outside: may fail to decode."""
    g = gvar(name)
    return Cg(g.v, None, poly.of_atom(poly.atom('decodes', g.v, 0, 1, ('decodes', name))))
GEN = gvar('generator')

def lift(v, it=None):
    while isinstance(v, R) and it is not None:
        v = it.load(v)
    if isinstance(v, V):
        return v
    if isinstance(v, int):
        return const(v)
    if isinstance(v, P):
        return V(*evalp(v))
    if isinstance(v, S) and len(v.f) == 1 and isinstance(v.f[0], S) and len(v.f[0].f) == 5:
        n = 0
        for i, x in enumerate(v.f[0].f):
            n = poly.add(n, poly.scale(x, 1 << (64 * i)))
        a, d = evalp(n)
        return V(a * RI, dscale(d, RI), isinstance(n, int))
    if isinstance(v, S) and len(v.f) == 1:      # wrapper structs
        return lift(v.f[0], it)
    raise Unsupported('not a scalar: %s' % (getattr(v, 'why', None) or type(v).__name__))

GX, GY = 0x76c39f5585cb160eb6b06c87a2ce32e23134e45a097781a6a24288e37702eda6, 0x3ffc646c7b2918b5dc2d265a8e82a7f7d18983d26e8dc055a4120ddad952677f
def _fq(v):
    n = sum(x << (64 * i) for i, x in enumerate(v.f[0].f))
    return n * pow(2**RR, -1, N_SECP) % N_SECP
def gl(v, it=None):
    while isinstance(v, R) and it is not None:
        v = it.load(v)
    if isinstance(v, G):
        return v
    if isinstance(v, S) and len(v.f) == 1:
        return gl(v.f[0], it)
    if isinstance(v, S) and len(v.f) == 3:
        x, y, inf = v.f
        if isinstance(inf, int) and inf:
            return G(0)
        if isinstance(inf, S) and all(isinstance(q, S) and isinstance(q.f[0], S) and all(isinstance(t, int) for t in q.f[0].f) for q in (x, y, inf)):
            z = _fq(inf)                                  # projective coordinates
            if z == 0: return G(0)
            z = pow(z, -1, N_SECP)
            a = (_fq(x) * z % N_SECP, _fq(y) * z % N_SECP)
            return GEN if a == (GX, GY) else gvar('point(%x,%x)' % a)
        if isinstance(x, S) and all(isinstance(t, int) for t in x.f[0].f):
            if (_fq(x), _fq(y)) == (GX, GY):
                return GEN
            return gvar('point(%x,%x)' % (_fq(x), _fq(y)))
    raise Unsupported('not a group element: %s' % (getattr(v, 'why', None) or type(v).__name__))

def add(a, b):
    return V(a.v + b.v, dadd(a.d, b.d), a.k and b.k)
def sub(a, b):
    return V(a.v - b.v, dadd(a.d, b.d, -1), a.k and b.k)
def mul(a, b):
    d = {}
    if a.d or b.d:
        d = dadd(dscale(a.d, b.v), dscale(b.d, a.v))
    return V(a.v * b.v, d, (a.k and b.k))
def neg(a):
    return V(-a.v, dscale(a.d, p - 1), a.k)
def inv(a):
    i = pow(a.v, -1, p) if a.v else 0
    return V(i, dscale(a.d, -i * i % p), a.k)
def gadd(a, b):
    return G(a.v + b.v, dadd(a.d, b.d))
def gneg(a):
    return G(-a.v, dscale(a.d, p - 1))
def gsub(a, b):
    return gadd(a, gneg(b))
def gmul(s, g):
    return G(s.v * g.v, dadd(dscale(s.d, g.v), dscale(g.d, s.v)) if s.d or g.d else {})
def gsum(xs):
    r = G(0)
    for x in xs:
        r = gadd(r, x)
    return r
def vsum(xs):
    r = const(0)
    for x in xs:
        r = add(r, x)
    return r
def vprod(xs):
    r = const(1)
    for x in xs:
        r = mul(r, x)
    return r

EQ = {}     # key -> atom polynomial
def eq_bit(kind, diff, allconst=False):
    diff %= p
    if diff == 0:
        return 1
    if allconst:
        return 0
    k = min(diff, p - diff)
    return poly.of_atom(poly.atom('veq', (kind, k), 0, 1, ('veq', kind, k)))
def veq(a, b):
    return eq_bit('s', a.v - b.v, a.k and b.k)
def geq(a, b):
    return eq_bit('g', a.v - b.v)

# ---- bytes --------------------------------------------------------------------
_W = {}     # tuple of atom ids -> value
def _words(kind, x, n):
    out = []
    for j in range(n):
        a = poly.atom('word', (kind, x.v, j), 0, 255, (kind, j))
        out.append(a)
    ids = tuple(a.id for a in out)
    if ids not in _W:
        _W[ids] = (kind, x)
        for a in out:
            _AFP[a.id] = (H('word', kind, x.v, a.data[1]), {})
        if kind == 's':
            rest = sum(_AFP[a.id][0] << (8 * j) for j, a in enumerate(out) if j)
            _AFP[ids[0]] = ((x.v - rest) % p, x.d)
    for a in out:
        if a.data[1] == 0:
            _STARTS[a.id] = (n, kind, x)
    return tuple(poly.of_atom(a) for a in out)
_STARTS = {}
def aid(x):
    """id of the atom a polynomial consists of, or None"""
    if isinstance(x, P) and len(x.c) == 1:
        (m, k), = x.c.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None
def scalar_bytes(x):
    if x.k:
        return tuple((x.v >> (8 * i)) & 255 for i in range(32))
    return _words('s', x, 32)
def point_bytes(x):
    return _words('g', x, 33)
def message(items):
    """Canonical form of a byte string: scalars, points and plain bytes."""
    out = []
    i = 0
    buf = bytearray()
    while i < len(items):
        x = items[i]
        if isinstance(x, int):
            buf.append(x & 255)
            i += 1
            continue
        a = aid(x)
        st = _STARTS.get(a)
        if st and len(items) - i >= st[0] and all(aid(items[i + j]) is not None and poly.ATOMS[aid(items[i + j])].key == (st[1], st[2].v, j) for j in range(st[0])):
            if buf:
                out.append(('bytes', bytes(buf)))
                buf = bytearray()
            out.append((st[1], st[2].v))
            DVAL[(st[1], st[2].v)] = st[2]
            i += st[0]
            continue
        if buf:
            out.append(('bytes', bytes(buf)))
            buf = bytearray()
        if isinstance(x, Poison):
            raise Unsupported('message contains an undetermined byte')
        out.append(('int', evalp(x)[0]))
        i += 1
    if buf:
        out.append(('bytes', bytes(buf)))
    # a 32-byte constant is a constant scalar
    return tuple(('s', int.from_bytes(b, 'little')) if k == 'bytes' and len(b) == 32 and int.from_bytes(b, 'little') < p else (k, b) for k, b in out)
DVAL = {}
def from_words(items):
    """Scalar from little-endian bytes, reduced."""
    ids = tuple(aid(x) for x in items)
    w = _W.get(ids)
    if w is not None and w[0] in ('s', 'ch'):
        return w[1]
    n = 0
    for j, x in enumerate(items):
        n = poly.add(n, poly.scale(x, 1 << (8 * j)))
    return V(*evalp(n), isinstance(n, int))

# ---- transcripts -------------------------------------------------------------------
class Hist:
    """event history (linked list)"""
    __slots__ = ('prev', 'ev', 'dig', 'tape', 'n', 'public')
    def __init__(self, prev, ev, tape=False, public=False):
        self.public = public or bool(prev and prev.public)
        self.prev, self.ev = prev, ev
        self.dig = dig(prev.dig if prev else '', ev)
        self.tape = tape or bool(prev and prev.tape)
        self.n = prev.n + 1 if prev else 1
    def events(self):
        out = []
        h = self
        while h is not None:
            out.append(h.ev)
            h = h.prev
        return out[::-1]
HIST_OF = {}    # number of a challenge -> history it was drawn from
class T(Dom):
    __slots__ = ('alts',)
    def __init__(self, alts):
        self.alts = alts
    def __eq__(self, o):
        return isinstance(o, T) and len(self.alts) == len(o.alts) and all(a[1].dig == b[1].dig for a, b in zip(self.alts, o.alts))
    def __hash__(self):
        return hash(tuple(a[1].dig for a in self.alts))
    def merge(self, it, c, o):
        if not isinstance(o, T):
            raise Unsupported('join of a transcript')
        d = {}
        nc = poly.bnot(c)
        for cc, src in ((c, self), (nc, o)):
            for k, h in src.alts:
                k = poly.mul(cc, k)
                if isinstance(k, int) and k == 0:
                    continue
                if h.dig in d:
                    d[h.dig] = (poly.add(d[h.dig][0], k), h)
                else:
                    d[h.dig] = (k, h)
        return T(tuple(d.values()))
    def now(self, it):
        """histories still possible here"""
        out = []
        for k, h in self.alts:
            if it.gsub and isinstance(k, P):
                k = poly.subst(k, it.gsub)
            if isinstance(k, int) and k == 0:
                continue
            out.append((k, h))
        return tuple(out)
    def hist(self, it=None):
        a = self.now(it) if it is not None else self.alts
        if len(a) != 1:
            raise Unsupported('%d possible transcript histories' % len(a))
        return a[0][1]
def new_transcript(label, public=False):
    return T(((1, Hist(None, ('new', bytes(label)), False, public)),))
def tappend(it, ref, label, data):
    t = deref1(it, ref)
    def os(x):
        x = DVAL.get(x)
        return x is not None and x.d and all(n.startswith('os:') for n in x.d)
    tape = not t.alts[0][1].public and any(os(x) for x in data)
    if tape and hasattr(it, 'seeds'):
        it.seeds.append({n for x in data if os(x) for n in DVAL[x].d})
    it.store(lastref(it, ref), T(tuple((k, Hist(h, ('append', label, data), tape)) for k, h in t.now(it))))
    if hasattr(it, 'vlog') and not (tape or t.alts[0][1].tape):
        it.vlog.append(('append', label, data))
def tchallenge(it, ref, label, n):
    t = deref1(it, ref)
    h = t.hist(it)
    h2 = Hist(h, ('challenge', label, n))
    it.store(lastref(it, ref), T(((1, h2),)))
    v = H('challenge', h2.dig)
    if h2.tape:
        x = V(v, {'tape:' + h2.dig: 1})
        NAMES[v] = 'tape:%s' % h2.dig[:6]
    else:
        x = V(v)
        NAMES[v] = 'ch:%s:%s' % (label.decode('latin1'), h2.dig[:6])
    HIST_OF[v] = h
    out = []
    for j in range(n):
        a = poly.atom('word', ('ch', v, j), 0, 255, ('ch', j))
        out.append(a)
    ids = tuple(a.id for a in out)
    if n >= 48:
        _W[ids] = ('ch', x)
        for a in out:
            _AFP[a.id] = (H('word', 'ch', v, a.data[1]), {})
        rest = sum(_AFP[a.id][0] << (8 * j) for j, a in enumerate(out) if j)
        _AFP[ids[0]] = ((x.v - rest) % p, x.d)
    if hasattr(it, 'vlog') and not h2.tape:
        it.vlog.append(('challenge', label, x))
    return tuple(poly.of_atom(a) for a in out)

def deref1(it, v):
    while isinstance(v, R):
        v = it.load(v)
    return v
def lastref(it, v):
    while isinstance(v, R):
        w = it.load(v)
        if not isinstance(w, R):
            return v
        v = w
    raise Unsupported('not a reference')
def bytes_of(it, v):
    xs = [deref1(it, x) for x in it.items(deref1s(it, v))]
    if any(not isinstance(x, int) for x in xs):
        raise Unsupported('label is not a constant')
    return bytes(x & 255 for x in xs)
def deref1s(it, v):
    """strip references to references (a slice reference itself stays)"""
    while isinstance(v, R) and isinstance(it.load(v) if v.rng is None else None, R):
        v = it.load(v)
    return v
def bitems(it, v):
    return [deref1(it, x) for x in it.items(deref1s(it, v))]

class Xof(Dom):
    __slots__ = ('data', 'pos')
    def __init__(self, data, pos=None):
        self.data, self.pos = data, pos
    def __eq__(self, o):
        return isinstance(o, Xof) and (self.data, self.pos) == (o.data, o.pos)
    def __hash__(self):
        return hash((self.data, self.pos))

class Rng(Dom):
    """operating-system randomness"""
    __slots__ = ()
    def __eq__(self, o):
        return isinstance(o, Rng)
    def __hash__(self):
        return 7
    def merge(self, it, c, o):
        return self

class Opaque(Dom):
    """a byte string the analysis does not look into (proof sizes, compressed shapes)"""
    __slots__ = ('what',)
    def __init__(self, what):
        self.what = what
    def __eq__(self, o):
        return isinstance(o, Opaque) and self.what == o.what
    def __hash__(self):
        return hash(self.what)

SC = 'libspartan::scalar::scalar::Scalar'
QS = 'secq256k1::Scalar'

def overrides():
    ov = {}
    sv = lambda it, v: lift(v, it)
    ops = {'add': add, 'sub': sub, 'mul': mul}
    for N in (SC, QS, 'secq256k1::scalar::Scalar'):
        for tr, op in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul')):
            fn = ops[op]
            for l in ('', '&'):
                for r in ('', '<&%s>' % N, '<%s>' % N):
                    ov['<%s%s as std::ops::%s%s>::%s' % (l, N, tr, r, op)] = lambda it, a, f, fn=fn: fn(sv(it, a[0]), sv(it, a[1]))
            for r in ('', '<&%s>' % N, '<%s>' % N):
                def h(it, a, f, fn=fn):
                    it.store(lastref(it, a[0]), fn(sv(it, a[0]), sv(it, a[1])))
                    return UNIT
                ov['<%s as std::ops::%sAssign%s>::%s_assign' % (N, tr, r, op)] = h
        for l in ('', '&'):
            ov['<%s%s as std::ops::Neg>::neg' % (l, N)] = lambda it, a, f: neg(sv(it, a[0]))
        for op in ('add', 'sub', 'mul'):
            ov['%s::%s' % (N, op)] = lambda it, a, f, fn=ops[op]: fn(sv(it, a[0]), sv(it, a[1]))
        ov['%s::neg' % N] = lambda it, a, f: neg(sv(it, a[0]))
        for pre in (N, '<%s as ff::Field>' % N):
            ov['%s::double' % pre] = lambda it, a, f: add(sv(it, a[0]), sv(it, a[0]))
            ov['%s::square' % pre] = lambda it, a, f: mul(sv(it, a[0]), sv(it, a[0]))
            ov['%s::cube' % pre] = lambda it, a, f: mul(mul(sv(it, a[0]), sv(it, a[0])), sv(it, a[0]))
            def invert(it, a, f):
                x = sv(it, a[0])
                nz = poly.bnot(veq(x, const(0)))
                return S('ctopt', (inv(x), nz))
            ov['%s::invert' % pre] = invert
        def eq(it, a, f):
            return veq(sv(it, a[0]), sv(it, a[1]))
        for t in ('subtle', 'k256::elliptic_curve::subtle', 'secq256k1::elliptic_curve::subtle', 'primeorder::elliptic_curve::subtle'):
            ov['<%s as %s::ConstantTimeEq>::ct_eq' % (N, t)] = lambda it, a, f: eq(it, a, f)
            ov['<%s as %s::ConditionallySelectable>::conditional_select' % (N, t)] = lambda it, a, f: it.select(choice(it, a[2]), sv(it, a[1]), sv(it, a[0]))
        ov['<%s as std::cmp::PartialEq>::eq' % N] = eq
        ov['<%s as std::cmp::PartialEq>::ne' % N] = lambda it, a, f: poly.bnot(eq(it, a, f))
        ov['<%s as ff::Field>::is_zero' % N] = lambda it, a, f: veq(sv(it, a[0]), const(0))
        for ty in ('u8', 'u32', 'u64', 'usize', 'u128'):
            ov['<%s as std::convert::From<%s>>::from' % (N, ty)] = lambda it, a, f: lift(a[0], it)
        ov['%s::to_bytes' % N] = lambda it, a, f: S('arr', scalar_bytes(sv(it, a[0])))
        ov['%s::from_bytes_wide' % N] = lambda it, a, f: from_words(bitems(it, a[0]))
        def from_bytes(it, a, f):
            xs = bitems(it, a[0])
            x = from_words(xs)
            if all(isinstance(b, int) for b in xs):
                ok = 1 if sum(b << (8 * j) for j, b in enumerate(xs)) < p else 0
            elif _W.get(tuple(aid(b) for b in xs), ('',))[0] == 's':
                ok = 1
            else:
                ok = poly.of_atom(poly.atom('canonical', x.v, 0, 1, ('canonical', x.v)))
            return S('ctopt', (x, ok))
        ov['%s::from_bytes' % N] = from_bytes
    ov['<Scalar as Reduce<UInt<crypto_bigint::::U256::{constant#0}>>>::from_uint_reduced'] = lambda it, a, f: sv(it, a[0]) if isinstance(deref1(it, a[0]), V) else NotImplemented
    def reduced(it, a, f):
        return sv(it, a[0]) if isinstance(deref1(it, a[0]), V) else NotImplemented
    ov['Scalar::from_uint_reduced'] = reduced
    ov['<impl UInt<4>>::from_le_slice'] = lambda it, a, f: from_words(bitems(it, a[0]))
    ov['libspartan::scalar::scalar::Scalar::zero'] = lambda it, a, f: const(0)
    ov['libspartan::scalar::scalar::Scalar::one'] = lambda it, a, f: const(1)

    # ---- group: the boundary is the primeorder crate -----------------------------
    gv = lambda it, v: gl(v, it)
    PP, AP = 'ProjectivePoint<Secq256K1>', 'AffinePoint<Secq256K1>'
    for A in (PP, AP):
        for B in ('', '<%s>' % PP, '<%s>' % AP, '<&%s>' % PP, '<&%s>' % AP):
            for l in ('', '&'):
                ov['<%s%s as Add%s>::add' % (l, A, B)] = lambda it, a, f: gadd(gv(it, a[0]), gv(it, a[1]))
                ov['<%s%s as Sub%s>::sub' % (l, A, B)] = lambda it, a, f: gsub(gv(it, a[0]), gv(it, a[1]))
            def aa(it, a, f):
                it.store(lastref(it, a[0]), gadd(gv(it, a[0]), gv(it, a[1])))
                return UNIT
            def sa(it, a, f):
                it.store(lastref(it, a[0]), gsub(gv(it, a[0]), gv(it, a[1])))
                return UNIT
            ov['<%s as AddAssign%s>::add_assign' % (A, B)] = aa
            ov['<%s as SubAssign%s>::sub_assign' % (A, B)] = sa
        for l in ('', '&'):
            ov['<%s%s as Neg>::neg' % (l, A)] = lambda it, a, f: gneg(gv(it, a[0]))
            for B in ('Scalar', '&Scalar'):
                ov['<%s%s as Mul<%s>>::mul' % (l, A, B)] = lambda it, a, f: gmul(sv(it, a[1]), gv(it, a[0]))
        for B in (PP, AP):
            ov['<%s as From<%s>>::from' % (A, B)] = lambda it, a, f: gv(it, a[0])
            ov['<%s as Into<%s>>::into' % (A, B)] = lambda it, a, f: gv(it, a[0])
            ov['<%s as From<&%s>>::from' % (A, B)] = lambda it, a, f: gv(it, a[0])
            ov['<%s as PartialEq<%s>>::eq' % (A, B)] = lambda it, a, f: geq(gv(it, a[0]), gv(it, a[1]))
        ov['<%s as PartialEq>::eq' % A] = lambda it, a, f: geq(gv(it, a[0]), gv(it, a[1]))
        ov['<%s as PartialEq>::ne' % A] = lambda it, a, f: poly.bnot(geq(gv(it, a[0]), gv(it, a[1])))
        ov['<%s as ConstantTimeEq>::ct_eq' % A] = lambda it, a, f: geq(gv(it, a[0]), gv(it, a[1]))
        ov['<%s as Default>::default' % A] = lambda it, a, f: G(0)
        nm = A.split('<')[0]
        for m in ('is_identity',):
            ov['%s::%s' % (nm, m)] = lambda it, a, f: geq(gv(it, a[0]), G(0))
            ov['<%s as Group>::%s' % (A, m)] = ov['%s::%s' % (nm, m)]
        for m in ('double',):
            ov['%s::%s' % (nm, m)] = lambda it, a, f: gadd(gv(it, a[0]), gv(it, a[0]))
            ov['<%s as Group>::%s' % (A, m)] = ov['%s::%s' % (nm, m)]
        ov['<%s as Group>::identity' % A] = lambda it, a, f: G(0)
        ov['<%s as Group>::generator' % A] = lambda it, a, f: GEN
    def to_affine(it, a, f):
        try:
            return gv(it, a[0])
        except Unsupported:
            return NotImplemented
    ov['ProjectivePoint::to_affine'] = to_affine
    def neg_(it, a, f):
        x = deref1(it, a[0])
        return gneg(x) if isinstance(x, G) else NotImplemented
    ov['AffinePoint::neg'] = neg_
    ov['ProjectivePoint::neg'] = neg_
    def enc(it, a, f):
        g = gv(it, a[0])
        return Cg(g.v, g.d, 1)
    ov['<AffinePoint<Secq256K1> as ToEncodedPoint<Secq256K1>>::to_encoded_point'] = enc
    def dec(it, a, f):
        c = deref1(it, a[0])
        if not isinstance(c, Cg):
            raise Unsupported('decoding of %s' % type(c).__name__)
        return S('ctopt', (G(c.v, c.d), c.ok))
    ov['<AffinePoint<Secq256K1> as FromEncodedPoint<Secq256K1>>::from_encoded_point'] = dec
    def eb(it, a, f):
        c = deref1(it, a[0])
        return it.ref(S('arr', point_bytes(c)))
    ov['EncodedPoint::as_bytes'] = eb
    ov['EncodedPoint::to_bytes'] = lambda it, a, f: models.BoxU(it.cell(S('arr', point_bytes(deref1(it, a[0])))))
    for e in ('<EncodedPoint as PartialEq>::eq', '<EncodedPoint<UInt> as PartialEq>::eq'):
        ov[e] = lambda it, a, f: geq(deref1(it, a[0]), deref1(it, a[1]))
    def msm(it, a, f):
        r = G(0)
        for x in it.items(a[0]):
            x = deref1(it, x)
            r = gadd(r, gmul(sv(it, x.f[0]), gv(it, x.f[1])))
        return r
    ov['multiexp::multiexp'] = msm
    ov['multiexp::multiexp_vartime'] = msm
    def fub(it, a, f):
        xs = bitems(it, a[0])
        k = tuple(x if isinstance(x, int) else ('a', x.key()) for x in xs)
        return S(f['_rt'] if '_rt' in f else 'AffinePoint', (gvar('hashed:' + dig(k)),))
    ov['AffinePoint::from_uniform_bytes'] = fub

    # ---- hash streams ---------------------------------------------------------------
    ov['<Shake256 as Default>::default'] = lambda it, a, f: Xof(())
    def xin(it, a, f):
        x = deref1(it, a[0])
        it.store(lastref(it, a[0]), Xof(x.data + (message(bitems(it, a[1])),)))
        return UNIT
    ov['<Shake256 as Input>::input'] = xin
    ov['<Shake256 as ExtendableOutput>::xof_result'] = lambda it, a, f: Xof(deref1(it, a[0]).data, 0)
    def xread(it, a, f):
        x = deref1(it, a[0])
        n = it.length(a[1])
        ws = [poly.var('xof:%s:%d' % (dig(x.data), x.pos + j), 0, 255) for j in range(n)]
        for j, w in enumerate(ws):
            it.store(it.subref(a[1], j), w)
        it.store(lastref(it, a[0]), Xof(x.data, x.pos + n))
        return E('Result', ((0, 1, (UNIT,)),))
    ov['<Reader as Read>::read_exact'] = xread
    # ---- randomness -------------------------------------------------------------------
    ov['<OsRng as Default>::default'] = lambda it, a, f: Rng()
    def os_bytes(it, n, hi):
        it.nos = getattr(it, 'nos', 0) + 1
        out = []
        for j in range(n):
            nm = 'os:%s:%d:%d/%d' % (getattr(it, 'osname', ''), it.nos, j, hi.bit_length())
            x = poly.var(nm, 0, hi)
            _AFP[aid(x)] = (H('polyatom', 'var', nm), {nm: 1})
            out.append(x)
        return out
    ov['<OsRng as RngCore>::next_u64'] = lambda it, a, f: os_bytes(it, 1, 2**64 - 1)[0]
    ov['<OsRng as RngCore>::next_u32'] = lambda it, a, f: os_bytes(it, 1, 2**32 - 1)[0]
    def fill(it, a, f):
        for j, w in enumerate(os_bytes(it, it.length(a[1]), 255)):
            it.store(it.subref(a[1], j), w)
        return UNIT
    ov['<OsRng as RngCore>::fill_bytes'] = fill
    # ---- transcripts ------------------------------------------------------------------
    ov['Transcript::new'] = lambda it, a, f: new_transcript(bytes_of(it, a[0]))
    def tam(it, a, f):
        tappend(it, a[0], bytes_of(it, a[1]), message(bitems(it, a[2])))
        return UNIT
    ov['Transcript::append_message'] = tam
    def tau(it, a, f):
        x = a[2]
        data = (('bytes', (x & (2**64 - 1)).to_bytes(8, 'little')),) if isinstance(x, int) else (('u64', evalp(x)[0]),)
        tappend(it, a[0], bytes_of(it, a[1]), data)
        return UNIT
    ov['Transcript::append_u64'] = tau
    def tcb(it, a, f):
        label = bytes_of(it, a[1])
        n = it.length(a[2])
        for j, w in enumerate(tchallenge(it, a[0], label, n)):
            it.store(it.subref(a[2], j), w)
        return UNIT
    ov['Transcript::challenge_bytes'] = tcb
    # ---- sizes and shapes nobody decides on -----------------------------------------------
    def ser(it, a, f):
        x = V(H('serialised', content(it, a[0])))
        NAMES[x.v] = 'serialised'
        return E('Result', ((0, 1, (S('vec', _words('o', x, 16)),)),))
    ov['bincode::serialize'] = ser
    class Enc(Dom):
        __slots__ = ('data',)
        def __init__(self, data):
            self.data = data
        def __eq__(self, o):
            return isinstance(o, Enc) and o.data == self.data
        def __hash__(self):
            return hash(self.data)
        def merge(self, it, c, o):
            raise Unsupported('join of encoders')
    ov['<Compression as Default>::default'] = lambda it, a, f: UNIT
    ov['ZlibEncoder::new'] = lambda it, a, f: Enc(())
    def sinto(it, a, f):
        e = deref1(it, a[0])
        if not isinstance(e, Enc):
            return NotImplemented
        it.store(lastref(it, a[0]), Enc(e.data + (content(it, a[1]),)))
        return E('Result', ((0, 1, (UNIT,)),))
    ov['bincode::serialize_into'] = sinto
    def fin(it, a, f):
        e = deref1(it, a[0])
        x = V(H('encoded', e.data))
        NAMES[x.v] = 'encoded'
        return E('Result', ((0, 1, (S('vec', _words('o', x, 16)),)),))
    ov['ZlibEncoder::finish'] = fin
    ov['Timer::new'] = lambda it, a, f: UNIT
    ov['Timer::stop'] = lambda it, a, f: UNIT
    ov['Timer::print'] = lambda it, a, f: UNIT
    return ov

def content(it, v):
    """hashable image of a value"""
    v = deref1(it, v)
    if isinstance(v, (V, G, Cg)):
        return (type(v).__name__, v.v)
    if isinstance(v, P):
        return ('int', evalp(v)[0])
    if isinstance(v, S):
        if len(v.f) == 1 and isinstance(v.f[0], S) and v.f[0].t == 'arr':
            try:
                return ('V', lift(v).v)
            except Unsupported:
                pass
        return tuple(content(it, x) for x in v.f)
    if isinstance(v, int):
        return v
    if isinstance(v, E) and len(v.alts) == 1:
        return (v.alts[0][0],) + tuple(content(it, x) for x in v.alts[0][2])
    raise Unsupported('content of %s' % type(v).__name__)

def choice(it, v):
    v = deref1(it, v)
    while isinstance(v, S):
        v = v.f[0]
    return v

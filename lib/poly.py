"""Integer polynomials over interned atoms, with intervals: the value domain of the abstract interpreter.

An atom is an unknown integer with an interval.  Beside inputs there are derived atoms:
  floor(T, k)   = floor(T / 2^k)       (carries, borrows, shifts, low parts)
  eq0(T)        = 1 if T == 0 else 0
  or(S), and(S) = opaque bitwise results
Every derived atom is canonicalised on creation so that equal quantities get equal polynomials.
No path condition or solver is involved: equality of values is equality of normal forms.
"""
import itertools

class Unsupported(Exception):
    pass

class Atom:
    __slots__ = ('id', 'key', 'lo', 'hi', 'kind', 'data')
    def __repr__(self):
        return '%s#%d' % (self.key if self.kind == 'var' else self.kind, self.id)

ATOMS = []
_BYKEY = {}

def atom(kind, key, lo, hi, data=None):
    k = (kind, key)
    a = _BYKEY.get(k)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.key, a.lo, a.hi, a.kind, a.data = key, lo, hi, kind, data
        ATOMS.append(a)
        _BYKEY[k] = a
    else:
        if lo is not None and (a.lo is None or lo > a.lo):
            a.lo = lo
        if hi is not None and (a.hi is None or hi < a.hi):
            a.hi = hi
    return a

def is_bool_atom(i):
    a = ATOMS[i]
    return a.lo == 0 and a.hi == 1

_one = ()

class P:
    """Polynomial with integer coefficients and a known interval [lo, hi] (None = unbounded)."""
    __slots__ = ('c', 'lo', 'hi', '_h', '_k')
    def __init__(self, c, lo=None, hi=None):
        self.c = c
        self._h = None
        self._k = None
        self.lo = lo
        self.hi = hi
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.c.items()))
        return self._k
    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h
    def __eq__(self, o):
        if isinstance(o, int):
            return False
        return isinstance(o, P) and self.c == o.c
    def __repr__(self):
        return show(self)
    def is_bool(self):
        return self.lo is not None and self.hi is not None and self.lo >= 0 and self.hi <= 1

def show(p, n=8):
    if isinstance(p, int):
        return str(p)
    ts = []
    for m, c in sorted(p.c.items(), key=lambda t: (len(t[0]), t[0]))[:n]:
        s = '*'.join(('%r' % ATOMS[a]) + ('^%d' % e if e > 1 else '') for a, e in m)
        ts.append(('%d' % c if abs(c) < 1 << 20 else hex(c)) + ('*' + s if s else ''))
    if len(p.c) > n:
        ts.append('...(%d terms)' % len(p.c))
    return ' + '.join(ts)

def var(name, lo, hi):
    a = atom('var', name, lo, hi)
    return P({((a.id, 1),): 1}, lo, hi)

def of_atom(a):
    return P({((a.id, 1),): 1}, a.lo, a.hi)

def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted((x, 1 if (e > 1 and is_bool_atom(x)) else e) for x, e in d.items()))

def coeffs(p):
    if isinstance(p, int):
        return {_one: p} if p else {}
    return p.c

def _ival_mono(m):
    lo, hi = 1, 1
    for a, e in m:
        at = ATOMS[a]
        if at.lo is None or at.hi is None:
            return None, None
        for _ in range(e):
            xs = (lo * at.lo, lo * at.hi, hi * at.lo, hi * at.hi)
            lo, hi = min(xs), max(xs)
    return lo, hi

def interval(c):
    lo = hi = 0
    for m, k in c.items():
        l, h = _ival_mono(m)
        if l is None:
            return None, None
        if k >= 0:
            lo += k * l
            hi += k * h
        else:
            lo += k * h
            hi += k * l
    return lo, hi

KNOWN = {}   # polynomial -> tightest interval established

def mk(c, lo=None, hi=None):
    """Normalise: a constant polynomial becomes an int."""
    if not c:
        return 0
    if len(c) == 1 and _one in c:
        return c[_one]
    if len(c) > 50000:
        raise Unsupported('polynomial with %d terms' % len(c))
    p = P(c)
    k = KNOWN.get(p)
    if k is None:
        l, h = interval(c)
        k = (l, h)
    l, h = k
    if lo is not None and (l is None or lo > l):
        l = lo
    if hi is not None and (h is None or hi < h):
        h = hi
    p.lo, p.hi = l, h
    if l is not None and l == h:
        return l
    KNOWN[p] = (l, h)
    return p

def rng(p):
    if isinstance(p, int):
        return p, p
    return p.lo, p.hi

def _radd(a, b):
    return None if a is None or b is None else a + b

def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    ca, cb = coeffs(a), coeffs(b)
    if len(ca) < len(cb):
        ca, cb = cb, ca
    c = dict(ca)
    for m, k in cb.items():
        v = c.get(m, 0) + k
        if v:
            c[m] = v
        else:
            c.pop(m, None)
    (al, ah), (bl, bh) = rng(a), rng(b)
    return mk(c, _radd(al, bl), _radd(ah, bh))

def scale(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    lo, hi = a.lo, a.hi
    if k < 0:
        lo, hi = hi, lo
    return mk({m: v * k for m, v in a.c.items()}, None if lo is None else lo * k, None if hi is None else hi * k)

def neg(a):
    return scale(a, -1)

def sub(a, b):
    return add(a, neg(b))

def mul(a, b):
    if isinstance(a, int):
        return scale(b, a)
    if isinstance(b, int):
        return scale(a, b)
    if len(a.c) * len(b.c) > 1000000:
        raise Unsupported('product of %d and %d terms' % (len(a.c), len(b.c)))
    c = {}
    for m1, k1 in a.c.items():
        for m2, k2 in b.c.items():
            m = _mono_mul(m1, m2)
            v = c.get(m, 0) + k1 * k2
            if v:
                c[m] = v
            else:
                c.pop(m, None)
    lo = hi = None
    if None not in (a.lo, a.hi, b.lo, b.hi):
        xs = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
        lo, hi = min(xs), max(xs)
    return mk(c, lo, hi)

def psum(xs):
    r = 0
    for x in xs:
        r = add(r, x)
    return r

def atoms_of(p):
    if isinstance(p, int):
        return set()
    return {a for m in p.c for a, _ in m}

def subst(p, m):
    """Substitute atoms by polynomials/ints: m maps atom id -> value."""
    if isinstance(p, int):
        return p
    if not (atoms_of(p) & set(m)):
        return p
    r = 0
    for mono, k in p.c.items():
        t = k
        rest = []
        for a, e in mono:
            if a in m:
                for _ in range(e):
                    t = mul(t, m[a])
            else:
                rest.append((a, e))
        if rest:
            t = mul(t, P({tuple(rest): 1}, *_ival_mono(tuple(rest))))
        r = add(r, t)
    return r

# ---------------------------------------------------------------------------
def _meet(a, b):
    """intersection of intervals"""
    (al, ah), (bl, bh) = a, b
    l = bl if al is None else al if bl is None else max(al, bl)
    h = bh if ah is None else ah if bh is None else min(ah, bh)
    return l, h

def with_fact(T, U, ul, uh):
    """Interval of T given ul <= U <= uh (a linear consequence: T = m*U + rest)."""
    if isinstance(T, int):
        return T, T
    best = interval(T.c)
    lm = max(U.c.items(), key=lambda t: (len(t[0]), t[0]))
    k = T.c.get(lm[0])
    if k is not None and k % lm[1] == 0:
        m = k // lm[1]
        r = sub(T, scale(U, m))
        rest = (r, r) if isinstance(r, int) else interval(r.c)
        a, b = (None if ul is None else m * ul), (None if uh is None else m * uh)
        if m < 0:
            a, b = b, a
        l = None if rest[0] is None or a is None else rest[0] + a
        h = None if rest[1] is None or b is None else rest[1] + b
        best = _meet(best, (l, h))
    return best

def sign_known(T):
    lo, hi = rng(T)
    if lo is not None and lo >= 0:
        return 0
    if hi is not None and hi < 0:
        return 1
    return None

def interp_bool(bs, f):
    """Multilinear interpolation of an integer function of boolean atoms."""
    r = 0
    lo = hi = None
    for vals in itertools.product((0, 1), repeat=len(bs)):
        v = f(dict(zip(bs, vals)))
        lo = v if lo is None else min(lo, v)
        hi = v if hi is None else max(hi, v)
        if v:
            t = v
            for a, x in zip(bs, vals):
                ap = of_atom(ATOMS[a])
                t = mul(t, ap if x else sub(1, ap))
            r = add(r, t)
    return setrange(r, lo, hi)
truth_table = interp_bool

def setrange(p, lo, hi):
    if isinstance(p, int):
        return p
    return mk(p.c, lo, hi)

def allbool(T, n):
    if len(T.c) > (1 << n):
        return None
    bs = sorted(atoms_of(T))
    if len(bs) <= n and all(is_bool_atom(a) for a in bs):
        return bs
    return None

def lt0(T):
    """0/1 polynomial for T < 0."""
    s = sign_known(T)
    if s is not None:
        return s
    bs = allbool(T, 4)
    if bs is not None:
        return interp_bool(bs, lambda m: 1 if subst(T, m) < 0 else 0)
    lead = max(T.c.items(), key=lambda t: t[0])
    if lead[1] < 0:
        # [T<0] = 1 - [-T-1 < 0]
        U = sub(neg(T), 1)
        s = sign_known(U)
        if s is not None:
            return 1 - s
        return sub(1, of_atom(atom('sign', U, 0, 1, U)))
    return of_atom(atom('sign', T, 0, 1, T))

def _expand_lo(T, a):
    at = ATOMS[a]
    return subst(T, {a: at.data[0]})

MONT = set()    # lo-atoms used as Montgomery multipliers
_SPLIT = {}

def split(T, k):
    """(T mod 2^k, floor(T / 2^k)) exactly."""
    M = 1 << k
    if isinstance(T, int):
        return T & (M - 1), T >> k
    if k == 0:
        return 0, T
    lo, hi = rng(T)
    if lo is not None and hi is not None and (lo >> k) == (hi >> k):
        q = lo >> k
        return sub(T, q << k), q
    key = (T, k)
    r = _SPLIT.get(key)
    if r is None:
        r = _split(T, k, M, lo, hi)
        hl, hh = (None if lo is None else lo >> k), (None if hi is None else hi >> k)
        r = setrange(r[0], 0, M - 1), setrange(r[1], hl, hh)
        _SPLIT[key] = r
    return r

def _split(T, k, M, lo, hi):
    bs = allbool(T, 3)
    if bs is not None:
        return interp_bool(bs, lambda m: subst(T, m) & (M - 1)), interp_bool(bs, lambda m: subst(T, m) >> k)
    # floor of a floor
    if len(T.c) == 1:
        (m, c), = T.c.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'hi':
            t0, k0 = ATOMS[m[0][0]].data[:2]
            h = split(t0, k0 + k)[1]
            return sub(T, scale(h, M)), h
    # low bits of a low part
    if len(T.c) == 1 and k:
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'lo':
            v, k0 = ATOMS[m[0][0]].data[1:3]
            if k0 > k:
                l = split(v, k)[0]
                h = split(sub(v, 0), k)[1]
                # floor(lo(v,k0)/2^k) = floor(v/2^k) - 2^(k0-k) floor(v/2^k0)
                return l, sub(h, scale(split(v, k0)[1], 1 << (k0 - k)))
    div = {m: v >> k for m, v in T.c.items() if v % M == 0}
    if div:
        rest = mk({m: v for m, v in T.c.items() if v % M})
        l, h = split(rest, k)
        return l, add(mk(div), h)
    g = min((v & -v).bit_length() - 1 for v in T.c.values())
    if g:
        l, h = split(mk({m: v >> g for m, v in T.c.items()}, None if lo is None else -((-lo) >> g), None if hi is None else hi >> g), k - g)
        return scale(l, 1 << g), h
    # a Montgomery step: the low part vanishes once the multiplier's definition is used
    if len(T.c) <= 64:
        for a in sorted(atoms_of(T)):
            if ATOMS[a].kind == 'lo' and ATOMS[a].data[2] >= k:
                U = _expand_lo(T, a)
                if isinstance(U, P) and all(v % M == 0 for v in U.c.values()):
                    MONT.add(a)
                    h = of_atom(atom('hi', (T, k), None if lo is None else lo >> k, None if hi is None else hi >> k, (T, k, True)))
                    return 0, h
    if lo is not None and hi is not None and (hi >> k) - (lo >> k) == 1:
        q = hi >> k
        h = sub(q, lt0(sub(T, q << k)))
    else:
        h = of_atom(atom('hi', (T, k), None if lo is None else lo >> k, None if hi is None else hi >> k, (T, k, False)))
    l = of_atom(atom('lo', (T, k), 0, M - 1, (sub(T, scale(h, M)), T, k)))
    return l, h

def floordiv2k(T, k):
    return split(T, k)[1]

def mod2k(T, k):
    return split(T, k)[0]

def eq0(T):
    """0/1 polynomial for T == 0."""
    if isinstance(T, int):
        return 1 if T == 0 else 0
    lo, hi = rng(T)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return 0
    bs = sorted(atoms_of(T))
    if len(bs) <= 4 and all(is_bool_atom(a) for a in bs):
        return truth_table(bs, lambda m: 1 if subst(T, m) == 0 else 0)
    # an affine combination of bits that can only vanish at its extreme value
    if len(bs) > 4 and all(len(m) <= 1 and all(e == 1 for _, e in m) for m in T.c) and all(is_bool_atom(a) for a in bs):
        k0 = T.c.get((), 0)
        low = k0 + sum(v for m, v in T.c.items() if m and v < 0)
        high = k0 + sum(v for m, v in T.c.items() if m and v > 0)
        if low > 0 or high < 0:
            return 0
        if low == 0 or high == 0:
            r = 1
            for m, v in sorted(T.c.items()):
                if m:
                    a = mk({m: 1}, 0, 1)
                    r = mul(r, a if (v < 0) == (low == 0) else sub(1, a))
            return r
    lead = max(T.c.items(), key=lambda t: t[0])
    if lead[1] < 0:
        T = neg(T)
    # content
    import math
    g = 0
    for v in T.c.values():
        g = math.gcd(g, v)
    if g > 1:
        T = mk({m: v // g for m, v in T.c.items()}, None if T.lo is None else -((-T.lo) // g), None if T.hi is None else T.hi // g)
    # an or-atom is zero exactly when all its operands are
    if len(T.c) == 1:
        (m, k), = T.c.items()
        if len(m) == 1 and ATOMS[m[0][0]].kind == 'or':
            return allzero(ATOMS[m[0][0]].data)
        # a xor-atom is zero exactly when its operands are equal
        if len(m) == 1 and ATOMS[m[0][0]].kind == 'xor':
            x, y = tuple(ATOMS[m[0][0]].data)
            return eq0(sub(x, y))
    return of_atom(atom('eq', T, 0, 1, ('eq', T)))

def allzero(ops):
    ops = frozenset(o for o in ops if not (isinstance(o, int) and o == 0))
    if any(isinstance(o, int) for o in ops):
        return 0
    if not ops:
        return 1
    if len(ops) == 1:
        return eq0(next(iter(ops)))
    return of_atom(atom('allzero', ops, 0, 1, ('allzero', ops)))

# 0/1 logic
def bnot(a):
    return sub(1, a) if not isinstance(a, int) else 1 - a
def band(a, b):
    r = mul(a, b)
    return setrange(r, 0, 1)
def bor(a, b):
    return setrange(sub(add(a, b), mul(a, b)), 0, 1)
def bxor(a, b):
    return setrange(sub(add(a, b), scale(mul(a, b), 2)), 0, 1)
def select(c, a, b):
    """c ? a : b"""
    if isinstance(c, int):
        return a if c else b
    if a == b:
        return a
    (al, ah), (bl, bh) = rng(a), rng(b)
    r = add(b, mul(c, sub(a, b)))
    lo = None if al is None or bl is None else min(al, bl)
    hi = None if ah is None or bh is None else max(ah, bh)
    return setrange(r, lo, hi)

def _mask_of(x, w):
    """x == (2^w - 1) * b for a 0/1 polynomial b: return b."""
    M = (1 << w) - 1
    if isinstance(x, int):
        return 1 if x == M else 0 if x == 0 else None
    if x.lo is None or x.lo < 0:
        return None
    if all(v % M == 0 for v in x.c.values()):
        b = mk({m: v // M for m, v in x.c.items()})
        b2 = b
        if isinstance(b2, int):
            return b2
        if all(is_bool_atom(a) for a in atoms_of(b)):
            bs = sorted(atoms_of(b))
            if len(bs) <= 6 and all(subst(b, dict(zip(bs, v))) in (0, 1) for v in itertools.product((0, 1), repeat=len(bs))):
                return setrange(b, 0, 1)
    return None

def _low_mask(k):
    if k >= 0 and (k & (k + 1)) == 0:
        return k.bit_length()
    return None

def bitand(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        n = _low_mask(b)
        if n is not None:
            lo, hi = rng(a)
            if lo is not None and lo >= 0 and hi is not None and hi < (1 << n):
                return a
            return mod2k(a, n)
        # mask of consecutive ones at an offset
        tz = (b & -b).bit_length() - 1
        n = _low_mask(b >> tz)
        if n is not None:
            return scale(mod2k(floordiv2k(a, tz), n), 1 << tz)
    m = _mask_of(b, w)
    if m is None and not isinstance(a, int):
        m2 = _mask_of(a, w)
        if m2 is not None:
            a, b, m = b, a, m2
    if m is not None:
        lo, hi = rng(a)
        return setrange(mul(a, m), 0, hi)
    if not isinstance(a, int) and not isinstance(b, int) and a.is_bool() and b.is_bool():
        return band(a, b)
    if not isinstance(a, int) and a.is_bool() and isinstance(b, int):
        return scale(a, b & 1)
    if a == b:
        return a
    (al, ah), (bl, bh) = rng(a), rng(b)
    if al is None or bl is None or al < 0 or bl < 0:
        raise Unsupported('bitand')
    return of_atom(atom('and', frozenset((a, b)), 0, min(ah, bh), (a, b)))

def _pow2div(a):
    """largest j with 2^j | all coefficients"""
    if isinstance(a, int):
        return ((a & -a).bit_length() - 1) if a else 10 ** 6
    return min(((v & -v).bit_length() - 1) for v in a.c.values())

def bitor(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    if a == b:
        return a
    (al, ah), (bl, bh) = rng(a), rng(b)
    if not isinstance(a, int) and not isinstance(b, int) and a.is_bool() and b.is_bool():
        return bor(a, b)
    if al is None or bl is None or al < 0 or bl < 0:
        raise Unsupported('bitor')
    ja, jb = _pow2div(a), _pow2div(b)
    if bh < (1 << ja) or ah < (1 << jb):
        r = add(a, b)
        return setrange(r, 0, (1 << w) - 1)
    # x - 2^w floor(..): low part known to be a multiple of 2^j is handled by _pow2div; otherwise opaque
    def parts(x):
        if isinstance(x, P) and len(x.c) == 1:
            (m, k), = x.c.items()
            if k == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'or':
                return set(ATOMS[m[0][0]].data)
        return {x}
    ops = frozenset(parts(a) | parts(b))
    if len(ops) == 1:
        return next(iter(ops))
    return of_atom(atom('or', ops, max(al, bl), (1 << max(ah.bit_length(), bh.bit_length())) - 1, ops))

def bitxor(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return a
        if b == (1 << w) - 1:
            return sub((1 << w) - 1, a)
        if b == 1 and a.is_bool():
            return bnot(a)
    if a == b:
        return 0
    if not isinstance(a, int) and not isinstance(b, int) and a.is_bool() and b.is_bool():
        return bxor(a, b)
    (al, ah), (bl, bh) = rng(a), rng(b)
    if al is None or bl is None or al < 0 or bl < 0:
        raise Unsupported('bitxor')
    key = frozenset((a, b))
    at = atom('xor', key, 0, (1 << max(ah.bit_length(), bh.bit_length())) - 1, key)
    return of_atom(at)

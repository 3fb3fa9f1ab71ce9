"""Multiplicative domains for field elements: powers with symbolic exponents, and discrete logarithms modulo the 2-part.

Mo: a field constant times a product of symbols raised to integer-polynomial exponents.  x^a * x^b = x^(a+b) and
    select(c, x^a, x^b) = x^(b+c(a-b)) hold for every x, including 0 with 0^0 = 1, as long as exponents are >= 0.
G2: F* = (2-Sylow subgroup, order 2^s) x (odd part, order t).  An element is zero or (log in the 2-Sylow subgroup,
    odd part of its constant factor, exponents modulo t of the odd parts of the symbols)."""
import re
import poly, absint
from absint import S, R, Dom, UNIT
from poly import P, Unsupported
from fields import RR, deref
from vc import Fail

def const_of(ft, v):
    """The integer a constant limb representation denotes, or None."""
    if isinstance(v, S) and len(v.f) == 1 and isinstance(v.f[0], S) and len(v.f[0].f) == 5:
        ls = v.f[0].f
        if all(isinstance(x, int) for x in ls):
            n = sum(x << (64 * i) for i, x in enumerate(ls))
            if n >= ft.p:
                raise Fail('constant with non-canonical limbs')
            return n * pow(2, -RR, ft.p) % ft.p
    return None

NONZERO = set()      # symbols assumed non-zero

class Mo(Dom):
    __slots__ = ('ft', 'c', 'e')
    def __init__(self, ft, c, e):
        self.ft, self.c = ft, c % ft.p
        self.e = {k: v for k, v in e.items() if not (isinstance(v, int) and v == 0)} if self.c else {}
    def same(self, o):
        return self.c == o.c and self.e.keys() == o.e.keys() and all(eqp(self.e[k], o.e[k]) for k in self.e)
    def __repr__(self):
        return 'Mo(%s%s)' % (hex(self.c), ''.join(' * %s^(%s)' % (k, poly.show(v, 6) if isinstance(v, P) else v) for k, v in self.e.items()))
    def const(self):
        return self.c if not self.e else None
    def merge(self, it, c, o):
        return self.sel(c, self.lift(self.ft, o, it))
    def sel(self, c, o):
        if isinstance(c, int):
            return self if c else o
        if self.same(o):
            return self
        if self.c != o.c:
            raise Unsupported('select between different constants')
        e = {}
        for k in set(self.e) | set(o.e):
            a, b = self.e.get(k, 0), o.e.get(k, 0)
            e[k] = poly.add(b, poly.mul(c, poly.sub(a, b)))
        return Mo(self.ft, self.c, e)
    def getfield(self, it, i):
        k = self.const()
        if k is None:
            raise Unsupported('limbs of an unknown power')
        return self.ft.const(k).f[0]
    def mul(self, o):
        e = dict(self.e)
        for k, v in o.e.items():
            e[k] = poly.add(e.get(k, 0), v)
        return Mo(self.ft, self.c * o.c, e)
    def inv(self):
        if not self.c:
            raise Fail('inverse of zero')
        return Mo(self.ft, pow(self.c, -1, self.ft.p), {k: poly.sub(0, v) for k, v in self.e.items()})
    def eq(self, o):
        if self.const() is not None and o.const() is not None:
            return 1 if self.c == o.c else 0
        if self.same(o):
            return 1
        if o.const() == 0 and self.c and len(self.e) == 1:
            (k, e), = self.e.items()
            if k in NONZERO:
                return 0
            if isinstance(e, int) and e > 0:
                return poly.of_atom(poly.atom('iszero', k, 0, 1, k))
        return poly.of_atom(poly.atom('meq', tuple(sorted([repr(self), repr(o)])), 0, 1, None))
    @classmethod
    def lift(cls, ft, v, it):
        v = deref(it, v)
        if isinstance(v, cls):
            return v
        k = const_of(ft, v)
        if k is None:
            raise Unsupported('not a power: %r' % type(v).__name__)
        return cls(ft, k, {})
    @classmethod
    def konst(cls, ft, k):
        return cls(ft, k, {})

def eqp(a, b):
    d = poly.sub(a, b)
    return isinstance(d, int) and d == 0

def iszero(name):
    return poly.of_atom(poly.atom('iszero', name, 0, 1, name))

class Sylow:
    def __init__(self, p):
        self.p = p
        s, t = 0, p - 1
        while t % 2 == 0:
            s, t = s + 1, t // 2
        self.s, self.t, self.n = s, t, 1 << s
        z = 2
        while pow(z, (p - 1) // 2, p) != p - 1:
            z += 1
        self.nonres = z
        self.g = pow(z, t, p)          # generator of the 2-Sylow subgroup
        self.log = {pow(self.g, i, p): i for i in range(self.n)}
        # idempotents: x = x^(e2) * x^(eo) with e2 = 1 mod 2^s, 0 mod t
        self.e2 = t * pow(t, -1, self.n) % (p - 1)
        self.eo = self.n * pow(self.n, -1, t) % (p - 1) if t > 1 else 0
    def split(self, c):
        return self.log[pow(c, self.e2, self.p)], pow(c, self.eo, self.p)
_syl = {}
def sylow(p):
    if p not in _syl:
        _syl[p] = Sylow(p)
    return _syl[p]

class G2(Dom):
    """None for zero, else (k, odd constant, {symbol: exponent mod t})."""
    __slots__ = ('ft', 'z', 'k', 'c', 'e')
    def __init__(self, ft, z, k=0, c=1, e=None):
        self.ft, self.z, self.k, self.c, self.e = ft, z, k, c, e or {}
    @classmethod
    def konst(cls, ft, v):
        v %= ft.p
        if v == 0:
            return cls(ft, True)
        k, c = sylow(ft.p).split(v)
        return cls(ft, False, k, c)
    @classmethod
    def sym(cls, ft, name, k):
        return cls(ft, False, k, 1, {name: 1})
    def __repr__(self):
        return 'G2(0)' if self.z else 'G2(g^%d * %s %s)' % (self.k, hex(self.c), self.e)
    def const(self):
        if self.z:
            return 0
        if self.e:
            return None
        s = sylow(self.ft.p)
        return pow(s.g, self.k, s.p) * self.c % s.p
    def mul(self, o):
        if self.z or o.z:
            return G2(self.ft, True)
        s = sylow(self.ft.p)
        e = dict(self.e)
        for k, v in o.e.items():
            e[k] = (e.get(k, 0) + v) % s.t
        return G2(self.ft, False, (self.k + o.k) % s.n, self.c * o.c % s.p, {k: v for k, v in e.items() if v})
    def pow(self, n):
        if self.z:
            return G2(self.ft, True) if n else G2.konst(self.ft, 1)
        s = sylow(self.ft.p)
        e = {k: v * n % s.t for k, v in self.e.items()}
        return G2(self.ft, False, self.k * n % s.n, pow(self.c, n, s.p), {k: v for k, v in e.items() if v})
    def eq(self, o):
        if self.z or o.z:
            return 1 if self.z and o.z else 0
        if self.k != o.k:
            return 0
        if self.e == o.e:
            return 1 if self.c == o.c else 0
        raise Unsupported('equality depends on the odd part: %r, %r' % (self, o))
    def sel(self, c, o):
        if isinstance(c, int):
            return self if c else o
        raise Unsupported('undetermined selection')
    def merge(self, it, c, o):
        return self.sel(c, G2.lift(self.ft, o, it))
    def getfield(self, it, i):
        k = self.const()
        if k is None:
            raise Unsupported('limbs of an unknown value')
        return self.ft.const(k).f[0]
    @classmethod
    def lift(cls, ft, v, it):
        v = deref(it, v)
        if isinstance(v, cls):
            return v
        k = const_of(ft, v)
        if k is None:
            raise Unsupported('not a field element: %r' % type(v).__name__)
        return cls.konst(ft, k)

def ops(ft, D):
    """Overrides for the field operations of ft in domain D (Mo or G2)."""
    ov = {}
    N = ft.name
    L = lambda it, v: D.lift(ft, v, it)
    def lin(fn):
        def g(it, *xs):
            ks = [L(it, x).const() for x in xs]
            if any(k is None for k in ks):
                raise Unsupported('sum of unknown powers')
            return D.konst(ft, fn(*ks))
        return g
    F = {'mul': lambda it, a, b: L(it, a).mul(L(it, b)), 'square': lambda it, a: L(it, a).mul(L(it, a)),
         'add': lin(lambda a, b: a + b), 'sub': lin(lambda a, b: a - b), 'neg': lin(lambda a: -a), 'double': lin(lambda a: 2 * a)}
    if D is G2:     # negation is multiplication by -1
        F['neg'] = lambda it, a: L(it, a).mul(D.konst(ft, -1))
    def reg(name, op, form=''):
        if form.endswith('Assign'):
            def h(it, a, f):
                it.store(a[0], F[op](it, *a))
                return UNIT
        else:
            def h(it, a, f):
                return F[op](it, *a)
        ov[name] = h
    import felem
    felem.FeOps.patterns(type('X', (), {'ov': ov})(), ft, reg, lambda it, v, canonical=True: L(it, v))
    def eq(it, a, f):
        return L(it, a[0]).eq(L(it, a[1]))
    for t in ('subtle', 'k256::elliptic_curve::subtle'):
        ov['<%s as %s::ConstantTimeEq>::ct_eq' % (N, t)] = eq
        ov['<%s as %s::ConditionallySelectable>::conditional_select' % (N, t)] = lambda it, a, f: L(it, a[1]).sel(a[2], L(it, a[0]))
        def asg(it, a, f):
            it.store(a[0], L(it, a[1]).sel(a[2], L(it, a[0])))
            return UNIT
        ov['<%s as %s::ConditionallySelectable>::conditional_assign' % (N, t)] = asg
    ov['<%s as std::cmp::PartialEq>::eq' % N] = eq
    ov['<%s as std::cmp::PartialEq>::ne' % N] = lambda it, a, f: poly.bnot(eq(it, a, f))
    z = lambda it, a, f: L(it, a[0]).eq(D.konst(ft, 0))
    ov['<%s as ff::Field>::is_zero' % N] = z
    ov['%s::is_zero' % N] = z
    ov['<%s as std::convert::From<u64>>::from' % N] = lambda it, a, f: D.konst(ft, a[0]) if isinstance(a[0], int) else NotImplemented
    return ov

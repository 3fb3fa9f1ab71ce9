"""Field elements as polynomials modulo the prime (the level above limbs).

Every arithmetic operation that P01 proves exact at limb level is replaced by the operation on Fe values; every
conversion proved by P02 likewise.  Equality of field values is equality of normal forms modulo p."""
import re
import poly, absint
from absint import S, E, R, Dom, It, Diverge
from poly import P, Unsupported
from fields import FTS, FT, RR
from vc import Fail

def _norm(c, p):
    return {m: v % p for m, v in c.items() if v % p}

class Fe(Dom):
    __slots__ = ('ft', 'c', '_k')
    def __init__(self, ft, c):
        self.ft, self.c, self._k = ft, c, None
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.c.items()))
        return self._k
    def __eq__(self, o):
        return isinstance(o, Fe) and self.ft.p == o.ft.p and self.c == o.c
    def __hash__(self):
        return hash((self.ft.p, self.key()))
    def __repr__(self):
        return 'Fe(%s)' % (poly.show(poly.mk(self.c), 4) if self.c else '0')
    def const(self):
        if not self.c:
            return 0
        if len(self.c) == 1 and () in self.c:
            return self.c[()]
        return None
    def merge(self, it, c, o):
        o = lift(self.ft, o, it)
        return fe_select(self.ft, c, self, o)
    def setfield(self, it, i, v):
        return S(self.ft.tid(), (v,))
    def getfield(self, it, i):
        """The limbs: for a constant the limbs themselves, otherwise opaque words determined by the value."""
        k = self.const()
        if k is not None:
            return self.ft.const(k).f[0]
        ls = limb_words(self)
        return S('arr', ls)

def same_fe(a, b):
    return a.ft.p == b.ft.p and a.c == b.c

_WORDS = {}
_NUMBER = {}
def words(tag, fe, n, nbits):
    k = (tag, fe.ft.p, fe.key(), n, nbits)
    w = _WORDS.get(k)
    if w is None:
        i = len(_WORDS)
        w = tuple(poly.var('%s%d_%d' % (tag, i, j), 0, (1 << nbits) - 1) for j in range(n))
        _WORDS[k] = w
        t = 0
        for j, x in enumerate(w):
            t = poly.add(t, poly.scale(x, 1 << (nbits * j)))
        _NUMBER[t.key()] = (tag, fe, t)
    return w

def limb_words(fe):
    return words('mont', fe, 4, 64) + (0,)
def byte_words(fe):
    k = fe.const()
    if k is not None:
        return tuple((k >> (8 * i)) & 255 for i in range(32))
    return words('byte', fe, 32, 8)

def from_int(ft, n):
    """The residue of an integer value (int or polynomial)."""
    if isinstance(n, int):
        return Fe(ft, _norm({(): n}, ft.p))
    k = _NUMBER.get(n.key())
    if k is not None and k[1].ft.p == ft.p:
        tag, fe, t = k
        if tag == 'byte':
            return Fe(ft, fe.c)
        return fe_scale(Fe(ft, fe.c), pow(2, RR, ft.p))
    return Fe(ft, _norm(poly.coeffs(n), ft.p))

def sym(ft, name):
    return Fe(ft, poly.coeffs(poly.var(name, 0, ft.p - 1)))

def number(limbs, nbits=64):
    v = 0
    for i, x in enumerate(limbs):
        v = poly.add(v, poly.scale(x, 1 << (nbits * i)))
    return v

def lift(ft, v, it=None, canonical=True):
    while isinstance(v, R) and it is not None:
        v = it.load(v)
    if isinstance(v, Fe):
        return v
    if isinstance(v, S) and len(v.f) == 1 and isinstance(v.f[0], S) and len(v.f[0].f) == 5:
        n = number(v.f[0].f)
        lo, hi = poly.rng(n)
        known = isinstance(n, P) and n.key() in _NUMBER
        if not known:
            if lo is None or hi is None or lo < 0 or hi >= 1 << 256:
                raise Fail('operand limbs may exceed 256 bits')
            if canonical and hi >= ft.p:
                raise Fail('operand of a field operation may be non-canonical')
        return fe_scale(from_int(ft, n), pow(pow(2, RR, ft.p), -1, ft.p))
    if isinstance(v, absint.Poison):
        raise Unsupported('poison: %s' % getattr(v, 'why', v))
    raise Unsupported('not a field element: %r' % (type(v).__name__,))

def fe_add(a, b):
    c = dict(a.c)
    p = a.ft.p
    for m, v in b.c.items():
        w = (c.get(m, 0) + v) % p
        if w:
            c[m] = w
        else:
            c.pop(m, None)
    return Fe(a.ft, c)
def fe_scale(a, k):
    return Fe(a.ft, _norm({m: v * k for m, v in a.c.items()}, a.ft.p))
def fe_neg(a):
    return fe_scale(a, -1)
def fe_sub(a, b):
    return fe_add(a, fe_neg(b))
def fe_mul(a, b):
    if len(a.c) * len(b.c) > 20000:
        raise Unsupported('product of %d and %d terms' % (len(a.c), len(b.c)))
    c = {}
    p = a.ft.p
    for m1, v1 in a.c.items():
        for m2, v2 in b.c.items():
            m = poly._mono_mul(m1, m2)
            c[m] = c.get(m, 0) + v1 * v2
    return Fe(a.ft, _norm(c, p))
def fe_pow(a, n):
    r = from_int(a.ft, 1)
    while n:
        if n & 1:
            r = fe_mul(r, a)
        a = fe_mul(a, a)
        n >>= 1
    return r
def fe_select(ft, c, a, b):
    if isinstance(c, int):
        return a if c else b
    if same_fe(a, b):
        return a
    return fe_add(b, fe_mul(Fe(ft, _norm(poly.coeffs(c), ft.p)), fe_sub(a, b)))

def fe_eq(a, b):
    """0/1: whether two field values are equal."""
    d = fe_sub(a, b)
    k = d.const()
    if k is not None:
        return 1 if k == 0 else 0
    # canonical up to a unit
    m = max(d.c)
    d = fe_scale(d, pow(d.c[m], -1, d.ft.p))
    return poly.of_atom(poly.atom('feq', (d.ft.p, d.key()), 0, 1, ('feq', d)))

# ---- overrides ---------------------------------------------------------------
class FeOps:
    """Overrides replacing the proved operations of the given field types."""
    def __init__(self, fts=None, mul=None):
        self.ov = {}
        self.used = set()
        for ft in fts or FTS:
            self.add(ft)
    def add(self, ft):
        import p01
        n = re.escape(ft.name)
        ops = {'add': fe_add, 'sub': fe_sub, 'mul': fe_mul}
        def val(it, v, canonical=True):
            while isinstance(v, R):
                v = it.load(v)
            return lift(ft, v, it, canonical)
        def mkop(name, op, form):
            self.used.add((ft.label, op))
            if op in ops:
                f2 = ops[op]
                can = op != 'mul'
                if form.endswith('Assign'):
                    def h(it, args, f):
                        it.store(args[0], f2(val(it, args[0], can), val(it, args[1], can)))
                        return absint.UNIT
                else:
                    def h(it, args, f):
                        return f2(val(it, args[0], can), val(it, args[1], can))
            elif op == 'neg':
                def h(it, args, f):
                    return fe_neg(val(it, args[0]))
            elif op == 'double':
                def h(it, args, f):
                    return fe_scale(val(it, args[0]), 2)
            else:
                def h(it, args, f):
                    x = val(it, args[0], False)
                    return fe_mul(x, x)
            self.ov[name] = h
        for name in list(ft.prog.byname):
            pass
        self.patterns(ft, mkop, val)
    def patterns(self, ft, mkop, val):
        """Register by instance name, for the field's own crate and for crates that use it."""
        N = ft.name
        for tr, op in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul')):
            for l in ('', '&'):
                for r in ('', '<&%s>' % N, '<%s>' % N):
                    mkop('<%s%s as std::ops::%s%s>::%s' % (l, N, tr, r, op), op, tr)
            for r in ('', '<&%s>' % N, '<%s>' % N):
                mkop('<%s as std::ops::%sAssign%s>::%s_assign' % (N, tr, r, op), op, tr + 'Assign')
        for l in ('', '&'):
            mkop('<%s%s as std::ops::Neg>::neg' % (l, N), 'neg', 'Neg')
        for op in ('add', 'sub', 'mul', 'neg', 'double', 'square'):
            mkop('%s::%s' % (N, op), op, op)
        for op in ('double', 'square'):
            mkop('<%s as ff::Field>::%s' % (N, op), op, op)
        def eq(it, args, f):
            return fe_eq(val(it, args[0]), val(it, args[1]))
        def ne(it, args, f):
            return poly.bnot(eq(it, args, f))
        for t in ('subtle', 'k256::elliptic_curve::subtle'):
            self.ov['<%s as %s::ConstantTimeEq>::ct_eq' % (N, t)] = eq
            self.ov['<%s as %s::ConditionallySelectable>::conditional_select' % (N, t)] = \
                lambda it, a, f: it.select(a[2], val(it, a[1]), val(it, a[0]))
        self.ov['<%s as std::cmp::PartialEq>::eq' % N] = eq
        self.ov['<%s as std::cmp::PartialEq>::ne' % N] = ne
        self.ov['<%s as ff::Field>::is_zero' % N] = lambda it, a, f: fe_eq(val(it, a[0]), from_int(ft, 0))

def has_names(ft, names):
    miss = [n for n in names if n not in ft.prog.byname]
    if miss:
        raise Fail('not found: %s' % ', '.join(miss))

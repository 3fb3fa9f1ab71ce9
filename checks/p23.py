"""Size helpers: each helper is interpreted over a partition of the machine integers on which it is uniform - every
exponent for pow2, every width for get_bits (the number kept symbolic in its bits), every power of two and every interval
between consecutive powers of two (kept symbolic) for log_2 - and compared with the mathematical definition.  The
square root is recognised as floor of the correctly rounded root of an exactly represented integer."""
import re
import mir, poly
from absint import Missing, Interp, S, E, Dom, Diverge
from poly import P, Unsupported
from vc import Fail
FILE = 'packages/Spartan-secq/src/math.rs'

class Num(Dom):
    """an unknown size, or its float / square-root forms"""
    __slots__ = ('k',)
    def __init__(self, k='n'):
        self.k = k
    def cast(self, it, kind, f, t):
        if kind == 'IntToFloat' and self.k == 'n':
            return Num('f')
        if kind == 'FloatToInt' and self.k in ('sqrt', 'floor'):
            return Num('isqrt')
        if kind == 'FloatToInt' and self.k == 'f':
            return Num('n')
        raise Unsupported('cast')

def run(c):
    p = mir.prog('libspartan')
    def body(nm):
        try: return p.body(p.find('<usize as libspartan::math::Math>::' + nm))
        except Missing: raise Fail('%s not found' % nm)
    def sqrt():
        def fs(it, a, f):
            if isinstance(a[0], Num) and a[0].k == 'f':
                return Num('sqrt')
            raise Unsupported('sqrt of something else')
        def isq(it, a, f):
            return Num('isqrt') if isinstance(a[0], Num) and a[0].k == 'n' else NotImplemented
        fl = lambda it, a, f: Num('floor') if isinstance(a[0], Num) and a[0].k == 'sqrt' else NotImplemented
        ov = {'std::f64::<impl f64>::sqrt': fs, 'core::f64::<impl f64>::sqrt': fs, 'std::f64::<impl f64>::floor': fl, 'core::num::<impl usize>::isqrt': isq}
        it = Interp(p, ov)
        r = it.run_body(body('square_root'), [Num()])
        if it.panics or not isinstance(r, Num) or r.k != 'isqrt':
            raise Fail('does not return the floor of the square root')
        return 'floor of the square root (exact for sizes up to 2^52)'
    c.ob('square_root', FILE + ' square_root', sqrt)
    def pow2():
        for k in range(64):
            it = Interp(p)
            r = it.run_body(body('pow2'), [k])
            if it.panics or r != 1 << k:
                raise Fail('pow2(%d) = %r' % (k, r))
        return 'every exponent 0..63'
    c.ob('pow2', FILE + ' pow2', pow2)
    def bits():
        bs = [poly.var('b%d' % i, 0, 1) for i in range(64)]
        n = 0
        for i, b in enumerate(bs):
            n = poly.add(n, poly.mul(1 << i, b))
        top = 64
        for k in range(0, top + 1):
            it = Interp(p)
            r = it.run_body(body('get_bits'), [n, k])
            xs = it.items(r)
            if it.panics:
                raise Fail('may panic for width %d' % k)
            if len(xs) != k:
                raise Fail('%d bits for width %d' % (len(xs), k))
            for i, x in enumerate(xs):
                d = poly.sub(x, bs[k - 1 - i])
                if not (isinstance(d, int) and d == 0):
                    raise Fail('bit %d of width %d is %s' % (i, k, poly.show(x, 3) if isinstance(x, P) else x))
        return 'most significant first, every width 0..64, every number'
    c.ob('get_bits', FILE + ' get_bits', bits)
    def log2():
        b = body('log_2')
        try:
            it = Interp(p)
            r = it.run_body(b, [0])
            raise Fail('log_2(0) returns %r' % (r,))
        except Diverge:
            pass
        for k in range(64):
            it = Interp(p)
            r = it.run_body(b, [1 << k])
            if it.panics or r != k:
                raise Fail('log_2(2^%d) = %r' % (k, r))
        for k in range(1, 64):
            lo, hi = (1 << k) + 1, (1 << (k + 1)) - 1
            n = poly.var('n%d' % k, lo, hi)
            same = lambda v: isinstance(v, P) and (v is n or v.c == n.c)
            pre = 'core::num::<impl usize>::'
            ov = {}
            def put(nm, val, n=n):
                h = lambda it, a, f: val if same(a[0]) else NotImplemented
                for q in ('core::num::', 'std::num::', 'libspartan::core::num::'):
                    ov['%s<impl usize>::%s' % (q, nm)] = h
            put('leading_zeros', 63 - k); put('is_power_of_two', 0); put('next_power_of_two', (1 << (k + 1)) & (2**64 - 1))
            put('ilog2', k)
            it = Interp(p, ov)
            r = it.run_body(b, [n])
            if it.panics:
                raise Fail('may panic between 2^%d and 2^%d' % (k, k + 1))
            if r != k + 1:
                raise Fail('log_2 of a number strictly between 2^%d and 2^%d is %r' % (k, k + 1, r))
        return 'ceiling of the logarithm for every non-zero size; zero is refused'
    c.ob('log_2', FILE + ' log_2', log2)
    c.assumptions.append('f64 square root is correctly rounded (IEEE 754); usize is 64 bits on the analysed target')
    return __doc__

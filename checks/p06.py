"""Every polynomial routine is interpreted, for each size in a range, on unknown coefficients, evaluations and points, and
its result is compared as a field term with the algebraic definition (multilinear extension over the Boolean cube with the
first variable most significant, interpolation through 0..d, eq and identity polynomials)."""
import poly, vn, proto
from absint import S, Diverge
from vc import Fail
from vn import V, var, const, add, sub, mul, vsum, vprod
from proto import prog, new_interp, get
from spartan import eqtab, eqat, mle, dot, ONE, ZERO
from p07 import ASSUME
DM, UP = 'libspartan::dense_mlpoly::', 'libspartan::unipoly::'
FD, FU, FS = 'packages/Spartan-secq/src/dense_mlpoly.rs ', 'packages/Spartan-secq/src/unipoly.rs ', 'packages/Spartan-secq/src/sparse_mlpoly.rs '

class H:
    """one interpretation"""
    def __init__(self):
        self.it = new_interp()
    def vec(self, xs):
        return S('vec', tuple(xs))
    def sl(self, xs):
        return self.it.ref(S('arr', tuple(xs)))
    def call(self, n, *a):
        r = self.it.callfn(n, list(a))
        if self.it.panics:
            raise Fail('%s may panic' % n.split('::')[-1])
        return r
    def V(self, x):
        return vn.lift(x, self.it)
    def Vs(self, x):
        return [vn.lift(y, self.it) for y in self.it.items(x)]
    def dense(self, xs):
        return self.it.ref(self.call(DM + 'DensePolynomial::new', self.vec(xs)))
    def table(self, d):
        """the current table of a dense polynomial: its first len() entries"""
        n = self.call(DM + 'DensePolynomial::len', d)
        k = self.call(DM + 'DensePolynomial::get_num_vars', d)
        if n != 1 << k:
            raise Fail('%d entries for %d variables' % (n, k))
        return [self.V(self.call('<libspartan::dense_mlpoly::DensePolynomial as std::ops::Index<usize>>::index', d, i)) for i in range(n)]

def eq(a, b, what):
    if len(a) != len(b):
        raise Fail('%s: %d values instead of %d' % (what, len(a), len(b)))
    for i, (x, y) in enumerate(zip(a, b)):
        if x.v != y.v:
            raise Fail('%s: value %d differs from the definition' % (what, i))
def eq1(a, b, what):
    if a.v != b.v:
        raise Fail('%s differs from the definition' % what)
def vs(n, k):
    return [var('%s%d' % (n, i)) for i in range(k)]
def refuses(f, what):
    try:
        f()
    except (Diverge, Fail):
        return
    raise Fail('%s is accepted' % what)

def run(c):
    top = {'quick': 7, 'thorough': 10, 'deep': 13}[c.tier]
    # ---- univariate
    def from_evals():
        for n in (3, 4):
            h = H()
            e = vs('e', n)
            u = h.it.ref(h.call(UP + 'UniPoly::from_evals', h.sl(e)))
            co = h.Vs(h.call(UP + 'UniPoly::as_vec', u))
            if len(co) != n or h.call(UP + 'UniPoly::degree', u) != n - 1:
                raise Fail('%d evaluations give degree %d' % (n, len(co) - 1))
            for x in range(n):
                eq1(vsum(mul(k, const(x ** i)) for i, k in enumerate(co)), e[x], 'the interpolated polynomial at %d' % x)
        for n in (0, 1, 2, 5):
            h = H()
            refuses(lambda: h.call(UP + 'UniPoly::from_evals', h.sl(vs('e', n))), '%d evaluations' % n)
        return 'degree 2 and 3, exact at every interpolation point'
    c.ob('univariate/from_evals', FU + 'UniPoly::from_evals', from_evals)
    def mk(h, co):
        t = proto.tid(h.it.p, 'libspartan::unipoly::UniPoly')
        return h.it.ref(S(t, (h.vec(co),)))
    def evaluate():
        for n in range(1, 7):
            h = H()
            co, r = vs('c', n), var('r')
            u = mk(h, co)
            pw, w = ONE, ZERO
            for k in co:
                w, pw = add(w, mul(k, pw)), mul(pw, r)
            eq1(h.V(h.call(UP + 'UniPoly::evaluate', u, h.it.ref(r))), w, 'evaluate with %d coefficients' % n)
            eq1(h.V(h.call(UP + 'UniPoly::eval_at_zero', u)), co[0], 'eval_at_zero')
            eq1(h.V(h.call(UP + 'UniPoly::eval_at_one', u)), vsum(co), 'eval_at_one')
            if h.call(UP + 'UniPoly::degree', u) != n - 1:
                raise Fail('degree')
        return 'up to 6 coefficients'
    c.ob('univariate/evaluate', FU + 'UniPoly::evaluate, eval_at_zero, eval_at_one, degree', evaluate)
    def compress():
        for n in range(2, 7):
            h = H()
            co = vs('c', n)
            hint = add(co[0], vsum(co))
            z = h.it.ref(h.call(UP + 'UniPoly::compress', mk(h, co)))
            kept = h.Vs(get(h.it.p, h.it.load(z), 'coeffs_except_linear_term'))
            if len(kept) != n - 1:
                raise Fail('%d coefficients kept of %d' % (len(kept), n))
            d = h.it.ref(h.call(UP + 'CompressedUniPoly::decompress', z, h.it.ref(hint)))
            eq(h.Vs(h.call(UP + 'UniPoly::as_vec', d)), co, 'decompression of %d coefficients' % n)
            # on an unknown message the hint is the sum of the values at 0 and 1
            h = H()
            t = proto.tid(h.it.p, 'libspartan::unipoly::CompressedUniPoly')
            k = vs('k', n - 1)
            hint = var('hint')
            co = h.Vs(h.call(UP + 'UniPoly::as_vec', h.it.ref(h.call(UP + 'CompressedUniPoly::decompress', h.it.ref(S(t, (h.vec(k),))), h.it.ref(hint)))))
            if len(co) != n:
                raise Fail('%d coefficients from %d' % (len(co), n - 1))
            eq1(add(co[0], vsum(co)), hint, 'value at 0 plus value at 1')
            eq([co[0]] + co[2:], k, 'kept coefficients')
        return 'decompression inverts compression and meets the hint'
    c.ob('univariate/compress', FU + 'UniPoly::compress, CompressedUniPoly::decompress', compress)
    # ---- eq, identity
    def evals():
        for k in range(0, top):
            h = H()
            r = vs('r', k)
            e = h.it.ref(h.call(DM + 'EqPolynomial::new', h.vec(r)))
            eq(h.Vs(h.call(DM + 'EqPolynomial::evals', e)), eqtab(r), 'eq table of %d variables' % k)
        return 'up to %d variables' % (top - 1)
    c.ob('eq/evals', FD + 'EqPolynomial::evals', evals)
    def eqev():
        for k in range(1, 20):
            h = H()
            r, s = vs('r', k), vs('s', k)
            e = h.it.ref(h.call(DM + 'EqPolynomial::new', h.vec(r)))
            eq1(h.V(h.call(DM + 'EqPolynomial::evaluate', e, h.sl(s))), eqat(r, s), 'eq of %d variables' % k)
            for m in (k - 1, k + 1):
                h2 = H()
                e2 = h2.it.ref(h2.call(DM + 'EqPolynomial::new', h2.vec(r)))
                refuses(lambda: h2.call(DM + 'EqPolynomial::evaluate', e2, h2.sl(vs('s', m))), 'a point of %d coordinates for %d variables' % (m, k))
        return 'up to 19 variables'
    c.ob('eq/evaluate', FD + 'EqPolynomial::evaluate', eqev)
    def fact():
        for k in range(0, top + 2):
            h = H()
            r = vs('r', k)
            a, b = h.it.items(h.call(DM + 'EqPolynomial::compute_factored_lens', k))
            if (a, b) != (k // 2, k - k // 2):
                raise Fail('factored lengths of %d are %r' % (k, (a, b)))
            e = h.it.ref(h.call(DM + 'EqPolynomial::new', h.vec(r)))
            L, R = h.call(DM + 'EqPolynomial::compute_factored_evals', e).f
            eq(h.Vs(L), eqtab(r[:a]), 'left factor')
            eq(h.Vs(R), eqtab(r[a:]), 'right factor')
        return 'up to %d variables' % (top + 1)
    c.ob('eq/factored', FD + 'EqPolynomial::compute_factored_evals', fact)
    def ident():
        for k in range(1, 40):
            h = H()
            r = vs('r', k)
            e = h.it.ref(h.call(DM + 'IdentityPolynomial::new', k))
            eq1(h.V(h.call(DM + 'IdentityPolynomial::evaluate', e, h.sl(r))), vsum(mul(const(1 << (k - 1 - i)), x) for i, x in enumerate(r)), 'identity polynomial of %d variables' % k)
        return 'up to 39 variables'
    c.ob('identity', FD + 'IdentityPolynomial::evaluate', ident)
    # ---- dense
    def deval():
        for k in range(0, top):
            h = H()
            z, r = vs('z', 1 << k), vs('r', k)
            d = h.dense(z)
            eq(h.table(d), z, 'table')
            eq1(h.V(h.call(DM + 'DensePolynomial::evaluate', d, h.sl(r))), mle(z, r), 'evaluation in %d variables' % k)
            h2 = H()
            d2 = h2.dense(z)
            refuses(lambda: h2.call(DM + 'DensePolynomial::evaluate', d2, h2.sl(vs('r', k + 1))), 'a point with a coordinate too many')
        return 'up to %d variables' % (top - 1)
    c.ob('dense/evaluate', FD + 'DensePolynomial::evaluate', deval)
    def dbound(which):
        def f():
            for k in range(1, top):
                h = H()
                z = vs('z', 1 << k)
                d = h.dense(z)
                cur = z
                for j in range(k):
                    r = var('r%d' % j)
                    h.call(DM + 'DensePolynomial::bound_poly_var_' + which, d, h.it.ref(r))
                    n = len(cur) // 2
                    cur = [add(x, mul(r, sub(y, x))) for x, y in (zip(cur[:n], cur[n:]) if which == 'top' else zip(cur[::2], cur[1::2]))]
                    eq(h.table(d), cur, 'binding %d of %d variables' % (j + 1, k))
                    eq(h.table(h.it.ref(h.call(DM + 'DensePolynomial::clone', d))), cur, 'clone of a bound polynomial')
            return 'every step, up to %d variables' % (top - 1)
        return f
    c.ob('dense/bind first variable', FD + 'DensePolynomial::bound_poly_var_top', dbound('top'))
    c.ob('dense/bind last variable', FD + 'DensePolynomial::bound_poly_var_bot', dbound('bot'))
    def dmat():
        for k in range(0, top):
            h = H()
            z = vs('z', 1 << k)
            a, b = k // 2, k - k // 2
            L = vs('l', 1 << a)
            got = h.Vs(h.call(DM + 'DensePolynomial::bound', h.dense(z), h.sl(L)))
            eq(got, [vsum(mul(L[i], z[i * (1 << b) + j]) for i in range(1 << a)) for j in range(1 << b)], 'product of the row vector with the %d-variable matrix' % k)
        return 'up to %d variables' % (top - 1)
    c.ob('dense/matrix product', FD + 'DensePolynomial::bound', dmat)
    def dsplit():
        for k in range(1, top):
            h = H()
            z = vs('z', 1 << k)
            for i in range(0, k):
                idx = 1 << i
                a, b = h.call(DM + 'DensePolynomial::split', h.dense(z), idx).f
                eq(h.table(h.it.ref(a)), z[:idx], 'left part')
                eq(h.table(h.it.ref(b)), z[idx:2 * idx], 'right part')
            d = h.dense(z)
            o = vs('o', 1 << k)
            h.call(DM + 'DensePolynomial::extend', d, h.dense(o))
            eq(h.table(d), z + o, 'extension')
            h2 = H()
            d2 = h2.dense(z)
            refuses(lambda: h2.call(DM + 'DensePolynomial::extend', d2, h2.dense(vs('o', 1 << (k - 1)))), 'an extension by another size')
        return 'split and extend'
    c.ob('dense/split, extend', FD + 'DensePolynomial::split, extend', dsplit)
    def merge():
        import re
        ms = [n for n in prog().byname if n.startswith(DM + 'DensePolynomial::merge')]
        if not ms:
            raise Fail('not found')
        for m in range(1, 9):
            for n in (1, 2, 4):
                h = H()
                zs = [vs('z%d_' % i, n) for i in range(m)]
                arr = S('arr', tuple(h.it.load(h.dense(z)) for z in zs))
                a = h.it.ref(arr)
                src = slice_iter(h.it, a)
                r = h.call(ms[0], src)
                tot = 1 << (m * n - 1).bit_length()
                flat = [x for z in zs for x in z]
                eq(h.table(h.it.ref(r)), flat + [ZERO] * (tot - len(flat)), 'merge of %d tables of %d' % (m, n))
        return 'concatenation padded with zeros to a power of two'
    c.ob('dense/merge', FD + 'DensePolynomial::merge', merge)
    def fromus():
        xs = [0, 1, 2, 7, 2**16, 2**31, 2**32 + 5, 2**63 + 11]
        h = H()
        d = h.it.ref(h.call(DM + 'DensePolynomial::from_usize', h.sl(xs)))
        eq(h.table(d), [const(x) for x in xs], 'table of integers')
        return 'integer entries'
    c.ob('dense/from_usize', FD + 'DensePolynomial::from_usize', fromus)
    # ---- sparse
    def sparse():
        for k in range(1, 6):
            for n in range(0, (1 << k) + 1):
                h = H()
                idx = [(5 * i + 3) % (1 << k) for i in range(n)]
                v, r = vs('v', n), vs('r', k)
                es = [h.call('libspartan::sparse_mlpoly::SparsePolyEntry::new', i, x) for i, x in zip(idx, v)]
                s = h.it.ref(h.call('libspartan::sparse_mlpoly::SparsePolynomial::new', k, h.vec(es)))
                t = eqtab(r)
                eq1(h.V(h.call('libspartan::sparse_mlpoly::SparsePolynomial::evaluate', s, h.sl(r))), vsum(mul(t[i], x) for i, x in zip(idx, v)), 'sparse polynomial with %d entries in %d variables' % (n, k))
        return 'up to 5 variables, every number of entries'
    c.ob('sparse/evaluate', FS + 'SparsePolynomial::evaluate', sparse)
    c.assumptions += ['decided for the listed sizes; at each size for all values', ASSUME[2]] 
    return __doc__

def slice_iter(it, ref):
    from absint import It
    n = it.length(ref)
    return It(tuple(it.subref(ref, i) for i in range(n)))

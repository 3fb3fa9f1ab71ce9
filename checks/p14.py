"""Instance and assignment construction are interpreted for every small size on unknown coefficients and values; the built
matrices, applied to the padded assignment, must give the same products row by row as the given ones, every index outside
the matrices and every non-canonical coefficient must lead to an error, and satisfiability must be exactly the conjunction
of the row equations."""
import proto, vn, pcheck, poly
from absint import S, E, Diverge
from vc import Fail
from vn import V, var, const, add, sub, mul, vsum
from proto import prog, new_interp, get, outcome, payload
from spartan import ONE, ZERO, p2
from fields import P_SECP
from p06 import H, eq, eq1, vs
from p07 import ASSUME
IN = 'libspartan::Instance::'
RI = 'libspartan::r1csinstance::R1CSInstance::'
F = 'packages/Spartan-secq/src/lib.rs '

def ent(h, es):
    return h.sl([S('tup', (r, k, S('arr', v if isinstance(v, tuple) else vn.scalar_bytes(v)))) for r, k, v in es])
def err(r):
    """names of the errors of a result that is certainly an error"""
    if not isinstance(r, E) or any(v == 0 and k != 0 for v, k, f in r.alts):
        raise Fail('is accepted')
    return r
def errname(h, r):
    out = set()
    for v, k, f in err(r).alts:
        if k != 0:
            x = h.it.load(f[0]) if not isinstance(f[0], E) else f[0]
            out |= {a for a, kk, ff in x.alts if kk != 0}
    return out

def instance(h, nc, nv, ni, *m):
    r = h.it.callfn(IN + 'new', [nc, nv, ni] + [ent(h, x) for x in m])
    if h.it.panics:
        raise Fail('building an instance may panic')
    return r
def assign(h, xs):
    r = h.it.callfn('libspartan::Assignment::new', [h.sl([S('arr', x if isinstance(x, tuple) else vn.scalar_bytes(x)) for x in xs])])
    if h.it.panics:
        raise Fail('building an assignment may panic')
    return r
def certain(r):
    if outcome_of(r) != 1:
        raise Fail('is refused')
    return payload(r)[0]
def outcome_of(r):
    c = 0
    for v, k, f in r.alts:
        if v == 0:
            c = poly.add(c, k)
    return c
def run(c):
    quick = c.tier == 'quick'
    top = {'quick': (6, 6, 5), 'thorough': (10, 10, 9), 'deep': (10, 18, 17)}[c.tier]
    sizes = [(nc, nv, ni) for nc in range(top[0]) for nv in range(top[1]) for ni in range(top[2])]
    sizes = [s for s in sizes if s[0] in (0, 1, 2, 3, 4, 5, 7, 8, 9)]
    def mats(nc, nv, ni, t):
        cols = nv + 1 + ni
        if nc == 0:
            return [[], [], []]
        cells = [(r, k) for r in range(nc) for k in range(cols)]
        if len(cells) > 36:
            cells = [x for i, x in enumerate(cells) if i % (1 + len(cells) // 30) == t % 2 or x in ((0, 0), (nc - 1, cols - 1), (nc - 1, nv), (0, nv), (nc - 1, max(0, nv - 1)))]
        A = [(r, k, var('a%d_%d' % (r, k))) for r, k in cells]
        B = [(r, k, var('b%d_%d' % (r, k))) for r, k in reversed(cells)]
        C = [(r, k, var('c%d_%d' % (r, k))) for r, k in cells[::2]] + [(cells[0][0], cells[0][1], var('c_again'))]
        return [[A, B, C], [C, [], A[:1]], [[], A[-1:], []]][t]
    def rows(m, z, n):
        return [vsum(mul(v, z[k]) for r, k, v in m if r == i) for i in range(n)]
    def same(s):
        nc, nv, ni = s
        def f():
            for t in range(3):
                h = H()
                m = mats(nc, nv, ni, t)
                if nc == 0:
                    m = [[], [], []]
                inst = certain(instance(h, nc, nv, ni, *m))
                ri = h.it.ref(get(h.it.p, inst, 'inst'))
                NC, NV, NI = [h.call(RI + g, ri) for g in ('get_num_cons', 'get_num_vars', 'get_num_inputs')]
                if NI != ni or NV != p2(max(nv, ni + 1)) or NC != max(2, p2(max(nc, 1))):
                    raise Fail('sizes %d constraints, %d variables, %d inputs for %d, %d, %d' % (NC, NV, NI, nc, nv, ni))
                w, x = vs('w', nv), vs('x', ni)
                z = w + [ONE] + x
                zp = w + [ZERO] * (NV - nv) + [ONE] + x
                got = h.call(RI + 'multiply_vec', ri, NC, NV + 1 + ni, h.sl(zp)).f
                prods = []
                for g, q in zip(got, m):
                    want = rows(q, z, nc)
                    g = h.table(h.it.ref(g) if isinstance(g, S) else g)
                    eq(g, want + [ZERO] * (NC - nc), 'rows of a matrix with %d constraints, %d variables, %d inputs' % s)
                    prods.append(want)
                # satisfiability: exactly the row equations, with the unpadded and the padded assignment
                for vals in (w, w + [ZERO] * (NV - nv)):
                    va, ia = certain(assign(h, vals)), certain(assign(h, x))
                    r = h.call(IN + 'is_sat', h.it.ref(inst), h.it.ref(va), h.it.ref(ia))
                    bit = certain(r)
                    want = 1
                    for i in range(nc):
                        want = poly.mul(want, vn.veq(mul(prods[0][i], prods[1][i]), prods[2][i]))
                    d = poly.sub(bit, want)
                    if not (isinstance(d, int) and d == 0):

                        raise Fail('satisfiability is not the conjunction of the %d row equations (%d variables, %d inputs)' % (nc, nv, ni))
                # lengths
                for k in {0, 1, ni - 1, ni + 1, ni + 5} - {ni}:
                    if k >= 0:
                        va, ia = certain(assign(h, w)), certain(assign(h, vs('y', k)))
                        if outcome_of(h.call(IN + 'is_sat', h.it.ref(inst), h.it.ref(va), h.it.ref(ia))) != 0:
                            raise Fail('%d public inputs instead of %d are not reported' % (k, ni))
                for k in (NV + 1, 2 * NV, NV + 1 + ni):
                    va, ia = certain(assign(h, vs('w', k))), certain(assign(h, x))
                    if outcome_of(h.call(IN + 'is_sat', h.it.ref(inst), h.it.ref(va), h.it.ref(ia))) != 0 and k > NV:
                        raise Fail('%d variables for %d are not reported' % (k, NV))
            return ''
        return ('statement %d,%d,%d' % s, F + 'Instance::new, Instance::is_sat', f)
    def bad(s):
        nc, nv, ni = s
        cols = nv + 1 + ni
        def f():
            n = 0
            v = var('v')
            names = set()
            for k in range(3):
                good = [(0, 0, var('g'))] if nc else []
                for r, q in [(nc, 0), (nc + 1, 0), (p2(max(nc, 1)), 0), (2 * nc + 1, cols - 1), (0, cols), (0, cols + 1), (0, 2 * cols + 7), (max(nc - 1, 0), cols), (nc, cols), (2**40, 0), (0, 2**40)]:
                    if r < nc and q < cols:
                        continue
                    for at in range(2):
                        h = H()
                        m = [list(good), list(good), list(good)]
                        m[k] = m[k] + [(r, q, v)] if at else [(r, q, v)] + m[k]
                        e = instance(h, nc, nv, ni, *m)
                        try:
                            names |= {('index', x) for x in errname(h, e)}
                        except Fail:
                            raise Fail('entry (%d,%d) of a system with %d constraints and %d columns is accepted' % (r, q, nc, cols))
                        n += 1
                if nc:
                    for val in (P_SECP, P_SECP + 1, 2**256 - 1, P_SECP + 77):
                        for col in (0, nv, cols - 1):
                            h = H()
                            m = [list(good), list(good), list(good)]
                            m[k] = [(nc - 1, col, tuple(val.to_bytes(32, 'little')))] + m[k]
                            try:
                                names |= {('scalar', x) for x in errname(h, instance(h, nc, nv, ni, *m))}
                            except Fail:
                                raise Fail('coefficient %d above the modulus is accepted' % (val - P_SECP))
                            n += 1
                    # an arbitrary 32-byte string: accepted exactly when it is canonical
                    h = H()
                    bs = tuple(poly.var('byte%d' % i, 0, 255) for i in range(32))
                    m = [list(good), list(good), list(good)]
                    m[k] = m[k] + [(nc - 1, cols - 1, bs)]
                    o = outcome_of(instance(h, nc, nv, ni, *m))
                    if isinstance(o, int) or len(poly.atoms_of(o)) != 1 or poly.ATOMS[next(iter(poly.atoms_of(o)))].kind != 'canonical' or poly.subst(o, {next(iter(poly.atoms_of(o))): 1}) != 1 or poly.subst(o, {next(iter(poly.atoms_of(o))): 0}) != 0:
                        raise Fail('an unknown coefficient is not accepted exactly when it is canonical')
            kinds = {a: {x for b, x in names if b == a} for a in ('index', 'scalar')}
            if any(len(x) > 1 for x in kinds.values()) or kinds['index'] & kinds['scalar']:
                raise Fail('errors are not told apart: %s' % kinds)
            return '%d wrong entries' % n
        return ('bad entries %d,%d,%d' % s, F + 'Instance::new', f)
    few = [s for s in sizes if s in ((0, 1, 0), (1, 1, 0), (1, 2, 1), (2, 2, 1), (3, 3, 2), (4, 4, 3), (5, 5, 0), (3, 5, 4), (2, 0, 1))] if quick else [s for s in sizes if sum(s) % 3 == 0]
    pcheck.par(c, [same(s) for s in sizes] + [bad(s) for s in few], chunk=2)
    def assignments():
        for n in range(0, 6):
            h = H()
            xs = vs('x', n)
            a = certain(assign(h, xs))
            eq(h.Vs(get(h.it.p, a, 'assignment')), xs, 'assignment of %d values' % n)
            for i in range(n):
                for val in (P_SECP, 2**256 - 1):
                    ys = list(xs)
                    ys[i] = tuple(val.to_bytes(32, 'little'))
                    if outcome_of(assign(h, ys)) != 0:
                        raise Fail('value %d of %d above the modulus is accepted' % (i, n))
            for k in range(n + 1, n + 9):
                r = h.call('libspartan::Assignment::pad', h.it.ref(a), k)
                eq(h.Vs(get(h.it.p, r, 'assignment')), xs + [ZERO] * (k - n), 'padding %d values to %d' % (n, k))
        return 'values kept in order, non-canonical values refused, padding appends zeros'
    c.ob('assignment', F + 'Assignment::new, Assignment::pad', assignments)
    def synthetic():
        n = 0
        # a random value may or may not be zero: every comparison with zero is answered both ways
        cases = [(s, a) for s in ((1, 1, 0), (2, 2, 1), (4, 4, 2), (2, 8, 3), (8, 4, 0), (8, 2, 1)) for a in (0, 1, 2, 3)]
        for (nc, nv, ni), a in cases:
            it = new_interp()
            old, ans = vn.eq_bit, {}
            def bit(kind, diff, allconst=False):
                k = min(diff % vn.p, -diff % vn.p)
                if k == 0 or allconst: return old(kind, diff, allconst)
                return ans.setdefault((kind, k), (0, 1, len(ans) & 1, 1 - (len(ans) & 1))[a])
            vn.eq_bit = bit
            try: r = it.callfn('libspartan::Instance::produce_synthetic_r1cs', [nc, nv, ni])
            finally: vn.eq_bit = old
            if it.panics: raise Fail('%d,%d,%d: producing a synthetic instance may stop' % (nc, nv, ni))
            inst, va, ia = r.f
            w, ins = [list(get(prog(), x, 'assignment').f) for x in (va, ia)]
            if (len(w), len(ins)) != (nv, ni): raise Fail('%d,%d,%d: %d variables and %d inputs are assigned' % (nc, nv, ni, len(w), len(ins)))
            R = get(prog(), inst, 'inst')
            if [get(prog(), R, k) for k in ('num_cons', 'num_vars', 'num_inputs')] != [nc, nv, ni]: raise Fail('%d,%d,%d: the instance has other sizes' % (nc, nv, ni))
            z = w + [ONE] + ins
            z += [ZERO] * (2 * nv - len(z))
            P = []
            for m in 'ABC':
                if [get(prog(), R, m, k) for k in ('num_vars_x', 'num_vars_y')] != [nc.bit_length() - 1, nv.bit_length()]: raise Fail('%d,%d,%d: the polynomial of %s has other sizes' % (nc, nv, ni, m))
                out = [ZERO] * nc
                for e in get(prog(), R, m, 'M').f:
                    i, j, v = e.f
                    if not (0 <= i < nc and 0 <= j < 2 * nv): raise Fail('%d,%d,%d: an entry of %s outside the matrix' % (nc, nv, ni, m))
                    out[i] = add(out[i], mul(v, z[j]))
                P.append(out)
            for i in range(nc):
                if sub(mul(P[0][i], P[1][i]), P[2][i]).v != 0: raise Fail('%d,%d,%d: constraint %d of the synthetic instance is not satisfied by its assignment' % (nc, nv, ni, i))
                n += 1
        return '%d constraints satisfied' % n
    c.ob('synthetic', F + 'Instance::produce_synthetic_r1cs', synthetic)
    c.assumptions += ['decided for all sizes below %d constraints, %d variables, %d inputs; at each size for all coefficients and assignments' % top, ASSUME[2]]
    return __doc__

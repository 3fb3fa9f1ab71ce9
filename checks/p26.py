"""Every sparse-matrix routine is interpreted on matrices with unknown values and each result is compared, as a term, with
the definition: M(x,y) = sum of value*eq(row,x)*eq(col,y), the product with a vector, the row-bound table, the dense
representation (addresses, read counts, final counts, values) and the layout of the joint polynomials that are committed."""
import random, proto, vn, pcheck
from absint import S
from vc import Fail
from vn import V, Cg, var, const, add, sub, mul, vsum, vprod
from proto import prog, new_interp, get
from spartan import eqtab, mle, dot, ZERO, p2
from p06 import H, eq, eq1, vs, refuses
from p07 import ASSUME
SP = 'libspartan::sparse_mlpoly::'
RI = 'libspartan::r1csinstance::R1CSInstance::'
F, FR, FP = 'packages/Spartan-secq/src/sparse_mlpoly.rs ', 'packages/Spartan-secq/src/r1csinstance.rs ', 'packages/Spartan-secq/src/product_tree.rs '

def patterns(nx, ny, ncol, tier):
    """positions of the entries: (rows, cols) lists covering corners, repetitions, shared rows and columns, any order"""
    R, rnd = 1 << nx, random.Random(1000 * nx + 10 * ny + ncol)
    cells = [(r, k) for r in range(R) for k in range(ncol)]
    out = [[(R - 1, ncol - 1)], [(0, ncol - 1), (R - 1, 0), (0, 0)], [(R - 1, ncol - 1)] * 3 + [(0, 0)]]
    out += [[(r, ncol - 1) for r in reversed(range(R))], [(R - 1, k) for k in range(ncol)]]
    for n in (2, 5, 8) if tier == 'quick' else (2, 3, 4, 5, 7, 8, 9, 12):
        out.append([rnd.choice(cells) for _ in range(n)])
    return [o for o in out if len(o) <= 16]

def sparse(h, nx, ny, pos, vals):
    es = [h.call(SP + 'SparseMatEntry::new', r, k, v) for (r, k), v in zip(pos, vals)]
    return h.it.ref(h.call(SP + 'SparseMatPolynomial::new', nx, ny, h.vec(es)))

def triples(h, pos, vals):
    return h.sl([S('tuple', (r, k, v)) for (r, k), v in zip(pos, vals)])

def tab(h, d):
    return h.table(d if not isinstance(d, S) else h.it.ref(d))

def run(c):
    quick = c.tier == 'quick'
    sizes = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 3)] + ([] if quick else [(3, 1), (2, 4), (4, 2), (4, 4)]) + ([(5, 5), (6, 3), (3, 7), (7, 7)] if c.tier == 'deep' else [])
    def one(t):
        nx, ny = t
        out, tag = [], '%dx%d' % (1 << nx, 1 << ny)
        R, K = 1 << nx, 1 << ny
        ob = lambda key, where, f: out.append((key + ' ' + tag, where, f))
        pats = patterns(nx, ny, K, c.tier)
        def evaluate():
            for pos in pats:
                h = H()
                rx, ry = vs('x', nx), vs('y', ny)
                ps = [sparse(h, nx, ny, q, vs('m%d_' % i, len(q))) for i, q in enumerate((pos, pos[:1], list(reversed(pos))))]
                got = h.Vs(h.call(SP + 'SparseMatPolynomial::multi_evaluate', h.sl(ps), h.sl(rx), h.sl(ry)))
                ex, ey = eqtab(rx), eqtab(ry)
                want = [vsum(mul(mul(ex[r], ey[k]), v) for (r, k), v in zip(q, vs('m%d_' % i, len(q)))) for i, q in enumerate((pos, pos[:1], list(reversed(pos))))]
                eq(got, want, 'evaluation with entries at %s' % pos)
            return '%d entry patterns' % len(pats)
        ob('evaluate', F + 'SparseMatPolynomial::multi_evaluate', evaluate)
        def product():
            for ncol in {K, max(1, K - 1), K // 2 + 1}:
                for pos in patterns(nx, ny, ncol, c.tier):
                    h = H()
                    v, z, x = vs('m', len(pos)), vs('z', ncol), vs('x', R)
                    sp = sparse(h, nx, ny, pos, v)
                    got = h.Vs(h.call(SP + 'SparseMatPolynomial::multiply_vec', sp, R, ncol, h.sl(z)))
                    eq(got, [vsum(mul(a, z[k]) for (r, k), a in zip(pos, v) if r == i) for i in range(R)], 'product with entries at %s' % pos)
                    got = h.Vs(h.call(SP + 'SparseMatPolynomial::compute_eval_table_sparse', sp, h.sl(x), R, ncol))
                    eq(got, [vsum(mul(a, x[r]) for (r, k), a in zip(pos, v) if k == j) for j in range(ncol)], 'row-bound table with entries at %s' % pos)
            return 'product with a vector and row-bound table'
        ob('multiply_vec, compute_eval_table_sparse', F + 'SparseMatPolynomial::multiply_vec, compute_eval_table_sparse', product)
        def instance():
            if nx < 1 or ny < 2:
                return 'no instance of this shape'
            nv = 1 << (ny - 1)
            for pos in pats:
                for ni in {0, nv - 1}:
                    h = H()
                    cols = nv + 1 + ni
                    q = [[(r, k % cols) for r, k in a] for a in (pos, pos[:1], list(reversed(pos))[:max(1, len(pos) - 1)])]
                    vals = [vs('%s' % n, len(a)) for n, a in zip('abc', q)]
                    inst = h.it.ref(h.call(RI + 'new', R, nv, ni, *[triples(h, a, v) for a, v in zip(q, vals)]))
                    if [h.call(RI + g, inst) for g in ('get_num_cons', 'get_num_vars', 'get_num_inputs')] != [R, nv, ni]:
                        raise Fail('sizes of the instance')
                    z, x = vs('z', cols), vs('x', R)
                    got = h.call(RI + 'multiply_vec', inst, R, cols, h.sl(z)).f
                    for g, a, v in zip(got, q, vals):
                        eq(tab(h, g), [vsum(mul(w, z[k]) for (r, k), w in zip(a, v) if r == i) for i in range(R)], 'product of the instance')
                    got = h.call(RI + 'compute_eval_table_sparse', inst, R, cols, h.sl(x)).f
                    for g, a, v in zip(got, q, vals):
                        eq(h.Vs(g), [vsum(mul(w, x[r]) for (r, k), w in zip(a, v) if k == j) for j in range(cols)], 'row-bound tables of the instance')
                    rx, ry = vs('r', nx), vs('s', ny)
                    ex, ey = eqtab(rx), eqtab(ry)
                    got = h.call(RI + 'evaluate', inst, h.sl(rx), h.sl(ry)).f
                    for g, a, v in zip(got, q, vals):
                        eq1(h.V(g), vsum(mul(mul(ex[r], ey[k]), w) for (r, k), w in zip(a, v)), 'evaluation of the instance')
            return 'instances with no and with all public inputs'
        ob('instance', FR + 'R1CSInstance::{new,multiply_vec,compute_eval_table_sparse,evaluate}', instance)
        def dense():
            n = 0
            for pos in pats:
                for b in (1, 2, 3):
                    h = H()
                    q = ([pos, list(reversed(pos))[:max(1, len(pos) // 2)], pos[1:] or pos])[:b]
                    vals = [vs('m%d_' % i, len(a)) for i, a in enumerate(q)]
                    ps = [sparse(h, nx, ny, a, v) for a, v in zip(q, vals)]
                    N = max(p2(len(a)) for a in q)
                    g = h.it.ref(h.call(SP + 'SparseMatPolyCommitmentGens::new', h.sl(tuple(b'gens')), nx, ny, N, b))
                    cm, de = h.call(SP + 'SparseMatPolynomial::multi_commit', h.sl(ps), g).f
                    cells = 1 << max(nx, ny)
                    p = h.it.p
                    rows = [[r for r, _ in a] + [0] * (N - len(a)) for a in q]
                    cols = [[k for _, k in a] + [0] * (N - len(a)) for a in q]
                    vv = [v + [ZERO] * (N - len(v)) for v in vals]
                    def stamps(ad):
                        last, rd = [0] * cells, []
                        for a in ad:
                            t = []
                            for i in a:
                                t.append(last[i]); last[i] += 1
                            rd.append(t)
                        return rd, last
                    (rr, ra), (cr, ca) = stamps(rows), stamps(cols)
                    flat = [const(x) for part in (rows, rr, cols, cr) for a in part for x in a] + [x for a in vv for x in a]
                    ops = flat + [ZERO] * (p2(len(flat)) - len(flat))
                    mem = [const(x) for x in ra + ca]
                    for nm, want in (('comb_ops', ops), ('comb_mem', mem)):
                        pl = get(p, de, nm)
                        eq(tab(h, pl), want, 'joint polynomial %s for entries at %s' % (nm, q))
                        C = h.it.items(get(p, cm, 'comm_' + nm, 'C'))
                        k = len(want).bit_length() - 1
                        L = 1 << (k // 2)
                        gs = get(p, h.it.load(g), 'gens_ops' if nm == 'comb_ops' else 'gens_mem', 'gens', 'gens_n')
                        Gs = [vn.gl(x, h.it) for x in h.it.items(get(p, gs, 'G'))]
                        hh = vn.gl(get(p, gs, 'h'), h.it)
                        w = len(want) // L
                        if len(C) != L or len(Gs) != w:
                            raise Fail('%d committed rows of %d for %d entries' % (len(C), len(Gs), len(want)))
                        for i in range(L):
                            x = h.it.load(C[i]) if not isinstance(C[i], Cg) else C[i]
                            if not isinstance(x, Cg) or x.v != proto.commit(want[i * w:(i + 1) * w], ZERO, Gs, hh).v:
                                raise Fail('committed row %d of %s for entries at %s' % (i, nm, q))
                    if (get(p, cm, 'batch_size'), get(p, cm, 'num_ops'), get(p, cm, 'num_mem_cells')) != (b, N, cells):
                        raise Fail('sizes in the commitment: %s' % [get(p, cm, x) for x in ('batch_size', 'num_ops', 'num_mem_cells')])
                    tx, ty = vs('x', cells), vs('y', cells)
                    dr = h.it.ref(h.call(SP + 'MultiSparseMatPolynomialAsDense::deref', h.it.ref(de), h.sl(tx), h.sl(ty)))
                    flat = [tx[i] for a in rows for i in a] + [ty[i] for a in cols for i in a]
                    flat += [ZERO] * (p2(len(flat)) - len(flat))
                    eq(tab(h, get(p, h.it.load(dr), 'comb')), flat, 'looked-up values for entries at %s' % q)
                    gd = get(p, h.it.load(g), 'gens_derefs', 'gens', 'gens_n')
                    if len(h.it.items(get(p, gd, 'G'))) * (1 << ((len(flat).bit_length() - 1) // 2)) != len(flat):
                        raise Fail('generators for the looked-up values')
                    n += 1
            return '%d batches of 1 to 3 matrices: addresses, counts, values, layout, commitment and look-ups' % n
        ob('dense representation', F + 'SparseMatPolynomial::multi_commit, MultiSparseMatPolynomialAsDense::deref', dense)
        return out
    pcheck.par(c, [o for t in sizes for o in one(t)])
    # ---- the memory check: hashes and products
    def layers():
        for cells, nops, b in ((2, 2, 1), (4, 2, 2), (4, 4, 3), (8, 4, 2)) if quick else ((2, 2, 1), (2, 4, 3), (4, 2, 2), (4, 4, 3), (8, 4, 2), (8, 8, 3)):
            h = H()
            ad = [[(3 * i * i + j + i) % cells for i in range(nops)] for j in range(b)]
            at = h.it.ref(h.call(SP + 'AddrTimestamps::new', cells, nops, h.vec([h.vec(a) for a in ad])))
            t, (g, u) = vs('t', cells), vs('g', 2)
            dv = h.call(SP + 'AddrTimestamps::deref', at, h.sl(t))
            ly = h.it.ref(h.call(SP + 'Layers::new', h.sl(t), at, h.sl(h.it.items(dv)), h.it.ref(S('tuple', (g, u)))))
            p = h.it.p
            pl = get(p, h.it.load(ly), 'prod_layer')
            hf = lambda a, v, ts: sub(add(add(mul(const(ts), mul(g, g)), mul(v, g)), const(a)), u)
            last = [0] * cells
            ev = lambda q: h.V(h.call('libspartan::product_tree::ProductCircuit::evaluate', h.it.ref(q) if isinstance(q, S) else q))
            eq1(ev(get(p, pl, 'init')), vprod(hf(i, t[i], 0) for i in range(cells)), 'initial memory')
            for a, rd, wr in zip(ad, h.it.items(get(p, pl, 'read_vec')), h.it.items(get(p, pl, 'write_vec'))):
                R, W = [], []
                for i in a:
                    R.append(hf(i, t[i], last[i]))
                    last[i] += 1
                    W.append(hf(i, t[i], last[i]))
                eq1(ev(rd), vprod(R), 'reads')
                eq1(ev(wr), vprod(W), 'writes')
            eq1(ev(get(p, pl, 'audit')), vprod(hf(i, t[i], last[i]) for i in range(cells)), 'final memory')
            h2 = H()
            refuses(lambda: h2.call(SP + 'AddrTimestamps::new', cells, nops, h2.vec([h2.vec([cells] * nops)])), 'an address out of the memory')
        return 'initial, read, write and final tuples of every shape'
    c.ob('memory check/products', F + 'Layers::new, AddrTimestamps::new', layers)
    def trees():
        PT = 'libspartan::product_tree::'
        for k in range(1, 6 if quick else 8):
            n = 1 << k
            h = H()
            z = vs('z', n)
            pc = h.it.ref(h.call(PT + 'ProductCircuit::new', h.dense(z)))
            eq1(h.V(h.call(PT + 'ProductCircuit::evaluate', pc)), vprod(z), 'product of %d values' % n)
            p = h.it.p
            lv, rv = [h.it.items(get(p, h.it.load(pc), f)) for f in ('left_vec', 'right_vec')]
            if len(lv) != k or len(rv) != k:
                raise Fail('%d layers for %d values' % (len(lv), n))
            cur = z
            for l, r in zip(lv, rv):
                eq(tab(h, l) + tab(h, r), cur, 'layer of %d values' % len(cur))
                m = len(cur) // 2
                cur = [mul(cur[i], cur[m + i]) for i in range(m)]
            a, b, w = vs('a', n), vs('b', n), vs('w', n)
            dp = h.call(PT + 'DotProductCircuit::new', *[h.it.load(h.dense(x)) for x in (a, b, w)])
            d = h.it.ref(dp)
            eq1(h.V(h.call(PT + 'DotProductCircuit::evaluate', d)), vsum(mul(mul(x, y), q) for x, y, q in zip(a, b, w)), 'weighted dot product')
            halves = h.call(PT + 'DotProductCircuit::split', d).f
            for q, s in zip(halves, (slice(0, n // 2), slice(n // 2, n))):
                eq1(h.V(h.call(PT + 'DotProductCircuit::evaluate', h.it.ref(q))), vsum(mul(mul(x, y), e) for x, y, e in zip(a[s], b[s], w[s])), 'half of a weighted dot product')
        return 'up to %d values' % n
    c.ob('product and dot-product circuits', FP + 'ProductCircuit, DotProductCircuit', trees)
    c.assumptions += ['decided for the listed shapes and entry patterns (corners, repeated cells, full rows and columns, scattered); at each for all values', ASSUME[2]]
    return __doc__

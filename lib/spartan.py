"""The Spartan protocol: reference verifiers (what is absorbed, which challenges are drawn, which relations must hold), shapes
of honest proofs, and harnesses that analyse the code's prover and verifier at a given shape."""
import re
import poly, vn, proto
from absint import S, E, R
from poly import P, Unsupported
from vc import Fail
from vn import V, G, Cg, const, var, gvar, add, sub, mul, neg, inv, gadd, gsub, gmul, gsum, vsum, vprod
from proto import Spec, get, prog, new_interp, symbolic, tid, outcome, payload, commit, compare

ONE, ZERO = const(1), const(0)
def lg(n):
    k = (n - 1).bit_length()
    return k
def p2(n):
    return 1 << lg(n)
def dot(a, b):
    if len(a) != len(b):
        raise Fail('specification: dot product of lengths %d and %d' % (len(a), len(b)))
    return vsum(mul(x, y) for x, y in zip(a, b))
def eqtab(r):
    """table of eq(r, .) with r[0] the most significant variable"""
    t = [ONE]
    for x in r:
        t = [w for y in t for w in (mul(y, sub(ONE, x)), mul(y, x))]
    return t
def eqat(r, s):
    return vprod(add(mul(a, b), mul(sub(ONE, a), sub(ONE, b))) for a, b in zip(r, s))
def mle(tab, r):
    return dot(tab, eqtab(r))

class Gens:
    def __init__(self, Gs, h):
        self.G, self.h, self.n = list(Gs), h, len(Gs)

# ---- sub-proofs -----------------------------------------------------------------------------
class Proto:
    """Reference verifiers.  f(v, name...) reads the proof object of the code."""
    def __init__(self, sp, p):
        self.sp, self.p = sp, p
    def f(self, v, *path):
        return get(self.p, v, *path)
    def fv(self, v, *path):
        return list(self.f(v, *path).f)
    def knowledge(self, pf, C, g, at):
        sp = self.sp
        sp.absorb(at + ' C', C)
        sp.absorb(at + ' alpha', self.f(pf, 'alpha'))
        c = sp.challenge(at)
        z1, z2 = self.f(pf, 'z1'), self.f(pf, 'z2')
        sp.geq(commit([z1], z2, g.G, g.h), gadd(gmul(c, sp.point(C)), sp.point(self.f(pf, 'alpha'))), at + ': commit(z1; z2) = c*C + alpha')
    def equality(self, pf, C1, C2, g, at):
        sp = self.sp
        sp.absorb(at + ' C1', C1)
        sp.absorb(at + ' C2', C2)
        sp.absorb(at + ' alpha', self.f(pf, 'alpha'))
        c = sp.challenge(at)
        sp.geq(gmul(self.f(pf, 'z'), g.h), gadd(gmul(c, gsub(sp.point(C1), sp.point(C2))), sp.point(self.f(pf, 'alpha'))), at + ': z*h = c*(C1-C2) + alpha')
    def product(self, pf, X, Y, Z, g, at):
        sp = self.sp
        al, be, de = (self.f(pf, n) for n in ('alpha', 'beta', 'delta'))
        for n, x in (('X', X), ('Y', Y), ('Z', Z), ('alpha', al), ('beta', be), ('delta', de)):
            sp.absorb(at + ' ' + n, x)
        c = sp.challenge(at)
        z = self.fv(pf, 'z')
        gX = Gens([sp.point(X)], g.h)
        sp.geq(gadd(sp.point(al), gmul(c, sp.point(X))), commit([z[0]], z[1], g.G, g.h), at + ': alpha + c*X = commit(z0; z1)')
        sp.geq(gadd(sp.point(be), gmul(c, sp.point(Y))), commit([z[2]], z[3], g.G, g.h), at + ': beta + c*Y = commit(z2; z3)')
        sp.geq(gadd(sp.point(de), gmul(c, sp.point(Z))), commit([z[2]], z[4], gX.G, g.h), at + ': delta + c*Z = z2*X + z4*h')
    def dotproduct(self, pf, g1, gn, a, Cx, Cy, at):
        sp = self.sp
        de, be = self.f(pf, 'delta'), self.f(pf, 'beta')
        for n, x in (('Cx', Cx), ('Cy', Cy), ('a', a), ('delta', de), ('beta', be)):
            sp.absorb(at + ' ' + n, x)
        c = sp.challenge(at)
        z = self.fv(pf, 'z')
        sp.geq(gadd(gmul(c, sp.point(Cx)), sp.point(de)), commit(z, self.f(pf, 'z_delta'), gn.G, gn.h), at + ': c*Cx + delta = commit(z; z_delta)')
        sp.geq(gadd(gmul(c, sp.point(Cy)), sp.point(be)), commit([dot(z, a)], self.f(pf, 'z_beta'), g1.G, g1.h), at + ': c*Cy + beta = commit(<z,a>; z_beta)')
    def dotlog(self, pf, g1, gn, a, Cx, Cy, at):
        sp = self.sp
        for n, x in (('Cx', Cx), ('Cy', Cy), ('a', a)):
            sp.absorb(at + ' ' + n, x)
        r = sp.challenge(at + ' r')
        L, Rv = self.fv(pf, 'bullet_reduction_proof', 'L_vec'), self.fv(pf, 'bullet_reduction_proof', 'R_vec')
        k = lg(len(a))
        us = []
        for j in range(k):
            sp.absorb('%s L[%d]' % (at, j), L[j])
            sp.absorb('%s R[%d]' % (at, j), Rv[j])
            u = sp.challenge('%s u%d' % (at, j))
            sp.nonzero(u, '%s: u%d is invertible' % (at, j))
            us.append(u)
            sp.nonzero(vprod(us), at + ': product of the u is invertible')
        de, be = self.f(pf, 'delta'), self.f(pf, 'beta')
        sp.absorb(at + ' delta', de)
        sp.absorb(at + ' beta', be)
        c = sp.challenge(at + ' c')
        s = [ONE]
        for u in us:
            s = [w for y in s for w in (mul(y, inv(u)), mul(y, u))]
        Gm = gadd(sp.point(Cx), gmul(r, sp.point(Cy)))
        for j, u in enumerate(us):
            Gm = gadd(Gm, gadd(gmul(mul(u, u), sp.point(L[j])), gmul(inv(mul(u, u)), sp.point(Rv[j]))))
        gh = gsum(gmul(x, y) for x, y in zip(s, gn.G))
        ah = dot(a, s)
        lhs = gadd(gmul(ah, gadd(gmul(c, Gm), sp.point(be))), sp.point(de))
        rhs = gadd(gmul(self.f(pf, 'z1'), gadd(gh, gmul(mul(ah, r), g1.G[0]))), gmul(self.f(pf, 'z2'), g1.h))
        sp.geq(lhs, rhs, at + ': a*(c*Gamma + beta) + delta = z1*(g + a*r*G1) + z2*h')
    def polyeval(self, pf, pg, r, C_Zr, C, at):
        sp = self.sp
        k = len(r) // 2
        Lt, Rt = eqtab(r[:k]), eqtab(r[k:])
        if len(C) != len(Lt):
            raise Fail('specification: %d row commitments for %d rows' % (len(C), len(Lt)))
        sp.absorb(at + ' commitment', C)
        CLZ = gsum(gmul(x, sp.point(c)) for x, c in zip(Lt, C))
        self.dotlog(self.f(pf, 'proof'), pg[1], pg[0], Rt, CLZ, C_Zr, at)
    def polyeval_plain(self, pf, pg, r, Zr, C, at):
        self.polyeval(pf, pg, r, gmul(Zr, pg[1].G[0]), C, at)
    def zksumcheck(self, pf, claim, rounds, deg, g1, gn, at):
        sp = self.sp
        cp, ce, pr = self.fv(pf, 'comm_polys'), self.fv(pf, 'comm_evals'), self.fv(pf, 'proofs')
        rs = []
        for i in range(rounds):
            a_ = '%s round %d' % (at, i)
            sp.absorb(a_ + ' comm_poly', cp[i])
            r = sp.challenge(a_)
            sp.absorb(a_ + ' claim', claim)
            sp.absorb(a_ + ' comm_eval', ce[i])
            w0, w1 = sp.challenge(a_ + ' w0'), sp.challenge(a_ + ' w1')
            tgt = gadd(gmul(w0, sp.point(claim)), gmul(w1, sp.point(ce[i])))
            a, x = [], ONE
            for j in range(deg + 1):
                a.append(add(mul(w0, const(2 if j == 0 else 1)), mul(w1, x)))
                x = mul(x, r)
            self.dotproduct(pr[i], g1, gn, a, cp[i], tgt, a_)
            claim = ce[i]
            rs.append(r)
        return claim, rs
    def sumcheck(self, pf, claim, rounds, deg, at):
        sp = self.sp
        ps = self.fv(pf, 'compressed_polys')
        rs = []
        for i in range(rounds):
            c = self.fv(ps[i], 'coeffs_except_linear_term')
            if len(c) != deg:
                raise Fail('specification: round polynomial of degree %d' % len(c))
            lin = sub(claim, vsum([c[0], c[0]] + c[1:]))
            co = [c[0], lin] + c[1:]
            sp.absorb('%s round %d polynomial' % (at, i), co)
            r = sp.challenge('%s round %d' % (at, i))
            claim, x = ZERO, ONE
            for k in co:
                claim = add(claim, mul(k, x))
                x = mul(x, r)
            rs.append(r)
        return claim, rs
    # ---- R1CS satisfiability -------------------------------------------------------------------
    def r1cs(self, pf, nv, nc, inputs, evals, gens, at='sat'):
        sp = self.sp
        sc1, sc3, sc4, pc = gens
        sp.absorb('public inputs', inputs)
        C = self.fv(pf, 'comm_vars', 'C')
        sp.absorb('witness commitment', C)
        lx, ly = lg(nc), lg(2 * nv)
        tau = sp.challenges_n(lx, 'tau')
        claim1, rx = self.zksumcheck(self.f(pf, 'sc_proof_phase1'), G(0), lx, 3, sc1, sc4, 'sum-check 1')
        cA, cB, cC, cP = self.fv(pf, 'claims_phase2')
        kn, pp = self.fv(pf, 'pok_claims_phase2')
        self.knowledge(kn, cC, sc1, 'knowledge of Cz')
        self.product(pp, cA, cB, cP, sc1, 'product Az*Bz')
        for n, x in (('Az', cA), ('Bz', cB), ('Cz', cC), ('Az*Bz', cP)):
            sp.absorb('claim ' + n, x)
        tr = eqat(tau, rx)
        self.equality(self.f(pf, 'proof_eq_sc_phase1'), gmul(tr, gsub(sp.point(cP), sp.point(cC))), claim1, sc1, 'final check of sum-check 1')
        rA, rB, rC = sp.challenge('r_A'), sp.challenge('r_B'), sp.challenge('r_C')
        claim = gadd(gadd(gmul(rA, sp.point(cA)), gmul(rB, sp.point(cB))), gmul(rC, sp.point(cC)))
        claim2, ry = self.zksumcheck(self.f(pf, 'sc_proof_phase2'), claim, ly, 2, sc1, sc3, 'sum-check 2')
        cv = self.f(pf, 'comm_vars_at_ry')
        self.polyeval(self.f(pf, 'proof_eval_vars_at_ry'), pc, ry[1:], cv, C, 'opening of the witness at ry')
        t = eqtab(ry[1:])
        pub = vsum(mul(t[i], x) for i, x in enumerate([ONE] + list(inputs)))
        z = gadd(gmul(sub(ONE, ry[0]), sp.point(cv)), gmul(mul(ry[0], pub), pc[1].G[0]))
        ev = vsum(mul(a, b) for a, b in zip((rA, rB, rC), evals))
        self.equality(self.f(pf, 'proof_eq_sc_phase2'), gmul(ev, z), claim2, sc1, 'final check of sum-check 2')
        return rx, ry
    # ---- product circuits and memory checking -----------------------------------------------------
    def products(self, pf, claims, dotp, n, at):
        """grand products of n-entry vectors, batched; dotp: claims of dot-product circuits"""
        sp = self.sp
        layers = self.fv(pf, 'proof')
        k = lg(n)
        cur = list(claims)
        rand = []
        m = len(claims)
        dl = [list(x.f) for x in self.fv(pf, 'claims_dotp')]
        out = []
        for i in range(k):
            a_ = '%s layer %d' % (at, i)
            last = i == k - 1
            if last:
                cur = cur + list(dotp)
            co = sp.challenges_n(len(cur), a_ + ' coefficients')
            fin, rs = self.sumcheck(self.f(layers[i], 'proof'), dot(cur, co), i, 3, a_)
            l, r = self.fv(layers[i], 'claims_prod_left'), self.fv(layers[i], 'claims_prod_right')
            sp.absorb(a_ + ' left', l)
            sp.absorb(a_ + ' right', r)
            e = eqat(rand, rs)
            want = vsum(mul(co[j], mul(mul(l[j], r[j]), e)) for j in range(m))
            if last:
                for j in range(len(dotp)):
                    sp.absorb(a_ + ' dot product', dl[0][j], dl[1][j], dl[2][j])
                    want = add(want, mul(co[m + j], mul(mul(dl[0][j], dl[1][j]), dl[2][j])))
            sp.veq(want, fin, a_ + ': claimed product equals the sum-check result')
            rl = sp.challenge(a_ + ' r')
            cur = [add(l[j], mul(rl, sub(r[j], l[j]))) for j in range(m)]
            if last:
                for j in range(len(dotp) // 2):
                    for q in range(3):
                        out.append(add(dl[q][2 * j], mul(rl, sub(dl[q][2 * j + 1], dl[q][2 * j]))))
            rand = [rl] + rs
        return cur, out, rand
    def joint(self, evals, at):
        """n-to-1 reduction of claimed evaluations"""
        sp = self.sp
        sp.absorb(at + ' claims', evals)
        evals = list(evals) + [ZERO] * (p2(len(evals)) - len(evals))
        ch = sp.challenges_n(lg(len(evals)), at + ' combination')
        e = mle(evals, ch)
        sp.absorb(at + ' joint claim', e)
        return ch, e
    def sparse(self, pf, comm, rx, ry, evals, gens, at='eval'):
        sp = self.sp
        g_ops, g_mem, g_der = gens
        n = max(len(rx), len(ry))
        rx = [ZERO] * (n - len(rx)) + list(rx)
        ry = [ZERO] * (n - len(ry)) + list(ry)
        b = len(evals)
        nops, ncell = comm['num_ops'], comm['num_mem_cells']
        if 1 << n != ncell:
            raise Fail('specification: %d memory cells for %d variables' % (ncell, n))
        cd = self.fv(pf, 'comm_derefs', 'comm_ops_val', 'C')
        sp.absorb('commitment to the dereferenced values', cd)
        gm, ga = sp.challenge('hash coefficient'), sp.challenge('multiset challenge')
        net = self.f(pf, 'poly_eval_network_proof')
        pl, hl = self.f(net, 'proof_prod_layer'), self.f(net, 'proof_hash_layer')
        claims = {}
        for w in ('row', 'col'):
            ini, rd, wr, au = self.fv(pl, 'eval_' + w)
            rd, wr = list(rd.f), list(wr.f)
            sp.veq(mul(ini, vprod(wr)), mul(vprod(rd), au), '%s memory: init * writes = reads * audit' % w)
            sp.absorb('%s products' % w, ini, rd, wr, au)
            claims[w] = (ini, rd, wr, au)
        dl, dr = (list(x.f) for x in self.fv(pl, 'eval_val'))
        dot_claims = []
        for i in range(b):
            sp.veq(add(dl[i], dr[i]), evals[i], 'matrix %d: left + right half = claimed evaluation' % i)
            dot_claims += [dl[i], dr[i]]
        sp.absorb('dot-product halves', dot_claims)
        ops, dotp, rand_ops = self.products(self.f(pl, 'proof_ops'), claims['row'][1] + claims['row'][2] + claims['col'][1] + claims['col'][2], dot_claims, nops, 'operations')
        mem, _, rand_mem = self.products(self.f(pl, 'proof_mem'), [claims['row'][0], claims['row'][3], claims['col'][0], claims['col'][3]], [], ncell, 'memory')
        # hash layer
        ed = [list(x.f) for x in self.fv(hl, 'eval_derefs')]
        ch, e = self.joint(ed[0] + ed[1], 'dereferenced values')
        self.polyeval_plain(self.f(hl, 'proof_derefs', 'proof_derefs'), g_der, ch + rand_ops, e, cd, 'opening of the dereferenced values')
        ev = self.fv(hl, 'eval_val')
        for i in range(b):
            for x, y, n in zip(dotp[3 * i:3 * i + 3], (ed[0][i], ed[1][i], ev[i]), ('row value', 'column value', 'coefficient')):
                sp.veq(x, y, 'matrix %d: %s of the dot product' % (i, n))
        er, ec = self.fv(hl, 'eval_row'), self.fv(hl, 'eval_col')
        ch, e = self.joint(list(er[0].f) + list(er[1].f) + list(ec[0].f) + list(ec[1].f) + ev, 'operations')
        self.polyeval_plain(self.f(hl, 'proof_ops'), g_ops, ch + rand_ops, e, comm['comb_ops'], 'opening of the operations')
        ch, e = self.joint([er[2], ec[2]], 'final timestamps')
        self.polyeval_plain(self.f(hl, 'proof_mem'), g_mem, ch + rand_mem, e, comm['comb_mem'], 'opening of the final timestamps')
        h = lambda a, v, t: sub(add(add(mul(t, mul(gm, gm)), mul(v, gm)), a), ga)
        ident = vsum(mul(const(1 << (len(rand_mem) - 1 - i)), x) for i, x in enumerate(rand_mem))
        for w, ex, r, j in (('row', er, rx, 0), ('col', ec, ry, 1)):
            val = eqat(r, rand_mem)
            sp.veq(h(ident, val, ZERO), mem[2 * j], '%s memory: hash of the initial state' % w)
            sp.veq(h(ident, val, ex[2]), mem[2 * j + 1], '%s memory: hash of the final state' % w)
            for i in range(b):
                ad, ts = list(ex[0].f)[i], list(ex[1].f)[i]
                sp.veq(h(ad, ed[j][i], ts), ops[2 * b * j + i], '%s memory, matrix %d: hash of the reads' % (w, i))
                sp.veq(h(ad, ed[j][i], add(ts, ONE)), ops[2 * b * j + b + i], '%s memory, matrix %d: hash of the writes' % (w, i))

# ---- shapes --------------------------------------------------------------------------------------------
class Shape:
    """One size of the statement: instance with symbolic coefficients and a symbolic satisfying assignment."""
    def __init__(self, nv, nc, ni, extra=0, nvars=None):
        self.nv, self.nc, self.ni, self.extra = nv, nc, ni, extra
        self.nvars = nvars if nvars is not None else nv         # entries in the variable assignment given to the prover
    def name(self):
        return '%d variables, %d constraints, %d inputs' % (self.nvars, self.nc, self.ni)
    def build(self):
        """entries (row, col, V); columns of the unpadded system: 0..nvars-1 vars, nvars = one, then inputs"""
        nv, ni = self.nvars, self.ni
        w = [var('w%d' % i) for i in range(nv)]
        ins = [var('in%d' % i) for i in range(ni)]
        one = nv
        z = w + [ONE] + ins
        A, B, C = [], [], []
        rows = self.nc - self.extra
        for r in range(rows):
            # (a*z_i + b*z_j) * (c*z_k) = t*w_0' where the last coefficient is chosen so that the row holds
            i, j, k, o = (3 * r + 1) % len(z), (5 * r + 2) % len(z), (7 * r + nv) % len(z), (r + 1) % len(z)
            a, b, c = var('a%d' % r), var('b%d' % r), var('c%d' % r)
            A.append((r, i, a))
            if j != i:
                A.append((r, j, b))
            B.append((r, k, c))
            lhs = mul(vsum(mul(v, z[q]) for rr, q, v in A if rr == r), mul(c, z[k]))
            C.append((r, o, mul(lhs, inv(z[o]))))
        return w, ins, A, B, C

def entries(it, es):
    return it.ref(S('vec', tuple(S('tup', (r, c, S('arr', vn.scalar_bytes(v)))) for r, c, v in es)))
def assign(it, xs):
    return payload(it.callfn('libspartan::Assignment::new', [it.ref(S('arr', tuple(S('arr', vn.scalar_bytes(x)) for x in xs)))]))[0]

class Setup:
    def __init__(self, sh, snark=False):
        self.sh, self.snark = sh, snark
        self.p = prog()
        it = self.it = new_interp()
        w, ins, A, B, C = sh.build()
        self.w, self.ins, self.ABC = w, ins, (A, B, C)
        self.inst = payload(it.callfn('libspartan::Instance::new', [sh.nc, sh.nvars, sh.ni, entries(it, A), entries(it, B), entries(it, C)]))[0]
        self.va, self.ia = assign(it, w), assign(it, ins)
        if snark:
            nz = max(len(A), len(B), len(C))
            self.gens = it.callfn('libspartan::SNARKGens::new', [sh.nc, sh.nvars, sh.ni, nz])
            self.comm, self.decomm = it.callfn('libspartan::SNARK::encode', [it.ref(self.inst), it.ref(self.gens)]).f
        else:
            self.gens = it.callfn('libspartan::NIZKGens::new', [sh.nc, sh.nvars, sh.ni])
        # sizes after padding
        self.nvp = p2(max(sh.nvars, sh.ni + 1))
        self.ncp = max(2, p2(sh.nc))
        self.N = p2(max(len(A), len(B), len(C)))
    def multi(self, n, label):
        it = self.it
        g = it.callfn('libspartan::commitments::MultiCommitGens::new', [n, it.ref(S('arr', tuple(label)))])
        Gs = [vn.gl(x, it) for x in get(self.p, g, 'G').f]
        return Gens(Gs, vn.gl(get(self.p, g, 'h'), it))
    def polygens(self, k, label):
        n = 1 << (k - k // 2)
        g = self.multi(n + 1, label)
        return Gens(g.G[:n], g.h), Gens(g.G[n:], g.h)
    def satgens(self):
        l = b'gens_r1cs_sat'
        pc = self.polygens(lg(self.nvp), l)
        return pc[1], self.multi(3, l), self.multi(4, l), pc
    def evalgens(self):
        l = b'gens_r1cs_eval'
        return (self.polygens(lg(self.N) + 4, l), self.polygens(lg(max(self.ncp, 2 * self.nvp)) + 1, l), self.polygens(lg(self.N) + 3, l))
    def cols(self, c):
        return c if c < self.sh.nvars else c + self.nvp - self.sh.nvars
    def evals(self, rx, ry):
        tx, ty = eqtab(rx), eqtab(ry)
        return [vsum(mul(mul(tx[r], ty[self.cols(c)]), v) for r, c, v in M) for M in self.ABC]
    def lens(self):
        """length of every vector of an honest proof, by path pattern (longest match first)"""
        lv = lg(self.nvp)
        lx, ly = lg(self.ncp), lg(2 * self.nvp)
        N, M = lg(self.N), lg(max(self.ncp, 2 * self.nvp))
        half = lambda k: k - k // 2
        T = [(r'r1cs_sat_proof\.comm_vars\.C', 1 << (lv // 2)),
             (r'sc_proof_phase1\.proofs\[\d+\]\.z', 4), (r'sc_proof_phase2\.proofs\[\d+\]\.z', 3),
             (r'sc_proof_phase1\.\w+', lx), (r'sc_proof_phase2\.\w+', ly),
             (r'proof_eval_vars_at_ry\.proof\.bullet_reduction_proof\.[LR]_vec', half(lv)),
             (r'\.r\.0|^r\.0', lx), (r'\.r\.1|^r\.1', ly),
             (r'comm_derefs\.comm_ops_val\.C', 1 << ((N + 3) // 2)),
             (r'proof_prod_layer\.eval_(row|col)\.[12]', 3), (r'proof_prod_layer\.eval_val\.[01]', 3),
             (r'proof_(mem|ops)\.proof\[(\d+)\]\.proof\.compressed_polys', lambda m: int(m.group(2))),
             (r'coeffs_except_linear_term', 3),
             (r'proof_mem\.proof\[\d+\]\.claims_prod_(left|right)', 4), (r'proof_ops\.proof\[\d+\]\.claims_prod_(left|right)', 12),
             (r'proof_mem\.claims_dotp\.\d', 0), (r'proof_ops\.claims_dotp\.\d', 6),
             (r'proof_prod_layer\.proof_mem\.proof', M), (r'proof_prod_layer\.proof_ops\.proof', N),
             (r'proof_hash_layer\.eval_(row|col)\.[01]', 3), (r'proof_hash_layer\.eval_val', 3), (r'proof_hash_layer\.eval_derefs\.[01]', 3),
             (r'proof_ops\.proof\.bullet_reduction_proof\.[LR]_vec', half(N + 4)), (r'proof_mem\.proof\.bullet_reduction_proof\.[LR]_vec', half(M + 1)),
             (r'proof_derefs\.proof_derefs\.proof\.bullet_reduction_proof\.[LR]_vec', half(N + 3))]
        T = [(re.compile('(?:' + a + ')$'), b) for a, b in T]
        def f(path):
            for rx, n in T:
                m = rx.search(path)
                if m:
                    return n(m) if callable(n) else n
            raise Fail('a vector of the proof the specification does not know: %s' % path)
        return f
    def proof(self, change=None, seen=None):
        base = self.lens()
        def lens(path):
            n = base(path)
            if seen is not None:
                seen.setdefault(path, n)
            if change and path in change:
                return change[path]
            return n
        return symbolic(self.p, tid(self.p, 'libspartan::SNARK' if self.snark else 'libspartan::NIZK'), '', lens)
    def prove(self):
        it = self.it
        it.vlog = []
        tr = it.ref(vn.new_transcript(b'x', True))
        n0 = len(it.panics)
        if self.snark:
            pf = it.callfn('libspartan::SNARK::prove', [it.ref(self.inst), it.ref(self.comm), it.ref(self.decomm), self.va, it.ref(self.ia), it.ref(self.gens), tr])
        else:
            pf = it.callfn('libspartan::NIZK::prove', [it.ref(self.inst), self.va, it.ref(self.ia), it.ref(self.gens), tr])
        return pf, it.load(tr), it.vlog, it.panics[n0:]
    def verify(self, pf, ia=None):
        it = self.it
        it.vlog = []
        it.panics = []
        n0 = getattr(it, 'nos', 0)
        self.drew = None
        tr = it.ref(vn.new_transcript(b'x', True))
        ia = it.ref(ia if ia is not None else self.ia)
        if self.snark:
            r = it.callfn('libspartan::SNARK::verify', [it.ref(pf), it.ref(self.comm), ia, tr, it.ref(self.gens)])
        else:
            r = it.callfn('libspartan::NIZK::verify', [it.ref(pf), it.ref(self.inst), ia, tr, it.ref(self.gens)])
        self.drew = getattr(it, 'nos', 0) - n0
        return r, it.load(tr), it.vlog
    def bytes_key(self, data):
        return vn.message(data)
    def spec(self, pf, log):
        sp = Spec(log)
        P_ = Proto(sp, self.p)
        if self.snark:
            c = get(self.p, self.comm, 'comm')
            cm = get(self.p, c, 'comm')
            comm = {'num_ops': self.N, 'num_mem_cells': max(self.ncp, 2 * self.nvp),
                    'comb_ops': list(get(self.p, cm, 'comm_comb_ops', 'C').f), 'comb_mem': list(get(self.p, cm, 'comm_comb_mem', 'C').f)}
            for n, x in (('number of constraints', self.ncp), ('number of variables', self.nvp), ('number of inputs', self.sh.ni), ('number of operations', self.N), ('number of memory cells', comm['num_mem_cells'])):
                sp.absorb(n, x)
            sp.absorb('commitment to the operations', comm['comb_ops'])
            sp.absorb('commitment to the final timestamps', comm['comb_mem'])
            ev = list(get(self.p, pf, 'inst_evals').f)
            rx, ry = P_.r1cs(get(self.p, pf, 'r1cs_sat_proof'), self.nvp, self.ncp, self.ins, ev, self.satgens())
            sp.absorb('claimed matrix evaluations', ev)
            P_.sparse(get(self.p, pf, 'r1cs_eval_proof', 'proof'), comm, rx, ry, ev, self.evalgens())
        else:
            for k in vn.message(list(get(self.p, self.inst, 'digest').f)):
                sp.need.append((k, 'instance digest'))
            rx_, ry_ = (list(x.f) for x in get(self.p, pf, 'r').f)
            rx, ry = P_.r1cs(get(self.p, pf, 'r1cs_sat_proof'), self.nvp, self.ncp, self.ins, self.evals(rx_, ry_), self.satgens())
            for i, (a, b) in enumerate(zip(rx + ry, rx_ + ry_)):
                sp.veq(a, b, 'claimed evaluation point, coordinate %d' % i)
        return sp

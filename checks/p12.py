"""Commitments are interpreted with unknown scalars and unknown generators; a group element is a linear combination of
independent generators.  For every length in the range each commit form must return exactly the sum of entry times
generator of the same index plus blinding times the blinding generator; a length mismatch must stop.  Generator sets are
interpreted over an unknown hash stream: every generator, the blinding one included, must come from its own 128 bytes of
the stream keyed by the label, and the splitting, scaling and cloning of a set must keep the correspondence."""
import re
import poly, vn, proto, absint
from absint import S, E, R, Interp, Diverge
from poly import P
from vc import Fail
from vn import V, G, Cg, const, var, gvar, gadd, gmul, gsum, mul, add
from proto import prog, new_interp, get, struct, payload
from p07 import ASSUME
MC = 'libspartan::commitments::MultiCommitGens'
FC = 'packages/Spartan-secq/src/commitments.rs'

def same(it, g, want, what):
    g = vn.gl(g, it)
    if g.v != want.v:
        raise Fail('%s is not the prescribed combination' % what)

def gens(p, n, tag=''):
    Gs = [gvar('G%s%d' % (tag, i)) for i in range(n)]
    h = gvar('h' + tag)
    ap = proto.tid(p, 'secq256k1::AffinePoint')
    f = dict(n=n, G=S('vec', tuple(S(ap, (g,)) for g in Gs)), h=S(ap, (h,)))
    t = proto.tid(p, MC)
    return S(t, tuple(f[k] if k in f else unknown(k) for k, _ in proto.fields(p, t))), Gs, h
def unknown(k):
    raise Fail('MultiCommitGens has a field %s the specification does not know' % k)

def setof(it, p, v):
    return [vn.gl(x, it) for x in it.items(get(p, v, 'G'))], vn.gl(get(p, v, 'h'), it), get(p, v, 'n')

def run(c):
    p = prog()
    top = {'quick': 17, 'thorough': 65, 'deep': 257}[c.tier]
    # ---- commit
    forms = [n for n in p.byname if re.match(r'^<.+ as libspartan::commitments::Commitments>::commit$', n)]
    def arg(it, name, n):
        xs = [var('x%d' % i) for i in range(n)]
        if 'Vec<' in name:
            return it.ref(S('vec', tuple(xs))), xs
        if name.startswith('<['):
            return it.ref(S('arr', tuple(xs))), xs
        if re.match(r'^<libspartan::scalar::scalar::Scalar as', name):
            return (it.ref(xs[0]), xs) if n == 1 else (None, None)
        raise Fail('unknown form of commit')
    kinds = set()
    for name in sorted(forms):
        kind = 'vector' if 'Vec<' in name else 'slice' if name.startswith('<[') else 'scalar'
        kinds.add(kind)
        def f(name=name):
            k = 0
            for n in range(1, top):
                it = new_interp()
                a, xs = arg(it, name, n)
                if a is None:
                    continue
                g, Gs, h = gens(p, n)
                b = var('blind')
                r = it.callfn(name, [a, it.ref(b), it.ref(g)])
                if it.panics:
                    raise Fail('may panic for %d entries' % n)
                same(it, r, proto.commit(xs, b, Gs, h), 'the commitment to %d entries' % n)
                k += 1
            return 'exact for %d lengths' % k
        c.ob('commit/' + kind, FC + ' ' + name, f)
        def mism(name=name):
            k = 0
            for n in range(1, 6):
                for m in range(0, 7):
                    if n == m:
                        continue
                    it = new_interp()
                    a, xs = arg(it, name, n)
                    if a is None:
                        continue
                    g, _, _ = gens(p, m)
                    try:
                        it.callfn(name, [a, it.ref(var('blind')), it.ref(g)])
                    except Diverge:
                        k += 1
                        continue
                    raise Fail('%d entries are committed under %d generators' % (n, m))
            return '%d mismatched lengths are refused' % k
        c.ob('mismatch/' + kind, FC + ' ' + name, mism)
    def present():
        if kinds != {'scalar', 'vector', 'slice'}:
            raise Fail('forms of commit: %s' % ', '.join(sorted(kinds)))
        return 'scalar, vector and slice'
    c.ob('forms', FC, present)
    # ---- multi-scalar multiplication and the group operators
    msm = [n for n in p.byname if n.endswith('VartimeMultiscalarMul>::vartime_multiscalar_mul')]
    def m1():
        if not msm:
            raise Fail('not found')
        ap = proto.tid(p, 'secq256k1::AffinePoint')
        for n in range(0, top):
            it = new_interp()
            xs, gs = [var('x%d' % i) for i in range(n)], [gvar('g%d' % i) for i in range(n)]
            r = it.callfn(msm[0], [S('vec', tuple(xs)), S('vec', tuple(S(ap, (g,)) for g in gs))])
            if it.panics:
                raise Fail('may panic for %d terms' % n)
            same(it, r, gsum(gmul(x, g) for x, g in zip(xs, gs)), 'the product of %d terms' % n)
        for n in range(0, 6):
            for m in range(0, 6):
                if n != m:
                    it = new_interp()
                    try:
                        it.callfn(msm[0], [S('vec', tuple(var('x%d' % i) for i in range(n))), S('vec', tuple(S(ap, (gvar('g%d' % i),)) for i in range(m)))])
                    except Diverge:
                        continue
                    raise Fail('%d scalars and %d points are accepted' % (n, m))
        return 'exact for 0..%d terms; other lengths are refused' % (top - 1)
    c.ob('msm', 'packages/Spartan-secq/src/group.rs vartime_multiscalar_mul', m1)
    ap = proto.tid(p, 'secq256k1::AffinePoint')
    rx = re.compile(r'^libspartan::group::<impl std::ops::(Mul|MulAssign)<&?([\w:]+)> for &?([\w:]+)>::mul(_assign)?$')
    ops = [n for n in p.byname if rx.match(n)]
    def scal():
        if len(ops) < 4:
            raise Fail('only %d scalar multiplication forms found' % len(ops))
        for n in ops:
            m = rx.match(n)
            it = new_interp()
            s, g = var('s'), gvar('P')
            vals = {'S': s, 'G': S(ap, (g,))}
            rhs, lhs = ('S' if 'Scalar' in m.group(i) else 'G' for i in (2, 3))
            if lhs == rhs:
                raise Fail('unexpected operator %s' % n)
            mk = lambda k, isref: it.ref(vals[k]) if isref else vals[k]
            a0 = mk(lhs, ' for &' in n or m.group(1) == 'MulAssign')
            a1 = mk(rhs, '<&' in n.split(' for ')[0].split('std::ops::')[1])
            r = it.callfn(n, [a0, a1])
            if m.group(1) == 'MulAssign':
                r = it.load(a0)
            if it.panics:
                raise Fail('%s may panic' % n)
            same(it, r, gmul(s, g), n)
        return '%d operator forms' % len(ops)
    c.ob('scalar multiplication', 'packages/Spartan-secq/src/group.rs', scal)
    rx2 = re.compile(r'^<(&?)secq256k1::(?:affine::)?AffinePoint as std::ops::(Add|Sub|Neg|Mul|AddAssign|SubAssign|MulAssign)(?:<(&?)([\w:]+)>)?>::\w+$')
    def grp():
        import mir
        q = mir.prog('secq256k1')
        ap = proto.tid(q, 'AffinePoint')
        for i, t in enumerate(q.types):
            if t and t['k'] == 'adt' and re.match(r'^secq256k1::(affine::)?AffinePoint$', t['n']):
                ap = i
        have, k = set(), 0
        for n in q.byname:
            m = rx2.match(n)
            if not m:
                continue
            op = m.group(2)
            have.add(op)
            k += 1
            it = Interp(q, vn.overrides())
            s, g, g2 = var('s'), gvar('P'), gvar('Q')
            a0 = S(ap, (g,))
            if m.group(1) or op.endswith('Assign'):
                a0 = it.ref(a0)
            b = s if op.startswith('Mul') else S(ap, (g2,))
            args = [a0] if op == 'Neg' else [a0, it.ref(b) if m.group(3) else b]
            r = it.callfn(n, args)
            if op.endswith('Assign'):
                r = it.load(a0)
            want = {'Add': gadd(g, g2), 'Sub': vn.gsub(g, g2), 'Neg': vn.gneg(g), 'Mul': gmul(s, g)}[op.replace('Assign', '')]
            if it.panics:
                raise Fail('%s may panic' % n)
            same(it, r, want, n)
        if have != {'Add', 'Sub', 'Neg', 'Mul', 'AddAssign', 'SubAssign', 'MulAssign'}:
            raise Fail('operators found: %s' % ', '.join(sorted(have)))
        return '%d operator forms' % k
    c.ob('group operators', 'packages/secq256k1/src/affine.rs', grp)
    def sums():
        import mir
        q = mir.prog('verif_inst')
        q2 = mir.prog('secq256k1')
        def ptid(q):
            for i, t in enumerate(q.types):
                if t and t['k'] == 'adt' and re.match(r'^secq256k1::(affine::)?AffinePoint$', t['n']):
                    return i
            raise Fail('type AffinePoint not found')
        k = 0
        for n in range(5):
            gs = [gvar('P%d' % (i % 3)) for i in range(n)]
            want = vn.gsum(gs)
            for fn in ('verif_inst::curve::sum', 'verif_inst::curve::sum_refs'):
                it = Interp(q, vn.overrides())
                v = S('vec', tuple(S(ptid(q), (g,)) for g in gs))
                if fn.endswith('refs'):
                    r0 = it.ref(v)
                    v = R(r0.cell, r0.path, (0, n))
                r = it.callfn(fn, [v])
                if it.panics:
                    raise Fail('%s may panic' % fn)
                same(it, r, want, 'the sum of %d points' % n)
                k += 1
        for n in q2.byname:
            if re.match(r'^<secq256k1::(affine::)?AffinePoint as .*Group>::double$', n):
                it = Interp(q2, vn.overrides())
                g = gvar('P')
                r = it.callfn(n, [it.ref(S(ptid(q2), (g,)))])
                if it.panics:
                    raise Fail('%s may panic' % n)
                same(it, r, gadd(g, g), n)
                k += 1
        return '%d forms and lengths' % k
    c.ob('point sums', 'packages/secq256k1/src/affine.rs Sum, Group::double', sums)
    def comp():
        it = new_interp()
        g = gvar('P')
        e = it.callfn('secq256k1::AffinePoint::compress', [it.ref(S(ap, (g,)))])
        if not isinstance(e, Cg) or e.v != g.v:
            raise Fail('compressing a point gives another point')
        un = [n for n in p.byname if n.endswith('CompressedGroupExt>::unpack')]
        r = it.callfn(un[0], [it.ref(e)])
        if it.panics:
            raise Fail('decoding may panic')
        same(it, payload(r)[0], g, 'the decoded point')
        if proto.outcome(it, r) != 1:
            raise Fail('an encoded point is refused')
        return 'decoding inverts encoding'
    c.ob('encoding', 'packages/Spartan-secq/src/group.rs CompressedGroupExt::unpack, packages/secq256k1/src/affine.rs compress', comp)
    # ---- the wrapper that turns proof-system scalars into curve scalars
    def wrap():
        nm = [n for n in p.byname if n.endswith('ScalarBytesFromScalar>::decompress_scalar')][0]
        it = new_interp()
        r = it.callfn(nm, [it.ref(var('s'))])
        if it.panics or vn.lift(r, it).v != var('s').v:
            raise Fail('the curve scalar is not the proof-system scalar')
        return 'same value'
    c.ob('scalar conversion', 'packages/Spartan-secq/src/scalar/mod.rs decompress_scalar', wrap)
    reduce_uint(c, p)
    # ---- generators
    def gens_ob(mk, count, label_len, what):
        """calls mk(it, label) for several labels; returns nothing; every generator from its own part of the stream"""
        outs = []
        for lab in (b'ab', b'cd', b'gens_r1cs_sat'):
            it = new_interp()
            log = []
            def fub(it, a, f):
                xs = vn.bitems(it, a[0])
                names = []
                for x in xs:
                    m = re.match(r'^xof:([0-9a-f]+):(\d+)$', stream_name(x))
                    if m is None:
                        raise Fail('%s: a generator is derived from bytes that are not bytes of the hash stream' % what)
                    names.append((m.group(1), int(m.group(2))))
                g = gvar('gen:' + vn.dig(tuple(names)))
                log.append((g.v, names))
                return S(ap, (g,))
            it.overrides['AffinePoint::from_uniform_bytes'] = fub
            vals = mk(it, lab)
            if it.panics:
                raise Fail('%s may panic' % what)
            src = dict(log)
            used = {}
            for nm, g in vals:
                if g.v not in src:
                    raise Fail('%s: %s does not come from the hash stream' % (what, nm))
                ws = src[g.v]
                if len(set(ws)) != 128:
                    raise Fail('%s: %s uses %d bytes of the stream' % (what, nm, len(set(ws))))
                for w in ws:
                    if used.setdefault(w, nm) != nm:
                        raise Fail('%s: %s and %s use the same bytes of the stream' % (what, nm, used[w]))
            streams = {w[0] for w in used}
            if len(streams) != 1:
                raise Fail('%s: %d hash streams' % (what, len(streams)))
            outs.append(streams.pop())
        if len(set(outs)) != 3:
            raise Fail('%s: the stream does not depend on the label' % what)
    def gnew():
        for n in list(range(0, 10)) + ([16, 33] if c.tier != 'quick' else []):
            def mk(it, lab, n=n):
                g = it.callfn(MC + '::new', [n, it.ref(S('arr', tuple(lab)))])
                Gs, h, nn = setof(it, p, g)
                if nn != n or len(Gs) != n:
                    raise Fail('%d generators for size %d (n = %r)' % (len(Gs), n, nn))
                return [('G[%d]' % i, x) for i, x in enumerate(Gs)] + [('h', h)]
            gens_ob(mk, n, 0, 'MultiCommitGens::new(%d)' % n)
        return 'all generators distinct parts of one labelled stream'
    c.ob('generators/new', FC + ' MultiCommitGens::new', gnew)
    def gdot():
        for n in range(1, 9):
            def mk(it, lab, n=n):
                g = it.callfn('libspartan::nizk::DotProductProofGens::new', [n, it.ref(S('arr', tuple(lab)))])
                Gs, h, nn = setof(it, p, get(p, g, 'gens_n'))
                G1, h1, n1 = setof(it, p, get(p, g, 'gens_1'))
                if (nn, len(Gs), n1, len(G1)) != (n, n, 1, 1) or h.v != h1.v or get(p, g, 'n') != n:
                    raise Fail('sizes %r or different blinding generators' % ((nn, len(Gs), n1, len(G1)),))
                return [('G[%d]' % i, x) for i, x in enumerate(Gs)] + [('G1', G1[0]), ('h', h)]
            gens_ob(mk, n, 0, 'DotProductProofGens::new(%d)' % n)
        return 'n + 1 distinct generators and a common blinding generator'
    c.ob('generators/dot product', 'packages/Spartan-secq/src/nizk/mod.rs DotProductProofGens::new', gdot)
    def gpoly():
        for k in range(1, 9):
            def mk(it, lab, k=k):
                g = get(p, it.callfn('libspartan::dense_mlpoly::PolyCommitmentGens::new', [k, it.ref(S('arr', tuple(lab)))]), 'gens')
                Gs, h, nn = setof(it, p, get(p, g, 'gens_n'))
                G1, h1, n1 = setof(it, p, get(p, g, 'gens_1'))
                if nn != 1 << (k - k // 2) or len(Gs) != nn or n1 != 1 or h.v != h1.v:
                    raise Fail('%d generators for %d variables' % (nn, k))
                return [('G[%d]' % i, x) for i, x in enumerate(Gs)] + [('G1', G1[0]), ('h', h)]
            gens_ob(mk, k, 0, 'PolyCommitmentGens::new(%d)' % k)
        return 'one generator per column of the matrix'
    c.ob('generators/polynomial', 'packages/Spartan-secq/src/dense_mlpoly.rs PolyCommitmentGens::new', gpoly)
    def gsplit():
        for n in range(1, 7):
            it = new_interp()
            g, Gs, h = gens(p, n)
            for mid in range(0, n + 1):
                r = it.callfn(MC + '::split_at', [it.ref(g), mid])
                for part, w in zip(r.f, (Gs[:mid], Gs[mid:])):
                    a, hh, nn = setof(it, p, part)
                    if [x.v for x in a] != [x.v for x in w] or hh.v != h.v or nn != len(w):
                        raise Fail('split_at(%d) of %d generators' % (mid, n))
            a, hh, nn = setof(it, p, it.callfn(MC + '::clone', [it.ref(g)]))
            if [x.v for x in a] != [x.v for x in Gs] or hh.v != h.v or nn != n:
                raise Fail('clone of %d generators' % n)
            s = var('s')
            a, hh, nn = setof(it, p, it.callfn(MC + '::scale', [it.ref(g), it.ref(s)]))
            if [x.v for x in a] != [gmul(s, x).v for x in Gs] or hh.v != h.v or nn != n:
                raise Fail('scale of %d generators' % n)
            if it.panics:
                raise Fail('may panic')
        return 'split, clone and scale keep the correspondence'
    c.ob('generators/split, clone, scale', FC + ' MultiCommitGens', gsplit)
    # ---- matrix rows
    def rows():
        for k in range(0, 6 if c.tier == 'quick' else 9):
            for tape in (False, True):
                it = new_interp()
                n = 1 << k
                z = [var('z%d' % i) for i in range(n)]
                pl = it.callfn('libspartan::dense_mlpoly::DensePolynomial::new', [S('vec', tuple(z))])
                g, Gs, h = gens(p, 1 << (k - k // 2))
                g1, _, _ = gens(p, 1, 'one')
                dg = struct(p, 'libspartan::nizk::DotProductProofGens', n=1 << (k - k // 2), gens_n=g, gens_1=g1)
                pg = struct(p, 'libspartan::dense_mlpoly::PolyCommitmentGens', gens=dg)
                arg = it.none() if not tape else it.some(it.ref(it.callfn('libspartan::random::RandomTape::new', [it.ref(S('arr', tuple(b'proof')))])))
                cm, bl = it.callfn('libspartan::dense_mlpoly::DensePolynomial::commit', [it.ref(pl), it.ref(pg), arg]).f
                C, B = it.items(get(p, cm, 'C')), [vn.lift(x, it) for x in it.items(get(p, bl, 'blinds'))]
                L, Rr = 1 << (k // 2), 1 << (k - k // 2)
                if len(C) != L or len(B) != L:
                    raise Fail('%d rows and %d blinding values for %d variables' % (len(C), len(B), k))
                if it.panics:
                    raise Fail('may panic')
                for i in range(L):
                    x = absint_load(it, C[i])
                    if not isinstance(x, Cg) or x.v != proto.commit(z[i * Rr:(i + 1) * Rr], B[i], Gs, h).v:
                        raise Fail('row %d of %d variables' % (i, k))
                if tape:
                    if any(not b.d for b in B) or len({b.v for b in B}) != L:
                        raise Fail('blinding values are not fresh for every row')
                elif any(b.v != 0 for b in B):
                    raise Fail('blinding values without a random tape')
        return 'every row, with and without blinding'
    c.ob('matrix rows', 'packages/Spartan-secq/src/dense_mlpoly.rs DensePolynomial::commit', rows)
    c.assumptions += ['lengths up to %d entries (2^%d for matrices)' % (top - 1, 5 if c.tier == 'quick' else 8),
                      'the multiexp and primeorder crates compute sums of products; SHAKE256 output bytes are treated as independent unknowns'] + ASSUME[2:]
    return __doc__

def stream_name(x):
    if not isinstance(x, P) or len(x.c) != 1 or list(x.c.values()) != [1]:
        return ''
    ids = poly.atoms_of(x)
    if len(ids) != 1:
        return ''
    at = poly.ATOMS[next(iter(ids))]
    return str(at.data if isinstance(at.data, str) else getattr(at, 'name', at)).split('#')[0]

def absint_load(it, x):
    while isinstance(x, R):
        x = it.load(x)
    return x

def reduce_uint(c, p):
    """secq256k1::Scalar::from_uint_reduced over an unknown 256-bit number, down to its limbs"""
    import mir, limbproof as lp
    q = mir.prog('secq256k1')
    names = [n for n in q.byname if re.match(r'^<secq256k1::(scalar::)?Scalar as .*Reduce<.*>>::from_uint_reduced$', n)]
    ORDER = 2**256 - 2**32 - 977
    def f():
        if not names:
            raise Fail('not found')
        W = lp.Composite('W', hi=2**256 - 1, extra=0)
        it = Interp(q)
        it.overrides['ScalarCore::new'] = lambda it, a, f: S('ctopt', (S('core', (a[0],)), 1))
        r = it.run_body(q.body(q.find(names[0])), [S('uint', (S('arr', tuple(S('limb', (w,)) for w in W.limbs)),))])
        if it.panics:
            raise Fail('may panic')
        v = r
        while isinstance(v, S) and len(v.f) == 1:
            v = v.f[0]
        limbs = [x.f[0] if isinstance(x, S) else x for x in v.f]
        if len(limbs) != 4:
            raise Fail('%d limbs' % len(limbs))
        k = lp.prove_value(tuple(limbs) + (0,), [W], W.var, ORDER, 0)
        return 'the residue modulo the order, below the order; %d cases' % k
    c.ob('reduction', 'packages/secq256k1/src/scalar.rs from_uint_reduced', f)

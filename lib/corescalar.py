"""secq256k1::Scalar, the thin wrapper over elliptic_curve's ScalarCore: every method is interpreted with ScalarCore
replaced by its documented meaning (a residue below the curve order) and the field element type by the operations
P01 and P02 prove, and compared with the operation of the same name on residues."""
import re
import mir, poly, absint, felem
from absint import S, R, Interp
from fields import FT, P_SECP, args_for, deref
from vc import Fail
P_ = P_SECP
FILE = 'packages/secq256k1/src/scalar.rs'
SEC = FT('field_secp', 'secq256k1', 'secq256k1::field::field_secp::FieldElement', P_, FILE)
N = re.compile(r'^<&?secq256k1::(?:scalar::)?Scalar as ')

def ltp(n):
    """0/1: whether the number n is below the order."""
    if isinstance(n, int):
        return 1 if n < P_ else 0
    if n.key() in felem._NUMBER:
        return 1
    return poly.of_atom(poly.atom('ltp', (P_, n.key()), 0, 1, ('ltp', n)))

def core(it, v):
    while isinstance(v, R):
        v = it.load(v)
    if isinstance(v, felem.Fe):
        return v
    return felem.from_int(SEC, uint(it, v))

def uint(it, v):
    """The number a U256 (or a ScalarCore) holds."""
    while isinstance(v, R):
        v = it.load(v)
    if isinstance(v, felem.Fe):
        return felem.number(felem.byte_words(v), 8)
    while isinstance(v, S) and len(v.f) == 1:
        v = v.f[0]
    if isinstance(v, felem.Fe):
        return felem.number(felem.byte_words(v), 8)
    ls = [deref(it, x) for x in v.f] if isinstance(v, S) else []
    ls = [x.f[0] if isinstance(x, S) else x for x in ls]
    if len(ls) != 4:
        raise poly.Unsupported('not a 256-bit number: %s' % type(v).__name__)
    return felem.number(ls)

def uint_of(n):
    if isinstance(n, int):
        ls = [(n >> (64 * i)) & (2**64 - 1) for i in range(4)]
    else:
        k = felem._NUMBER.get(n.key())
        if k is None or k[0] != 'byte':
            raise poly.Unsupported('256-bit number of unknown words')
        b = felem.byte_words(k[1])
        ls = [felem.number(b[8 * i:8 * i + 8], 8) for i in range(4)]
    return S('uint', (S('arr', tuple(S('limb', (x,)) for x in ls)),))

def blist(it, v):
    v = deref(it, v)
    while isinstance(v, S) and len(v.f) == 1:
        v = deref(it, v.f[0])
    if isinstance(v, S) and len(v.f) == 2:          # a bit array: its data beside a zero-sized marker
        d = [x for x in (deref(it, y) for y in v.f) if isinstance(x, S) and x.f]
        if len(d) == 1:
            return blist(it, d[0])
    xs = [deref(it, x) for x in v.f] if isinstance(v, S) else None
    if xs is None:
        try:
            import vn
            xs = list(vn.bitems(it, v))
        except Exception:
            raise poly.Unsupported('bytes of unknown length')
    if len(xs) != 32:
        raise Fail('%d bytes' % len(xs))
    return xs

def arr(xs):
    return S('arr', tuple(xs))

def ctopt(v, b):
    return S('ctopt', (v, b))

def overrides(q, ft=None, decide=None):
    ft = ft or SEC
    ok = decide or ltp
    ov = dict(felem.FeOps([ft]).ov)
    F = ft.name
    def frm(rev, core_):
        def h(it, a, f):
            xs = blist(it, a[0])
            n = felem.number(xs[::-1] if rev else xs, 8)
            return ctopt(felem.from_int(ft if not core_ else SEC, n), ok(n))
        return h
    def enc(rev):
        def h(it, a, f):
            xs = felem.byte_words(felem.lift(ft, a[0], it))
            return arr(xs[::-1] if rev else xs)
        return h
    def cenc(rev):
        def h(it, a, f):
            xs = felem.byte_words(core(it, a[0]))
            return arr(xs[::-1] if rev else xs)
        return h
    for nm, rev in (('from_bytes', 0), ('from_be_bytes', 1)):
        ov['%s::%s' % (F, nm)] = frm(rev, 0)
    for nm, rev in (('to_bytes', 0), ('to_be_bytes', 1)):
        ov['%s::%s' % (F, nm)] = enc(rev)
    ov['<%s as ff::PrimeField>::from_repr' % F] = frm(0, 0)
    ov['<%s as ff::PrimeField>::to_repr' % F] = enc(0)
    for t in ('secq256k1::field::BaseField',):
        for nm, rev in (('from_bytes', 0), ('from_be_bytes', 1)):
            ov['<%s as %s>::%s' % (F, t, nm)] = frm(rev, 0)
        for nm, rev in (('to_bytes', 0), ('to_be_bytes', 1)):
            ov['<%s as %s>::%s' % (F, t, nm)] = enc(rev)
    # ScalarCore
    C = 'ScalarCore'
    ov[C + '::from_be_bytes'] = frm(1, 1)
    ov[C + '::from_le_bytes'] = frm(0, 1)
    ov[C + '::to_be_bytes'] = cenc(1)
    ov[C + '::to_le_bytes'] = cenc(0)
    def new(it, a, f):
        n = uint(it, a[0])
        return ctopt(felem.from_int(SEC, n), ok(n))
    ov[C + '::new'] = new
    ov[C + '::as_uint'] = lambda it, a, f: it.ref(uint_of(uint(it, a[0])))
    def zero(it, a, f):
        return felem.fe_eq(core(it, a[0]), felem.from_int(SEC, 0))
    def odd(it, a, f):
        x = felem.byte_words(core(it, a[0]))[0]
        return x & 1 if isinstance(x, int) else poly.split(x, 1)[0]
    def high(it, a, f):
        x = core(it, a[0])
        k = x.const()
        if k is not None:
            return 1 if k > P_ // 2 else 0
        return poly.of_atom(poly.atom('high', (P_, x.key()), 0, 1, ('high', x)))
    ov[C + '::is_zero'] = zero
    ov[C + '::is_odd'] = odd
    ov[C + '::is_even'] = lambda it, a, f: poly.bnot(odd(it, a, f))
    ov[C + '::is_high'] = high
    b2 = {'add': felem.fe_add, 'sub': felem.fe_sub}
    for nm, g in b2.items():
        ov[C + '::' + nm] = lambda it, a, f, g=g: g(core(it, a[0]), core(it, a[1]))
        def asg(it, a, f, g=g):
            it.store(a[0], g(core(it, a[0]), core(it, a[1])))
            return absint.UNIT
        ov[C + '::' + nm + '_assign'] = asg
    ov[C + '::neg'] = lambda it, a, f: felem.fe_neg(core(it, a[0]))
    ov[C + '::from'] = lambda it, a, f: felem.from_int(SEC, a[0])
    eq = lambda it, a, f: felem.fe_eq(core(it, a[0]), core(it, a[1]))
    ov[C + '::ct_eq'] = eq
    ov[C + '::eq'] = eq
    ov[C + '::ne'] = lambda it, a, f: poly.bnot(eq(it, a, f))
    def into(it, a, f):
        if 'GenericArray<u8' in (f['n'] or '') and a and isinstance(a[0], S) and 'Scalar' not in f['n']:
            v = a[0]
            while isinstance(v, S) and len(v.f) == 1 and isinstance(v.f[0], S):
                v = v.f[0]
            if v.t == 'arr' and len(v.f) == 32:
                return v
        return NotImplemented
    ov['Into::into'] = ov['From::from'] = into
    def dflt(it, a, f):
        m = re.search(r'<impl [\w:]*Default for [\w:]*GenericArray<u8, (.*)>>::default$|^<[\w:]*GenericArray<u8, (.*)> as [\w:]*Default>::default$', f['n'] or '')
        if m:
            bits = re.findall(r'\bB([01])\b', m.group(1) or m.group(2))
            if bits:
                return arr([0] * int(''.join(bits), 2))
        return NotImplemented
    ov['Default::default'] = dflt
    ov[C + '::conditional_select'] = lambda it, a, f: it.select(a[2], core(it, a[1]), core(it, a[0]))
    return ov

CORE = re.compile(r'^(?:<&?)?([\w:]*ScalarCore)(?:::)?<secq256k1::Secq256K1>(?: as [^{}]*?>)?(?: as .*>)?::(\w+)$')
def instances(q, ov):
    """The same operations under the names their instances have in this program."""
    for n in list(q.byname):
        if n.startswith('<secq256k1'):
            continue
        m = re.match(r'^<u64 as std::convert::Into<[\w:]*ScalarCore<secq256k1::Secq256K1>>>::into$', n)
        if m:
            ov[n] = lambda it, a, f: felem.from_int(SEC, a[0])
            continue
        if 'ScalarCore' in n and 'CtOption' not in n and 'Option' not in n:
            m = re.match(r'^<?&?[\w:]*ScalarCore(::)?<secq256k1::Secq256K1>.*::(\w+)$', n)
            if m and 'ScalarCore::' + m.group(2) in ov:
                ov[n] = ov['ScalarCore::' + m.group(2)]
    return ov

def interp(q):
    return Interp(q, overrides=instances(q, overrides(q)))

OPS = {'add': felem.fe_add, 'sub': felem.fe_sub, 'mul': felem.fe_mul}
def methods(q):
    """(name, method) of every compiled method of the wrapper."""
    for n in sorted(q.byname):
        m = re.match(r'^<&?secq256k1::(?:scalar::)?Scalar as (.*)>::(\w+)$', n) or \
            re.match(r'^secq256k1::(?:scalar::)?(Scalar)::(\w+)$', n)
        if m:
            yield n, m.group(1), m.group(2)

def val(it, v):
    v = deref(it, v)
    while isinstance(v, S) and len(v.f) == 1:
        v = deref(it, v.f[0])
        if isinstance(v, felem.Fe):
            return v
    return core(it, v)

def scalar(q, fe):
    for i, t in enumerate(q.types):
        if t and t['k'] == 'adt' and re.match(r'^secq256k1::(scalar::)?Scalar$', t['n']):
            return S(i, (fe,))
    raise Fail('type secq256k1::Scalar not found')

def runf(q, name, vals):
    it = interp(q)
    b = q.body(q.find(name))
    if b is None:
        raise poly.Unsupported('no body')
    args = args_for(it, b, lambda i, n, ty: vals[i - 1] if i <= len(vals) else felem_fail(i))
    r = it.run_body(b, args)
    if it.panics:
        raise Fail('may panic: %r' % (it.panics[:1],))
    return it, args, r
def felem_fail(i):
    raise Fail('takes %d operands' % i)

def want(what, got, exp):
    if got != exp:
        raise Fail('%s is %r, not %r' % (what, got, exp))
    return what

def arithmetic(c):
    """P01: every operator form."""
    q = mir.prog('secq256k1')
    seen = set()
    A, B = felem.sym(SEC, 'A'), felem.sym(SEC, 'B')
    for name, tr, m in methods(q):
        op = m[:-7] if m.endswith('_assign') else m
        if op not in ('add', 'sub', 'mul', 'neg', 'double') or not re.match(r'std::ops::|ff::Field|Scalar$', tr):
            continue
        seen.add(m)
        def ob(name=name, m=m, op=op):
            c.count('functions_analysed')
            two = op in OPS
            it, args, r = runf(q, name, [scalar(q, A), scalar(q, B)][:1 + two])
            v = val(it, args[0]) if m.endswith('_assign') else val(it, r)
            exp = OPS[op](A, B) if two else felem.fe_neg(A) if op == 'neg' else felem.fe_scale(A, 2)
            return want(op + ' modulo the order', v, exp)
        c.ob('curve-scalar/' + short(name), FILE + ' ' + name, ob)
    miss = {'add', 'sub', 'mul', 'neg', 'double', 'add_assign', 'sub_assign', 'mul_assign'} - seen
    if miss:
        c.fail('curve-scalar/forms', FILE, 'no implementation found for %s' % sorted(miss))

def short(name):
    g = re.search(r'<impl std::convert::From<(&?)secq256k1::(?:scalar::)?Scalar> for [\w:]*?(\w+)[<>]', name)
    if g:
        return '<%s as From<%sScalar>>::from' % (g.group(2), g.group(1))
    n = re.sub(r'secq256k1::(scalar::)?Scalar', 'Scalar', name)
    n = re.sub(r'k256::elliptic_curve::|std::|subtle::', '', n)
    return re.sub(r'UInt<.*?>+', 'U256>', n) if 'UInt<' in n else n

import limbproof as lp
def some(it, r):
    """(success bit, payload) of a CtOption, Option or Result."""
    r = deref(it, r)
    if isinstance(r, S) and len(r.f) == 2:
        return r.f[1], r.f[0]
    if isinstance(r, absint.E):
        name = it.T[r.t]['v'] if isinstance(r.t, int) else None
        pos = None
        for v, k, fs in r.alts:
            nm = name[v]['n'] if name else ('None', 'Some')[v] if r.t in ('opt', 'Option') else ('Ok', 'Err')[v]
            if nm in ('Some', 'Ok'):
                pos = (k, fs[0] if fs else None)
        if pos is None:
            return 0, None
        return pos
    raise poly.Unsupported('not an optional value')

U256 = lambda ls: S('uint', (S('arr', tuple(S('limb', (x,)) for x in ls)),))

def conversions(c):
    """P02: byte, integer and bit conversions."""
    q = mir.prog('secq256k1')
    A = felem.sym(SEC, 'A')
    seen = set()
    def reg(kind, name, f):
        seen.add(kind)
        def ob():
            c.count('functions_analysed')
            return f()
        c.ob('curve-scalar/' + short(name), FILE + ' ' + name, ob)
    def enc(name, rev):
        def f():
            it, args, r = runf(q, name, [scalar(q, A)])
            xs = blist(it, r)
            if tuple(xs[::-1] if rev else xs) != felem.byte_words(A):
                raise Fail('not the %s-endian encoding of the value' % ('big' if rev else 'little'))
            return '%s-endian encoding' % ('big' if rev else 'little')
        return f
    def dec(name, rev, nl, nbits, mk):
        def f():
            W = lp.Composite('W', nl=nl, nbits=nbits, extra=0)
            ls = list(W.limbs[:nl])
            it, args, r = runf(q, name, [mk(ls[::-1] if rev else ls)])
            k, v = some(it, r)
            n = felem.number(W.limbs[:nl], nbits)
            want('the value', val(it, v), felem.from_int(SEC, n))
            if not same(k, ltp(n)):
                raise Fail('accepted when %s, not exactly when below the order' % poly.show(k, 4))
            return 'the number denoted, exactly when below the order'
        return f
    def small(name, bits):
        def f():
            n = poly.var('n', 0, 2**bits - 1)
            it, args, r = runf(q, name, [n])
            return want('the argument', val(it, r), felem.from_int(SEC, n))
        return f
    def const(name, k):
        def f():
            it, args, r = runf(q, name, [])
            return want('the constant', val(it, r), felem.from_int(SEC, k))
        return f
    def asuint(name):
        def f():
            it, args, r = runf(q, name, [scalar(q, A)])
            if not same(uint(it, r), felem.number(felem.byte_words(A), 8)):
                raise Fail('not the number the scalar is')
            return 'the number the scalar is'
        return f
    def fromcore(name):
        it, args, r = runf(q, name, [A])
        return want('the argument', val(it, r), A)
    for name, tr, m in methods(q):
        if m == 'to_bytes':
            reg(m, name, enc(name, 0))
        elif m == 'to_repr':
            reg(m, name, enc(name, 1))
        elif m == 'to_le_bits':
            reg(m, name, enc(name, 0))
        elif m == 'from_repr':
            reg(m, name, dec(name, 1, 32, 8, arr))
        elif m == 'try_from' and 'UInt<' in tr:
            reg(m, name, dec(name, 0, 4, 64, U256))
        elif m == 'from' and tr.endswith('<u64>'):
            reg('u64', name, small(name, 64))
        elif m == 'from' and tr.endswith('<u32>'):
            reg('u32', name, small(name, 32))
        elif m == 'from' and tr.endswith('ScalarCore<secq256k1::Secq256K1>>'):
            reg('core', name, lambda name=name: fromcore(name))
        elif m in ('zero', 'one') and tr == 'ff::Field':
            reg(m, name, const(name, int(m == 'one')))
    for name in sorted(q.byname):
        g = re.search(r'<impl std::convert::From<&?secq256k1::(?:scalar::)?Scalar> for ([\w:]*)', name)
        if g and name.endswith('>::from'):
            reg('into', name, enc(name, 1) if g.group(1).endswith('GenericArray') else asuint(name))
    miss = {'to_bytes', 'to_repr', 'to_le_bits', 'from_repr', 'u64', 'u32', 'zero', 'one', 'into'} - seen
    if miss:
        c.fail('curve-scalar/present', FILE, 'no conversion found for %s' % sorted(miss))

def same(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    return a.c == b.c

def comparisons(c):
    """P25: equality, zero, parity and selection."""
    q = mir.prog('secq256k1')
    A, B = felem.sym(SEC, 'A'), felem.sym(SEC, 'B')
    ov = overrides(q)
    bit = {'is_zero': ov['ScalarCore::is_zero'], 'is_odd': ov['ScalarCore::is_odd'], 'is_high': ov['ScalarCore::is_high'],
           'is_even': ov['ScalarCore::is_even']}
    for name, tr, m in methods(q):
        def one(name=name, m=m):
            it, args, r = runf(q, name, [scalar(q, A)])
            r = deref(it, r)
            r = r.f[0] if isinstance(r, S) else r
            if not same(r, bit[m](it, [A], None)):
                raise Fail('the bit is %s' % poly.show(r, 4))
            return m + ' of the value'
        def two(name=name, m=m):
            it, args, r = runf(q, name, [scalar(q, A), scalar(q, B)])
            r = deref(it, r)
            r = r.f[0] if isinstance(r, S) else r
            w = felem.fe_eq(A, B)
            if m == 'ne':
                w = poly.bnot(w)
            if not same(r, w):
                raise Fail('the bit is %s' % poly.show(r, 4))
            return 'equality of the values'
        def sel(name=name):
            ch = poly.var('choice', 0, 1)
            it, args, r = runf(q, name, [scalar(q, A), scalar(q, B), ch])
            return want('the choice', val(it, r), felem.fe_select(SEC, ch, B, A))
        f = one if m in bit else two if m in ('ct_eq', 'eq', 'ne') else sel if m == 'conditional_select' else None
        if f:
            def ob(f=f):
                c.count('functions_analysed')
                return f()
            c.ob('curve-scalar/' + short(name), FILE + ' ' + name, ob)

def constants(c):
    """P04: the characteristic in the documented byte order."""
    q = mir.prog('secq256k1')
    for name, tr, m in methods(q):
        if m == 'char_le_bits':
            def ob(name=name):
                it, args, r = runf(q, name, [])
                xs = blist(it, r)
                if any(not isinstance(x, int) for x in xs) or sum(x << (8 * i) for i, x in enumerate(xs)) != P_:
                    raise Fail('not the order in little-endian order')
                return 'the order, little-endian'
            c.ob('curve-scalar/char_le_bits', FILE + ' char_le_bits', ob)
    import p04
    for n, v in sorted(q.consts.items()):
        m = re.match(r'^secq256k1::(?:scalar::)?Scalar::(ZERO|ONE)$', n)
        if m:
            def ob(v=v, k=int(m.group(1) == 'ONE')):
                ws = p04.ints(v['v'])
                if sum(w << (64 * i) for i, w in enumerate(ws)) != k or len(ws) != 4:
                    raise Fail('is %r' % (ws,))
                return str(k)
            c.ob('curve-scalar/' + m.group(1), FILE + ' const ' + m.group(1), ob)

def sampling(c):
    """P13: sampled field elements carry fresh output of the source."""
    from fields import FTS
    q = mir.prog('verif_inst')
    def fe_val(ft):
        def f(it, v):
            v = deref(it, v)
            while isinstance(v, S) and len(v.f) == 1 and isinstance(v.f[0], (S, felem.Fe)):
                v = v.f[0]
                if isinstance(v, felem.Fe):
                    return v
            return felem.lift(ft, v, it)
        return f
    for name in sorted(q.byname):
        m = re.match(r'^verif_inst::(field_secp|field_secq|curve)::(sample|draw)$', name)
        if not m:
            continue
        ft = SEC if m.group(1) == 'curve' else [x for x in FTS if x.label == m.group(1)][0]
        conv = val if m.group(1) == 'curve' else fe_val(ft)
        def ob(name=name, ft=ft, conv=conv):
            seen = set()
            for rejects in range(4):
                drawn = []          # (draw number, atom)
                left = [rejects]
                first = [0]
                def decide(n):
                    if left[0]:
                        left[0] -= 1
                        first[0] = len(drawn)
                        return 0
                    return 1
                it = Interp(q, overrides=instances(q, overrides(q, ft, decide)))
                def fresh(bits):
                    x = poly.var('draw%d' % len(drawn), 0, 2**bits - 1)
                    drawn.append(x)
                    return x
                def fill(it, a, f):
                    r = a[1]
                    while isinstance(r, R) and isinstance(it.load(r), R):
                        r = it.load(r)
                    n = it.length(r)
                    if not isinstance(n, int):
                        raise poly.Unsupported('buffer of unknown length')
                    for i in range(n):
                        it.store(it.subref(r, i), fresh(8))
                    return absint.UNIT
                src = '<verif_inst::Source as rand_core::RngCore>::'
                for tr in (src, 'RngCore::'):
                    it.overrides[tr + 'fill_bytes'] = fill
                    it.overrides[tr + 'next_u64'] = lambda it, a, f: fresh(64)
                    it.overrides[tr + 'next_u32'] = lambda it, a, f: fresh(32)
                for nm, k, w in (('from_u512', 8, 64), ('from_bytes_wide', 64, 8), ('from_raw', 4, 64)):
                    def wide(it, a, f, k=k, w=w):
                        v = deref(it, a[0])
                        while isinstance(v, S) and len(v.f) == 1:
                            v = deref(it, v.f[0])
                        xs = [deref(it, x) for x in v.f]
                        if len(xs) != k:
                            raise Fail('%d words' % len(xs))
                        return felem.from_int(ft, felem.number(xs, w))
                    it.overrides['%s::%s' % (ft.name, nm)] = wide
                b = q.body(q.find(name))
                r = it.run_body(b, args_for(it, b, lambda i, n, ty: S('source', ())))
                if it.panics:
                    raise Fail('may panic')
                v = conv(it, r)
                if left[0] == rejects and rejects:
                    break                       # never refuses a candidate
                if left[0]:
                    raise Fail('%d refused candidates in a row are not followed by another one' % rejects)
                last = drawn[first[0]:]
                bits = sum((poly.rng(x)[1] + 1).bit_length() - 1 for x in last)
                if bits < 256:
                    raise Fail('drawn from %d bits' % bits)
                # the value is the residue of the number the bits of the accepted candidate form, in some order
                coef = {}
                for mono, k in v.c.items():
                    coef[mono] = k
                w = (poly.rng(last[0])[1] + 1).bit_length() - 1
                want_ = sorted(pow(2, w * i, ft.p) for i in range(len(last)))
                got = []
                for x in last:
                    (mono, _), = poly.coeffs(x).items()
                    got.append(coef.pop(mono, 0))
                if coef:
                    raise Fail('depends on a refused candidate')
                if sorted(got) != want_:
                    raise Fail('not the number its %d random bits form: %d of %d words reach the value' % (bits, sum(1 for g in got if g), len(got)))
                seen.add(bits)
            c.count('functions_analysed')
            return 'the residue of %s fresh bits; a refused candidate is not used' % '/'.join(map(str, sorted(seen)))
        c.ob('sampling/%s::%s' % (m.group(1), m.group(2)), ft.file + ' random', ob)

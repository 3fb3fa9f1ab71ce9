"""Encodings: abstract interpretation of every conversion of the three field types.  Encoders are run on symbolic limbs
and the number their bytes denote is proved to be the canonical value; decoders are run on symbolic bytes, the value is
compared modulo p as a polynomial in the bytes and the success bit is proved equivalent to `number < p`."""
import re
import corescalar
import poly, limbproof as lp, felem, fields
from absint import Interp, S, E, R
from fields import FTS, args_for, deref, RR
from vc import Fail

ENC = [
    (r'^<{F} as secq256k1::field::BaseField>::to_bytes$', 'to_le'), (r'^{F}::to_bytes$', 'to_le'),
    (r'^<{F} as secq256k1::field::BaseField>::to_be_bytes$', 'to_be'), (r'^{F}::to_be_bytes$', 'to_be'),
    (r'^.*<impl std::convert::From<&{F}> for \[u8; 32\]>::from$', 'to_le'),
    (r'^<{F} as ff::PrimeField>::to_repr$', 'to_be'), (r'^{F}::to_sec1$', 'to_be'),
    (r'^<{F} as secq256k1::field::BaseField>::from_bytes$', 'from_le'), (r'^{F}::from_bytes$', 'from_le'),
    (r'^<{F} as ff::PrimeField>::from_repr$', 'from_be'), (r'^{F}::from_sec1$', 'from_be'),
    (r'^{F}::from_bytes_wide$', 'wide'), (r'^{F}::from_raw$', 'raw'), (r'^{F}::from_u512$', 'u512'),
    (r'^<{F} as std::convert::From<u64>>::from$', 'u64'), (r'^<{F} as (?:ff|secq256k1::elliptic_curve)::PrimeField>::is_odd$', 'odd'),
    (r'^{F}::zero$', 'zero'), (r'^{F}::one$', 'one'), (r'^<{F} as std::default::Default>::default$', 'zero'),
    (r'^<{F} as ff::Field>::zero$', 'zero'), (r'^<{F} as ff::Field>::one$', 'one'),
]
NEED = {'scalar': {'to_le', 'from_le', 'wide', 'raw', 'u64', 'zero', 'one'},
        'field_secp': {'to_le', 'to_be', 'from_le', 'from_be', 'raw', 'u64', 'odd', 'zero', 'one'},
        'field_secq': {'to_le', 'to_be', 'from_le', 'from_be', 'raw', 'u64', 'odd', 'zero', 'one'}}

def functions(ft):
    for name in sorted(ft.prog.byname):
        for pat, kind in ENC:
            if re.match(pat.replace('{F}', re.escape(ft.name)), name):
                yield name, kind

def is_lt_p(bit, comp, p):
    """bit = 1 exactly when the composite number is below p."""
    n = 0
    for asg, q, fs, eqs in lp.cases(bit, [comp]):
        n += 1
        lo, hi = lp.bound(poly.subst(comp.var, eqs), fs)
        if isinstance(q, int) and q == 1:
            if hi >= p:
                raise Fail('accepts encodings of numbers up to %s' % hex(hi))
        elif isinstance(q, int) and q == 0:
            if lo < p:
                raise Fail('rejects encodings of numbers from %s' % hex(lo))
        else:
            raise Fail('success bit is not determined: %s' % poly.show(q, 4))
    return n

def run(c):
    for ft in FTS:
        seen = set()
        for name, kind in functions(ft):
            seen.add(kind)
            b = ft.prog.body(ft.prog.find(name))
            c.ob('%s/%s' % (ft.label, name.replace(ft.name, 'F')), ft.file + ' ' + name,
                 lambda: check(c, ft, b, name, kind))
        miss = NEED[ft.label] - seen
        if miss:
            c.fail('%s/present' % ft.label, ft.file, 'no conversion found for %s' % sorted(miss))
    corescalar.conversions(c)
    serde(c)
    c.assumptions.append('field operations are exact (P01); the serialiser passes the elements of a sequence on unchanged')
    return __doc__

def bytes_of(it, r):
    r = deref(it, r)
    while isinstance(r, S) and len(r.f) == 1 and isinstance(r.f[0], S):
        r = r.f[0]
    xs = list(r.f)
    if len(xs) != 32:
        raise Fail('encoding has %d bytes' % len(xs))
    return xs

def check(c, ft, b, name, kind):
    p = ft.p
    ov = dict(felem.FeOps([ft]).ov)
    ov.pop(name, None)
    c.count('functions_analysed')
    if kind in ('to_le', 'to_be', 'odd'):
        it = Interp(ft.prog)
        A = lp.Composite('A', hi=p - 1)
        r = it.run_body(b, args_for(it, b, lambda i, n, ty: ft.val(A.limbs)))
        if it.panics:
            raise Fail('may panic')
        if kind == 'odd':
            if isinstance(r, S):
                r = r.f[0]
            tb = [n for n, k in functions(ft) if k == 'to_le'][0]
            b2 = ft.prog.body(ft.prog.find(tb))
            it2 = Interp(ft.prog)
            bs = bytes_of(it2, it2.run_body(b2, args_for(it2, b2, lambda i, n, ty: ft.val(A.limbs))))
            if not same(r, poly.split(bs[0], 1)[0]):
                raise Fail('not the lowest bit of the value')
            return 'lowest bit of the canonical value'
        bs = bytes_of(it, r)
        if kind == 'to_be':
            bs.reverse()
        k = lp.prove_value(bs, [A], A.var, p, RR, nbits=8)
        return 'bytes denote the canonical value (%d carry cases)' % k
    it = Interp(ft.prog, ov)
    if kind in ('zero', 'one'):
        r = felem.lift(ft, it.run_body(b, []), it)
        if r != felem.from_int(ft, 0 if kind == 'zero' else 1):
            raise Fail('constant is %r' % r)
        return 'constant'
    if kind in ('from_le', 'from_be', 'wide'):
        n = 64 if kind == 'wide' else 32
        B = lp.Composite('B', nl=n, nbits=8, extra=0)
        bs = B.limbs if kind != 'from_be' else tuple(reversed(B.limbs))
        def mk(i, nm, ty):
            return S('arr', bs)
        r = deref(it, it.run_body(b, args_for(it, b, mk)))
        val, some = (r.f[0], r.f[1]) if kind != 'wide' else (r, None)
        v = felem.lift(ft, val, it)
        want = felem.Fe(ft, felem._norm(poly.coeffs(felem.number(B.limbs, 8)), p))
        if v != want:
            raise Fail('decoded value differs from the number the bytes denote: %r' % felem.fe_sub(v, want))
        if it.panics:
            raise Fail('may panic')
        if some is None:
            return 'the 512-bit number reduced modulo p'
        k = is_lt_p(some, B, p)
        return 'value of the bytes; accepted exactly when below p (%d carry cases)' % k
    if kind == 'raw':
        N = lp.Composite('N', nl=4, extra=0)
        r = it.run_body(b, [S('arr', N.limbs)])
        want = felem.number(N.limbs)
    elif kind == 'u512':
        N = lp.Composite('N', nl=8, extra=0)
        r = it.run_body(b, [S('arr', N.limbs)])
        want = felem.number(N.limbs)
    else:
        x = poly.var('n', 0, 2**64 - 1)
        r = it.run_body(b, [x])
        want = x
    v = felem.lift(ft, r, it)
    if v != felem.Fe(ft, felem._norm(poly.coeffs(want), p)):
        raise Fail('value differs from the argument: %r' % v)
    if it.panics:
        raise Fail('may panic')
    return 'the argument modulo p'

def same(a, b):
    return a == b if isinstance(a, int) or isinstance(b, int) else a.c == b.c

def serde(c):
    for ft0, crate in ((FTS[0], 'spartan_wasm'), (FTS[1], 'verif_inst'), (FTS[2], 'verif_inst')):
        ft = fields.FT(ft0.label, crate, ft0.name, ft0.p, ft0.file)
        for what, fn in (('deserialize', de), ('serialize', ser)):
            c.ob('%s/%s' % (ft.label, what), ft.file + ' ' + what, lambda: fn(c, ft))

def instance(ft, what):
    pat = {'deserialize': r'^<{F} as serde_core::de::Deserialize<.*>>::deserialize::<&mut bincode::Deserializer<',
           'serialize': r'^<{F} as serde_core::ser::Serialize>::serialize::<&mut bincode::Serializer<'}[what]
    ns = [n for n in sorted(ft.prog.byname) if re.match(pat.replace('{F}', re.escape(ft.name)), n)]
    if not ns:
        raise Fail('no %s instance found' % what)
    return ns[0]

def nest(*xs):
    return S('?', tuple(nest(*x) if isinstance(x, tuple) else x for x in xs))

def de(c, ft):
    name = instance(ft, 'deserialize')
    b = ft.prog.body(ft.prog.find(name))
    ov = dict(felem.FeOps([ft]).ov)
    p, n = ft.p, 0
    want = None
    # a sequence of 32 bytes, sequences of other lengths, and input that ends early
    for ln, have in [(32, 32)] + [(k, k) for k in range(0, 41) if k != 32] + [(32, k) for k in range(32)]:
        it = Interp(ft.prog, ov)
        B = lp.Composite('B', nl=max(have, 32), nbits=8, extra=0)
        body = list(B.limbs)[:have] + [0] * (have - 32 if have > 32 else 0)
        inp = it.ref(S('arr', tuple([ln] + [0] * 7 + body)))
        r = it.run_body(b, [it.ref(nest((inp,), ((), ())))])
        if it.panics:
            raise Fail('may panic on a sequence of %d bytes (%d present)' % (ln, have))
        n += 1
        alts = {v: (bit, fs) for v, bit, fs in r.alts} if isinstance(r, E) else None
        if alts is None:
            raise Fail('result is not understood: %r' % (r,))
        if (ln, have) != (32, 32):
            if 0 in alts and not (isinstance(alts[0][0], int) and alts[0][0] == 0):
                raise Fail('accepts a sequence of %d bytes (%d present)' % (ln, have))
            continue
        if 0 not in alts:
            raise Fail('rejects every encoding')
        v = felem.lift(ft, deref(it, alts[0][1][0]), it)
        if v != felem.Fe(ft, felem._norm(poly.coeffs(felem.number(B.limbs, 8)), p)):
            raise Fail('decoded value differs from the number the bytes denote')
        k = is_lt_p(alts[0][0], B, p)
    c.count('input_shapes', n)
    return 'accepts exactly the 32-byte little-endian encodings of numbers below p; no panic on %d shapes' % n

def ser(c, ft):
    name = instance(ft, 'serialize')
    b = ft.prog.body(ft.prog.find(name))
    it = Interp(ft.prog)
    A = lp.Composite('A', hi=ft.p - 1)
    out = it.ref(S('vec', ()))
    cells = it.ref(nest(out, ((), ())))
    r = it.run_body(b, [it.ref(ft.val(A.limbs)), cells])
    if it.panics:
        raise Fail('may panic')
    if not (isinstance(r, E) and len(r.alts) == 1 and r.alts[0][0] == 0):
        raise Fail('may fail: %r' % (r,))
    xs = list(it.items(out))
    if xs[:8] != [32] + [0] * 7 or len(xs) != 40:
        raise Fail('writes %d bytes after the length %r instead of 32' % (len(xs) - 8, xs[:8]))
    k = lp.prove_value(xs[8:], [A], A.var, ft.p, RR, nbits=8)
    return 'writes the 32 canonical little-endian bytes (%d carry cases)' % k

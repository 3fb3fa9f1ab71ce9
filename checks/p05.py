"""Poseidon.  The circuit template, the generic Rust hasher and the WASM export are evaluated on unknown inputs in one exact
domain (linear forms over powers of linear forms) and compared with the specified permutation, whose constants are derived
here with the Grain generator for the documented parameters."""
import copy, os
import mir, poly, felem, fields, vn, proto, models, iomodel, circom, linpow
from absint import S, E, R, Dom, Interp, Diverge
from poly import P, Unsupported
from felem import Fe
from fields import FTS
from vc import Fail, REPO
from vn import deref1
FT = FTS[1]
p = FT.p
T, RF, RP, ALPHA = 3, 8, 56, 5

# ---- the specification -------------------------------------------------------
def grain(n=256):
    """round constants and MDS matrix as generated by packages/poseidon/sage (Grain LFSR in self-shrinking mode)"""
    s = [int(x) for x in '01' + '0000' + format(n, '012b') + format(T, '012b') + format(RF, '010b') + format(RP, '010b')] + [1] * 30
    def step():
        b = s[62] ^ s[51] ^ s[38] ^ s[23] ^ s[13] ^ s[0]
        s.pop(0); s.append(b)
        return b
    for _ in range(160): step()
    def bit():
        while not step(): step()
        return step()
    rnd = lambda: int(''.join(str(bit()) for _ in range(n)), 2)
    rc = []
    while len(rc) < (RF + RP) * T:
        r = rnd()
        if r < p: rc.append(r)
    while True:
        l = [rnd() % p for _ in range(2 * T)]
        if len(set(l)) == len(l) and all((a + b) % p for a in l[:T] for b in l[T:]): break
    return rc, [[pow(a + b, -1, p) for b in l[T:]] for a in l[:T]]

def K(n): return felem.from_int(FT, n % p)

def lp_split(a):
    if len(a.c) == 1:
        (m, c), = a.c.items()
        if m and len(m) == 1 and m[0][1] == 1 and poly.ATOMS[m[0][0]].kind == 'lp':
            return c, dict(poly.ATOMS[m[0][0]].data[1])
    m = max(a.c)
    f = felem.fe_scale(a, pow(a.c[m], -1, p))
    k = f.key()
    if k not in _FORM: _FORM[k] = len(_FORM)
    return a.c[m], {_FORM[k]: 1}
_FORM = {}
def lp_mul(a, b):
    if a.const() is not None: return felem.fe_scale(b, a.const())
    if b.const() is not None: return felem.fe_scale(a, b.const())
    (c, m), (d, n) = lp_split(a), lp_split(b)
    for k, e in n.items(): m[k] = m.get(k, 0) + e
    key = tuple(sorted(m.items()))
    return felem.fe_scale(Fe(FT, poly.coeffs(poly.of_atom(poly.atom('lp', key, 0, p - 1, ('lp', key))))), c * d)
felem.fe_mul = lp_mul

class Dm:
    const = staticmethod(K)
    mul = staticmethod(lp_mul)
    add = staticmethod(lambda a, b, k=1: felem.fe_add(a, felem.fe_scale(b, k)))

def reference(x, rc, mds):
    s, k = [K(3)] + list(x), 0
    for r in range(RF + RP):
        s = [felem.fe_add(a, K(rc[k + i])) for i, a in enumerate(s)]; k += T
        for i in range(T if r < RF // 2 or r >= RF // 2 + RP else 1): s[i] = felem.fe_pow(s[i], ALPHA)
        n = []
        for row in mds:
            a = K(0)
            for j in range(T): a = felem.fe_add(a, felem.fe_scale(s[j], row[j]))
            n.append(a)
        s = n
    return s[1]

# ---- the Rust hashers --------------------------------------------------------
class Run:
    def __init__(self, crate):
        self.p = mir.prog(crate)
        self.it = it = Interp(self.p)
        ov = it.overrides
        names = list(self.p.byname)
        N = FT.name
        alias = {N} | {a for a in ('poseidon::poseidon_k256::FieldElement', 'poseidon_k256::FieldElement', 'crate::poseidon_k256::FieldElement')}
        self.bytes = {}
        for a in alias:
            ft = copy.copy(FT); ft.name = a
            ov.update(felem.FeOps([ft]).ov)
        iomodel.overrides(it)
        L = lambda it, v: felem.lift(FT, v, it)
        def lit(it, a):
            v = deref1(it, a)
            if hasattr(v, 's'): return v.s.decode() if isinstance(v.s, bytes) else v.s
            return bytes(deref1(it, x) for x in it.items(v)).decode()
        def sv(it, a, f):
            s = lit(it, a[0])
            if not s.isdigit(): raise Fail('constant %r is not a decimal number' % s)
            return E('Option', ((1, 1, (K(int(s)),)),))
        def pw(it, a, f):
            e = [deref1(it, x) for x in vn.bitems(it, a[1])]
            if any(not isinstance(x, int) for x in e): raise Unsupported('exponent')
            n = sum(x << (64 * i) for i, x in enumerate(e))
            if n > 64: raise Unsupported('large exponent')
            return felem.fe_pow(L(it, a[0]), n)
        def frm(it, a, f):
            x = deref1(it, a[0])
            if not isinstance(x, int): raise Unsupported('conversion of an unknown integer')
            return K(x)
        def fb(it, a, f):
            ks = [deref1(it, x) for x in vn.bitems(it, a[0])]
            k = tuple(x if isinstance(x, int) else x.key() for x in ks)
            if len(k) != 32: raise Fail('a field element is decoded from %d bytes' % len(k))
            name = self.bytes.get(k)
            if name is None: raise Fail('a field element is decoded from other bytes than one half of the input')
            return S('ctopt', (felem.sym(FT, name), poly.of_atom(poly.atom('flag', name, 0, 1, ('canonical', name)))))
        def tb(it, a, f): return S('arr', tuple(felem.byte_words(L(it, a[0]))))
        tb_be = lambda it, a, f: S('arr', tuple(felem.byte_words(L(it, a[0])))[::-1])
        for n in names:
            if not any(x in n for x in alias): continue
            t = n.split('::')[-1].split('<')[0] if not n.endswith('>') else n.split('::<')[0].split('::')[-1]
            if n.startswith('<') and '>::' in n and n.split('>::')[0].split(' as ')[0].lstrip('<&') not in alias: continue
            if t == 'from_str_vartime': ov[n] = sv
            elif t == 'pow_vartime' or t == 'pow': ov[n] = pw
            elif t == 'from' and 'From<u64>' in n: ov[n] = frm
            elif t == 'from_bytes': ov[n] = fb
            elif t == 'to_bytes': ov[n] = tb
            elif t == 'to_be_bytes': ov[n] = tb_be
            elif t in ('zero', 'one') and 'Field' in n: ov[n] = lambda it, a, f, k=int(t == 'one'): K(k)
        for a in alias: 
            ov['%s::zero' % a] = lambda it, a, f: K(0)
            ov['%s::one' % a] = lambda it, a, f: K(1)
        for n in names:
            if 'k256_consts' in n and ' as std::ops::Deref>::deref' in n:
                ov[n] = lambda it, a, f, n=n: it.callfn(n, a)
        def amap(it, a, f):
            return S('arr', tuple(it.call_value(a[1], [x]) for x in it.items(a[0])))
        for n in names:
            if 'array::<impl [' in n and ']>::map::<' in n: ov[n] = amap
        lazy = {}
        def get(it, a, f):
            k = f['n']
            if k not in lazy:
                lazy[k] = it.cell(it.call_value(a[1], []))
            return R(lazy[k], ())
        ov['Lazy::get'] = get
        for n in names:
            if 'lazy::Lazy::<' in n and '::get::<' in n: ov[n] = get

def same(got, want, what):
    if not isinstance(got, Fe): raise Fail('%s is no field element' % what)
    if got != want:
        d = felem.fe_sub(got, want)
        raise Fail('%s is another function of the inputs than the specified permutation (the difference has %d terms)' % (what, len(d.c)))

def run(c):
    rc, mds = grain()
    spec = lambda x: reference(x, rc, mds)
    x = [felem.sym(FT, n) for n in ('x0', 'x1')]
    y = [felem.sym(FT, n) for n in ('y0', 'y1')]
    def circuit():
        e = circom.elab('poseidon/poseidon.circom')
        I = e.inst('Poseidon', [])
        if len(I.ids('input')) != 2 or len(I.ids('output')) != 1: raise Fail('the template has %d inputs and %d outputs' % (len(I.ids('input')), len(I.ids('output'))))
        same(linpow.circuit_value(I, x, Dm)[0], spec(x), 'the output of the circuit')
        return '%d templates' % len(e.cache)
    c.ob('circuit', 'packages/circuits/poseidon/poseidon.circom Poseidon', circuit)
    def rust():
        r = Run('poseidon')
        f = [n for n in r.p.byname if n.endswith('poseidon_k256::hash')]
        if len(f) != 1: raise Fail('poseidon_k256::hash not found')
        same(deref1(r.it, r.it.callfn(f[0], [r.it.ref(S('arr', tuple(x)))])), spec(x), 'the result of poseidon_k256::hash')
        # a second call in the same program
        same(deref1(r.it, r.it.callfn(f[0], [r.it.ref(S('arr', tuple(y)))])), spec(y), 'the result of a second call of poseidon_k256::hash')
        return 'two calls'
    c.ob('rust', 'packages/poseidon/src/poseidon_k256.rs hash', rust)
    def again():
        r = Run('poseidon')
        it, pr = r.it, r.p
        new = [n for n in pr.byname if n.startswith('poseidon::Poseidon::<') and n.endswith('::new')]
        hs = [n for n in pr.byname if n.startswith('poseidon::Poseidon::<') and n.endswith('::hash')]
        pc = [n for n in pr.byname if n.startswith('poseidon::PoseidonConstants::<') and n.endswith('::new')]
        if not (len(new) == len(hs) == len(pc) == 1): raise Fail('Poseidon::new, hash or PoseidonConstants::new not found')
        vec = lambda xs: S('vec', tuple(xs))
        k = it.callfn(pc[0], [vec(K(v) for v in rc), vec(vec(K(v) for v in row) for row in mds), RF, RP])
        h = it.ref(it.callfn(new[0], [k]))
        for i, v in enumerate((x, y, x)):
            same(deref1(it, it.callfn(hs[0], [h, it.ref(S('arr', tuple(v)))])), spec(v), 'the result of call %d on one Poseidon object' % (i + 1))
        return '3 calls on one object'
    c.ob('reuse', 'packages/poseidon/src/lib.rs Poseidon::hash', again)
    def wasm():
        r = Run('spartan_wasm')
        it = r.it
        bs = [poly.var('in%d' % i, 0, 255) for i in range(64)]
        for i, (n, m) in enumerate((('x0', 'y0'), ('x1', 'y1'))):
            r.bytes[tuple(b.key() for b in bs[32 * i:32 * i + 32])] = n
        sl = lambda xs: R(it.cell(S('arr', tuple(xs))), (), (0, len(xs)))
        res = it.callfn('spartan_wasm::wasm::poseidon', [sl(bs)])
        ok, = proto.payload(res)
        out = [deref1(it, b) for b in it.items(ok)]
        want = felem.byte_words(spec(x))
        if len(out) != 32 or any((a if isinstance(a, int) else a.key()) != (b if isinstance(b, int) else b.key()) for a, b in zip(out, want)):
            raise Fail('the exported function does not return the little-endian encoding of the hash of the two decoded halves')
        for n in (0, 32, 63, 65, 96):
            try: it.callfn('spartan_wasm::wasm::poseidon', [sl([0] * n)])
            except Diverge: continue
            raise Fail('an input of %d bytes is accepted' % n)
        return 'bytes in, bytes out'
    c.ob('wasm', 'packages/spartan_wasm/src/wasm.rs poseidon', wasm)
    c.assumptions += ['field operations, decoding and encoding act on field elements as P01-P03 prove', 'circomlib is not used by the Poseidon circuit']
    return ('evaluation of the circuit\'s constraint assignments and of the MIR of the hashers in a domain of linear forms over powers of linear forms; '
            'equality with the specified permutation as normal forms; constants regenerated with the Grain LFSR')

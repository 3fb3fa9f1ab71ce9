"""The WebAssembly entry points are interpreted on witness files, public inputs and circuits of known layout and unknown
content.  The proof system underneath is replaced by recorders: prove and verify must hand it the same circuit, generators,
transcript and public inputs, the whole witness in order, and return what it returned; verify is true exactly when the proof
and the circuit decode, the public inputs are canonical and the proof system accepts.  Damaged witness files yield no proof."""
import struct
import mir, poly, vn, proto, iomodel, pcheck
from absint import S, E, R, Interp, Diverge, UNIT
from poly import P
from vc import Fail
from vn import V, var, const, deref1, bitems
from proto import get
from fields import P_SECP
FL = 'packages/spartan_wasm/src/wasm.rs '


def prg():
    return mir.prog('spartan_wasm')
def u32(n):
    return tuple(struct.pack('<I', n))
def u64(n):
    return tuple(struct.pack('<Q', n))
def unk(tag, n):
    return tuple(poly.var('%s_%d' % (tag, i), 0, 255) for i in range(n))
def key(xs):
    return tuple(x if isinstance(x, int) else x.key() for x in xs)
def flag(name):
    return poly.of_atom(poly.atom('flag', name, 0, 1, ('flag', name)))

def witness(vals, **o):
    """a witness file; vals are V's or byte tuples"""
    body = tuple(b for v in vals for b in (tuple(vn.scalar_bytes(v)) if isinstance(v, V) else v))
    fs = o.get('field_size', 32)
    prime = o.get('prime', unk('wprime', 32))
    return (tuple(o.get('magic', b'wtns')) + u32(o.get('version', 2)) + u32(o.get('n_sec', 2)) + u32(o.get('type1', 1)) + u64(o.get('size1', 40)) + u32(fs) + (prime * 3)[:fs]
            + u32(o.get('n', len(vals))) + u32(o.get('type2', 2)) + u64(o.get('size2', len(body))) + body)

class Run:
    """one interpretation of prove or verify; the circuit has nc constraints, nv variables, ni inputs"""
    def __init__(self, nc, nv, ni):
        self.p = prg()
        self.it = it = Interp(self.p, vn.overrides())
        it.vlog = []
        iomodel.overrides(it)
        self.size = (nc, nv, ni)
        self.circ, self.prf = unk('circuit', 7), unk('proof', 9)
        self.ser = S('vec', unk('serialised', 6))
        mats = {m: proto.struct(self.p, 'SparseMatPolynomial', num_vars_x=self.l2(nc), num_vars_y=self.l2(nv) + 1, M=S('vec', ())) for m in 'ABC'}
        ri = proto.struct(self.p, 'R1CSInstance', num_cons=nc, num_vars=nv, num_inputs=ni, **mats)
        self.inst = proto.struct(self.p, 'Instance', inst=ri, digest=S('vec', unk('digest2', 4))) if self.hasdigest() else proto.struct(self.p, 'Instance', inst=ri)
        self.pf = S('proof', (var('the_proof'),))
        self.calls, self.gens = [], []
        ov = it.overrides
        def de(it, a, f):
            k = key(bitems(it, a[0]))
            for bs, x, n, ty in ((self.circ, self.inst, 'circuit', 'Instance'), (self.prf, self.pf, 'proof', 'NIZK')):
                if k == key(bs):
                    if ty not in f['n'].split('::')[-1] and not f['n'].endswith(ty + '>'):
                        raise Fail('the %s bytes are decoded as another type (%s)' % (n, f['n'][-40:]))
                    c = flag(n + ' decodes')
                    return E('Result', ((0, c, (x,)), (1, poly.bnot(c), (iomodel.Err(),))))
            raise Fail('bytes other than the whole circuit or proof argument are decoded')
        def se(it, a, f):
            if not alike(it, a[0], self.pf):
                raise Fail('something other than the proof is serialised')
            return iomodel.ok(self.ser)
        def gens(it, a, f):
            self.gens.append(tuple(a))
            return S('gens', tuple(a))
        def rec(kind, ret):
            def g(it, a, f):
                self.calls.append((kind, [deref1(it, x) for x in a]))
                return ret
            return g
        acc = flag('accepted')
        for pre in ('libspartan::NIZK::', 'NIZK::'):
            ov[pre + 'prove'] = rec('prove', self.pf)
            ov[pre + 'verify'] = rec('verify', E('Result', ((0, acc, (UNIT,)), (1, poly.bnot(acc), (iomodel.Err(),)))))
        for pre in ('libspartan::NIZKGens::', 'NIZKGens::'):
            ov[pre + 'new'] = gens
        for pre in ('bincode::', 'bincode::internal::', 'internal::'):
            ov[pre + 'deserialize'] = de
            ov[pre + 'serialize'] = se
    def hasdigest(self):
        t = proto.tid(self.p, 'Instance')
        return any(n == 'digest' for n, _ in proto.fields(self.p, t))
    @staticmethod
    def l2(n):
        return n.bit_length() - 1
    def sl(self, xs):
        return R(self.it.cell(S('arr', tuple(xs))), (), (0, len(xs)))
    def go(self, fn, *args):
        """result, None when it never returns"""
        try:
            return self.it.callfn('spartan_wasm::wasm::' + fn, [self.sl(a) for a in args])
        except Diverge:
            return None
    def returned(self, r):
        """condition under which it returns success"""
        return 0 if r is None else proto.outcome(self.it, r)
    def only(self, kind):
        if len(self.calls) != 1 or self.calls[0][0] != kind:
            raise Fail('the proof system is called as %s' % [k for k, _ in self.calls])
        return self.calls[0][1]
    def assignment(self, x):
        xs = [deref1(self.it, y) for y in self.it.items(get(self.p, x, 'assignment'))]
        for y in xs:
            if not isinstance(y, V):
                raise Fail('assignment of an unexpected form')
        return [y.v for y in xs]

def vals(tag, n):
    return [var('%s%d' % (tag, i)) for i in range(n)]
def enc(vs):
    return tuple(b for v in vs for b in vn.scalar_bytes(v))

def alike(it, a, b):
    """structurally the same value"""
    a, b = deref1(it, a), deref1(it, b)
    if isinstance(a, S) and isinstance(b, S):
        return a is b or a.t == b.t and len(a.f) == len(b.f) and all(alike(it, x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, V) and isinstance(b, V):
        return a.v == b.v
    if isinstance(a, (int, P)) and isinstance(b, (int, P)):
        return eqc(a, b)
    return type(a) == type(b) and a == b

def statement(r, args, inst, inp, gens, tr, ins):
    """the parts of a call of the proof system that prove and verify share"""
    if not alike(r.it, inst, r.inst):
        raise Fail('another circuit than the decoded one is used')
    if not isinstance(gens, S) or gens.t != 'gens' or gens.f != r.size:
        raise Fail('generators for %s instead of %s' % (r.gens, r.size))
    if r.assignment(inp) != [v.v for v in ins]:
        raise Fail('the public inputs are not the given 32-byte little-endian values in order')
    return (tr,)

def product(cs):
    t = 1
    for c in cs:
        t = poly.mul(t, c)
    return t
def eqc(a, b):
    d = poly.sub(a, b)
    return isinstance(d, int) and d == 0

def trkey(t):
    return repr(t.key() if hasattr(t, 'key') else getattr(t, 'h', t))

def fresh(label):
    it = Interp(prg(), vn.overrides())
    it.vlog = []
    return vn.new_transcript(label)

def run(c):
    quick = c.tier == 'quick'
    sizes = [(2, 2, 0), (4, 4, 1), (8, 4, 2), (4, 16, 5)] + ([(1 << a, 1 << b, ni) for a in (1, 3, 10, 20) for b in (1, 4, 14) for ni in (0, 1, 2, 5, 7)] if not quick else []) + ([(1 << a, 1 << a, ni) for a in range(1, 14) for ni in range(0, 40)] if c.tier == 'deep' else [])
    tasks = []
    def both(nc, nv, ni):
        def f():
            ins = vals('x', ni)
            out = []
            for extra in (0, 1):
                nw = min(nv, 9) - extra
                ws = vals('w', max(nw, 1))
                r = Run(nc, nv, ni)
                res = r.go('prove', r.circ, witness(ws), enc(ins))
                cond = r.returned(res)
                if not eqc(cond, flag('circuit decodes')):
                    raise Fail('prove does not return a proof for every circuit that decodes')
                if key(bitems(r.it, proto.payload(res)[0])) != key(r.ser.f):
                    raise Fail('prove returns something else than the serialised proof')
                inst, vs, inp, gens, tr = r.only('prove')
                if r.assignment(vs) != [w.v for w in ws]:
                    raise Fail('the witness handed to the proof system is not the values of the file in order')
                k1 = statement(r, None, inst, inp, gens, tr, ins)
            r = Run(nc, nv, ni)
            res = r.go('verify', r.circ, r.prf, enc(ins))
            pf, inst, inp, tr, gens = r.only('verify')
            if not alike(r.it, pf, r.pf):
                raise Fail('another proof than the decoded one is verified')
            k2 = statement(r, None, inst, inp, gens, tr, ins)
            if k1[0] != k2[0]:
                raise Fail('prove and verify start from different transcripts')
            verdict(r, res, [flag('circuit decodes'), flag('proof decodes'), flag('accepted')])
            return 'same statement, %d public inputs' % ni
        return ('statement (%d,%d,%d)' % (nc, nv, ni), FL + 'prove, verify', f)
    def verdict(r, res, conds):
        t = 0
        if res is not None:
            ret = r.returned(res)
            for v, k, fs in res.alts:
                if v == 0:
                    t = poly.mul(ret, fs[0])
        if not eqc(t, product(conds)):
            raise Fail('verify is not true exactly when circuit and proof decode, the public inputs are canonical and the proof is accepted')
    tasks += [both(*s) for s in sizes]
    def canonical():
        n = 0
        for ni in (1, 2, 3):
            for bad in range(ni):
                raw = [unk('in%d' % i, 32) for i in range(ni)]
                r = Run(4, 4, ni)
                res = r.go('verify', r.circ, r.prf, tuple(b for x in raw for b in x))
                verdict(r, res, [flag('circuit decodes'), flag('proof decodes'), flag('accepted')] + [iomodel.core_of_bytes(x).f[1] for x in raw])
                for v in (P_SECP, 2**256 - 1):
                    raw[bad] = tuple(v.to_bytes(32, 'little'))
                    for fn in ('prove', 'verify'):
                        r = Run(4, 4, ni)
                        res = r.go(fn, r.circ, witness(vals('w', 3)) if fn == 'prove' else r.prf, tuple(b for x in raw for b in x))
                        if not eqc(r.returned(res), 0):
                            raise Fail('%s accepts public input %d above the modulus' % (fn, bad))
                n += 3
        return '%d cases' % n
    tasks.append(('canonical public inputs', FL + 'verify', canonical))
    def short():
        for fn in ('prove', 'verify'):
            for ni in (1, 2, 5):
                for n in sorted({0, 31, 32 * ni - 32, 32 * ni - 31, 32 * ni - 1}):
                    r = Run(4, 4, ni)
                    res = r.go(fn, r.circ, witness(vals('w', 3)) if fn == 'prove' else r.prf, enc(vals('x', ni))[:n])
                    if not eqc(r.returned(res), 0):
                        raise Fail('%s goes on with %d bytes of public inputs instead of %d' % (fn, n, 32 * ni))
        return 'too few bytes of public inputs are refused'
    tasks.append(('missing public inputs', FL + 'prove, verify', short))
    # ---- witness file
    def load(data):
        r = Run(4, 4, 0)
        res = r.go('prove', r.circ, data, ())
        cond = r.returned(res)
        return r, cond
    def wit(ver, n):
        def f():
            ws = [unk('wit%d' % i, 32) for i in range(n)]
            r, cond = load(witness(ws, version=ver))
            want = [flag('circuit decodes')] + [iomodel.core_of_bytes(x).f[1] for x in ws]
            if not eqc(cond, product(want)):
                raise Fail('prove does not succeed exactly for canonical witness values')
            if r.assignment(r.only('prove')[1]) != [iomodel.core_of_bytes(x).f[0].v for x in ws]:
                raise Fail('the witness handed to the proof system is not the values of the file in order')
            for i in range(n):
                for v in (P_SECP, P_SECP + 1, 2**256 - 1):
                    d = list(ws)
                    d[i] = tuple(v.to_bytes(32, 'little'))
                    if not eqc(load(witness(d))[1], 0):
                        raise Fail('witness value %d above the modulus is accepted' % i)
                for v in (0, 1, 255, 2**248, P_SECP - 1):
                    d = list(ws)
                    d[i] = tuple(v.to_bytes(32, 'little'))
                    r, cond = load(witness(d))
                    if eqc(cond, 0) or r.assignment(r.only('prove')[1])[i] != const(v).v:
                        raise Fail('witness value %d is not read as the little-endian number %d' % (i, v))
            return '%d unknown values' % n
        return ('witness version %d, %d values' % (ver, n), FL + 'load_witness_from_bin_reader', f)
    tasks += [wit(v, n) for v in (1, 2) for n in ((1, 3, 4) if quick else (1, 2, 3, 4, 6))]
    def bad(what, gen):
        def f():
            n = 0
            for w, d in gen():
                if not eqc(load(d)[1], 0):
                    raise Fail('a proof is made from a witness file with %s' % w)
                n += 1
            return '%d damaged files' % n
        return ('refused: ' + what, FL + 'load_witness_from_bin_reader', f)
    W = [7, 11, 13]
    mk = lambda **o: witness([tuple(w.to_bytes(32, 'little')) for w in W], **o)
    tasks.append(bad('magic', lambda: [('magic byte %d changed' % i, mk(magic=bytes(b ^ (1 << k) if i == j else b for j, b in enumerate(b'wtns')))) for i in range(4) for k in range(8)]))
    tasks.append(bad('version', lambda: [('version %d' % v, mk(version=v)) for v in (3, 4, 255, 256, 2**16, 2**31, 2**32 - 1)]))
    tasks.append(bad('sections', lambda: [('%d sections' % v, mk(n_sec=v)) for v in [0, 1, 3, 4] + [2 ^ (1 << k) for k in range(32)]]))
    tasks.append(bad('section types', lambda: [('types %d,%d' % t, mk(type1=t[0], type2=t[1])) for t in [(0, 2), (2, 2), (1, 1), (1, 3), (1, 0), (2, 1)] + [(1 ^ (1 << k), 2) for k in range(32)] + [(1, 2 ^ (1 << k)) for k in range(32)]]))
    tasks.append(bad('header size', lambda: [('header size %d' % v, mk(size1=v)) for v in [0, 8, 36, 39, 41, 44, 64] + [40 ^ (1 << k) for k in range(64)]]))
    tasks.append(bad('field size', lambda: [('field size %d' % v, mk(field_size=v, size1=s)) for v in (0, 1, 16, 24, 31, 33, 48, 64) for s in (40, 8 + v)]))
    tasks.append(bad('witness size', lambda: [('%d bytes for 3 values' % v, mk(size2=v)) for v in [0, 3, 32, 64, 95, 97, 128] + [96 ^ (1 << k) for k in range(64)]] + [('%d values in 96 bytes' % n, mk(n=n)) for n in (0, 1, 2, 4, 2**27, 2**27 + 3, 2**31, 2**32 - 1)]))
    tasks.append(bad('truncation', lambda: [('only %d bytes' % i, mk()[:i]) for i in range(len(mk()))]))
    pcheck.par(c, tasks)
    c.assumptions += ['bincode decodes the bytes it is given or fails; NIZK::prove and NIZK::verify are judged by P06-P14', 'the generated JavaScript bindings hand over the arguments of the exported functions', 'witness files of the listed lengths']
    return __doc__

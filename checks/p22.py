"""P22: the client's public inputs, witnesses and leaves encode the statement as the circuits expect."""
import os, vc, circom
import tsint
from tsint import *
from p21 import SRC, obj, wait, outcome, tpoint, upoint, xy, msg
from vc import Fail

def bs(name, n=32, tail=None, buf=False): return Bytes([('in', name, i) for i in range(n)], tail, buf)
def field(name): return Big(int_of(bs(name).b))
def get(w, spec, name):
    m = w.load(w.resolve(os.path.join(SRC, '_.ts'), spec))
    try: return w.export(m, name)
    except KeyError: raise Fail('%s does not export %s' % (spec, name))
def each(fn, good=1):
    """fn(w) on every path; a path on which a library call fails may end in an exception"""
    n = ok = 0
    def go(script):
        w = World(SRC, script, window=False)
        try: return w, ('value', wait(fn(w)))
        except Throw as t: return w, ('throw', msg(t.v))
    for w, (k, v) in explore(go):
        n += 1
        if k == 'throw':
            if not any(q[0] == 'throws' and ch == 1 or bound(q) for q, ch, _ in w.log): raise Fail('an exception is raised for well-formed input: %s' % v)
        else: ok += 1
    if ok < good: raise Fail('there is no path on which the call succeeds')
    return '%d paths' % n
def bound(k):
    """a decision that compares a value with a constant: the call may refuse values out of range"""
    return k[0] == 'sym' and k[1] in ('lt', 'eq') and any(all(m == () for m, _ in q) for q in k[2:])
def same(w, got, want, what):
    if not isinstance(got, Big): raise Fail('%s is %s, not an integer' % (what, type(got).__name__))
    a, b = canon(got.p), canon(want.p if isinstance(want, Big) else want)
    if a == b: return
    raise Fail('%s is %s instead of %s' % (what, show(a), show(b)))
def samebytes(got, b, tail, what):
    if not isinstance(got, Bytes): raise Fail('%s is not a byte array' % what)
    if list(got.b) == list(b) and got.tail == tail: return
    if got.n != len(b) or (got.tail is None) != (tail is None): raise Fail('%s has %d%s bytes instead of %d%s' % (what, got.n, '+' if got.tail else '', len(b), '+' if tail else ''))
    i = next((i for i in range(len(b)) if got.b[i] != b[i]), None)
    raise Fail('%s: %s' % (what, 'the final part differs' if i is None else 'byte %d is %s instead of %s' % (i, got.b[i], b[i])))

F5 = ('merkleRoot', 'Tx', 'Ty', 'Ux', 'Uy')
def cpi(w): return w.new(get(w, '@src/helpers/publicInputs', 'CircuitPubInput'), [field(n) for n in F5])
CB = [b for n in F5 for b in bs(n).b]
TAIL = ('in', 'msg')

def compute(v):
    def f():
        def go(w):
            fn = get(w, '@src/helpers/publicInputs', 'computeEffEcdsaPubInput')
            m = Bytes([], TAIL, True)
            r = field('r')
            o = w.call(fn, [r, Big(pc(v)), m])
            T, U = xy(tpoint(r.p, v == 28)), xy(upoint(r.p, int_of([], TAIL)))
            for k, e in zip(('Tx', 'Ty', 'Ux', 'Uy'), T + U): same(w, w.get(o, k), e, k)
            return o
        return each(go)
    return f
def circuit_ser():
    def go(w):
        o = cpi(w)
        samebytes(w.call(w.get(o, 'serialize'), [], o), CB, None, 'CircuitPubInput.serialize')
        samebytes(w.call(w.get(o, 'serialize'), [], o), CB, None, 'CircuitPubInput.serialize (second call)')
    return each(go)
def circuit_de():
    def go(w):
        C = get(w, '@src/helpers/publicInputs', 'CircuitPubInput')
        src = bs('ser', 160)
        o = w.call(w.get(C, 'deserialize'), [src], C)
        for i, n in enumerate(F5): same(w, w.get(o, n), int_of(src.b[32 * i:32 * i + 32]), 'field %s' % n)
        samebytes(w.call(w.get(o, 'serialize'), [], o), [('in', 'ser', i) for i in range(160)], None, 'serialize after deserialize')
        samebytes(src, [('in', 'ser', i) for i in range(160)], None, 'the argument of deserialize afterwards')
    return each(go)
def public(v, n, tail):
    """round trip of PublicInput with a message hash of n bytes (and more, if tail)"""
    m = lambda: bs('m', n, TAIL if tail else None, True)
    def make(w): return w.new(get(w, '@src/helpers/publicInputs', 'PublicInput'), [field('r'), Big(pc(v)), m(), cpi(w)])
    want = bs('r').b + [v] + CB + m().b
    def go(w):
        C = get(w, '@src/helpers/publicInputs', 'PublicInput')
        o = make(w)
        s = w.call(w.get(o, 'serialize'), [], o)
        samebytes(s, want, m().tail, 'PublicInput.serialize')
        d = w.call(w.get(C, 'deserialize'), [s], C)
        for x in (o, d):
            same(w, w.get(x, 'r'), field('r'), 'r'); same(w, w.get(x, 'rV'), pc(v), 'rV')
            samebytes(w.get(x, 'msgHash'), m().b, m().tail, 'msgHash')
            for k in F5: same(w, w.get(w.get(x, 'circuitPubInput'), k), field(k), k)
        samebytes(w.call(w.get(d, 'serialize'), [], d), want, m().tail, 'serialize after deserialize')
    return lambda: each(go)

SIG = Str([('text', 'sig')])
def merkle_proof(depth=20):
    return Obj({'root': field('root'), 'siblings': Arr([Arr([field('sib%d' % i)]) for i in range(depth)]), 'pathIndices': Arr([Num(pa('bit', 'p%d' % i)) for i in range(depth)])}, tag='proof')
def prove(w, args, mp):
    P = obj(w, '@src/core/prover', 'MembershipProver', [Obj(args)])
    return P, wait(w.call(w.get(P, 'prove'), [Obj({'sig': SIG, 'msgHash': Bytes([], TAIL, True), 'merkleProof': mp})], P))
def flat(v):
    return [y for x in v.xs for y in flat(x)] if isinstance(v, Arr) else [v]
def prover(v, args, remote, inputs, before=None):
    def go(w):
        w.v = v
        if before: prove(w, before, merkle_proof())          # a prover of another circuit, in the same process
        mark = len(w.events)
        mp = merkle_proof()
        P, r = prove(w, args, mp)
        ev = {k: [e[1:] for e in w.events[mark:] if e[0] == k] for k in ('wtns', 'prove')}
        if len(ev['wtns']) != 1 or len(ev['prove']) != 1: raise Fail('the witness generator and the prover are not called once each')
        (inp, wasm), = ev['wtns']
        if wasm != args['witnessGenWasm']: raise Fail('the witness is not computed with the configured program')
        r_, s_ = int_of(bs('r').b), int_of(bs('s').b)
        T, U = xy(tpoint(r_, v == 28)), xy(upoint(r_, int_of([], TAIL)))
        root = field('root').p
        want = {'s': [s_], 'root': [root], 'Tx': [T[0]], 'Ty': [T[1]], 'Ux': [U[0]], 'Uy': [U[1]],
                'siblings': [field('sib%d' % i).p for i in range(20)], 'pathIndices': [pa('bit', 'p%d' % i) for i in range(20)]}
        got = dict(w_entries(inp))
        for k in inputs:
            if k not in want: raise Fail('the circuit has an input %s this analysis knows nothing about' % k)
            if k not in got: raise Fail('the circuit input %s gets no value' % k)
            x = [q.p if isinstance(q, (Big, Num)) else None for q in flat(got[k])]
            if [None if q is None else canon(q) for q in x] != [canon(q) for q in want[k]]:
                raise Fail('the circuit input %s gets %s instead of %s' % (k, [show(q) if q is not None else '?' for q in x][:3], [show(q) for q in want[k]][:3]))
        for k in got:
            if k not in inputs: raise Fail('a value is given for %s, which is no input of the circuit' % k)
        (k,), = ev['prove']
        pub = [b for x in (root,) + T + U for b in be(x, 32)]
        wantp = (((), ('remote' if remote else 'file', args['circuit'])), ((), ('witness',)), (tuple(pub), None))
        for i, what in enumerate(('circuit', 'witness', 'public input')):
            if len(k) != 3 or k[i] != wantp[i]: raise Fail('argument %d of the prover is not the %s' % (i, what))
        samebytes(w.get(r, 'proof'), [], ('proof', k), 'the proof returned')
        po = w.get(r, 'publicInput')
        s = w.call(w.get(po, 'serialize'), [], po)
        samebytes(s, bs('r').b + [v] + pub, TAIL, 'the public input returned')
        return r
    return lambda: each(go)
def w_entries(o):
    if not isinstance(o, Obj): raise Fail('the witness generator gets no object')
    return o.props.items()
def roundtrip(v):
    """what prove returns is accepted by verify exactly when the proof system accepts it"""
    def go(w):
        w.v = v
        P, r = prove(w, {'circuit': 'C', 'witnessGenWasm': 'W'}, merkle_proof())
        k, = [e[1] for e in w.events if e[0] == 'prove']
        V = obj(w, '@src/core/verifier', 'MembershipVerifier', [Obj({'circuit': 'C'})])
        po = w.get(r, 'publicInput')
        a = Obj({'proof': w.get(r, 'proof'), 'publicInputSer': w.call(w.get(po, 'serialize'), [], po)})
        n = len(w.log)
        res = wait(w.call(w.get(V, 'verify'), [a], V))
        if isinstance(res, Sym): res = w.truthy(res)
        key = ('sym', 'wasm.verify', (k[0], ((), ('proof', k)), k[2]))
        if any(q[0] == 'throws' and ch == 1 for q, ch, _ in w.log): return
        if key not in w.memo: raise Fail('the proof system is not asked about the proof that was made')
        if res is not (w.memo[key] == 0): raise Fail('verify answers %r when the proof system answers %r' % (res, w.memo[key] == 0))
        if [q for q, ch, _ in w.log if q[0] == 'sym' and q != key and not bound(q)]: raise Fail('the answer depends on the values')
    return lambda: each(go)

def le(p): return be(p, 32)[::-1]
def result_of(k): return int_of([('in', ('poseidon', k), i) for i in range(32)][::-1])
def poseidon(n):
    def go(w):
        o = obj(w, '@src/helpers/poseidon', 'Poseidon', [])
        xs = [field('x%d' % i) for i in range(n)]
        r = w.call(w.get(o, 'hash'), [Arr(xs)], o)
        ev = [e[1] for e in w.events if e[0] == 'poseidon']
        want = (tuple(b for x in xs for b in le(x.p)), None)
        if ev != [want]: raise Fail('the hash function does not get its inputs as 32-byte little-endian field elements')
        same(w, r, result_of(want), 'the hash of %d inputs' % n)
    return lambda: each(go)
def pubkey():
    def go(w):
        o = obj(w, '@src/helpers/poseidon', 'Poseidon', [])
        k = bs('key', 64, None, True)
        r = w.call(w.get(o, 'hashPubKey'), [k], o)
        x, y = int_of(k.b[:32]), int_of(k.b[32:])
        same(w, r, result_of((tuple(le(x) + le(y)), None)), 'the hash of a public key')
    return each(go)
def tree():
    for depth, idx in [(7, 5), (1, 0), (7, 0), (7, 127), (20, 255), (20, 256), (20, 65535), (20, 65536), (20, 2**20 - 1), (32, 2**31), (32, 2**32 - 1)]:
        one_tree(depth, idx)
def one_tree(depth, idx):
    def go(w):
        p = obj(w, '@src/helpers/poseidon', 'Poseidon', [])
        t = obj(w, '@src/helpers/tree', 'Tree', [depth, p])
        a = [e[1] for e in w.events if e[0] == 'imt']
        if len(a) != 1: raise Fail('the tree is not built once')
        a, = a
        if a[1] != depth: raise Fail('the depth of the tree is not the one asked for')
        z = a[2]
        if not (isinstance(z, Big) and z.p == {} or z == 0 and isinstance(z, int)): raise Fail('empty leaves are not 0')
        if len(a) > 3 and a[3] is not UNDEF and a[3] != 2: raise Fail('the tree is not binary')
        if len(a) > 4: raise Fail('the tree does not start empty')
        l, r = field('l'), field('rr')
        same(w, w.call(a[0], [Arr([l, r])]), result_of((tuple(le(l.p) + le(r.p)), None)), 'the hash of an inner node')
        leaf = field('leaf')
        def calls(n):
            e = [x for x in w.events if x[0] == n]; return [x[2] for x in e]
        w.call(w.get(t, 'insert'), [leaf], t)
        if calls('insert') != [[leaf]]: raise Fail('insert does not insert the leaf')
        w.call(w.get(t, 'delete'), [idx], t)
        if calls('delete') != [[idx]]: raise Fail('delete does not remove the leaf')
        i = w.call(w.get(t, 'indexOf'), [leaf], t)
        if calls('indexOf') != [[leaf]] or not isinstance(i, Opaque) or i.t != ('indexOf',): raise Fail('indexOf does not look the leaf up')
        q = w.call(w.get(t, 'createProof'), [idx], t)
        if calls('createProof') != [[idx]]: raise Fail('createProof does not make the proof of the index')
        for k in ('root', 'siblings', 'pathIndices'):
            x = w.get(q, k)
            if not isinstance(x, Opaque) or x.t != ('proof', k): raise Fail('createProof returns something else as %s' % k)
        for k in ('root', 'leaves'):
            x = w.call(w.get(t, k), [], t)
            if not isinstance(x, Opaque) or x.t != ('imt', k): raise Fail('%s does not return the %s of the tree' % (k, k))
        mp = Obj({k: Opaque('mine', k) for k in ('root', 'siblings', 'pathIndices')}, tag='proof')
        v = w.call(w.get(t, 'verifyProof'), [mp, leaf], t)
        if not isinstance(v, Sym) or v.t != ('verifyProof', 'imt'): raise Fail('verifyProof does not return the answer of the tree')
        (pr,), = calls('verifyProof')
        for k in ('root', 'siblings', 'pathIndices'):
            if w.get(pr, k) is not mp.props[k]: raise Fail('verifyProof checks another %s' % k)
        if w.get(pr, 'leaf') is not leaf: raise Fail('verifyProof checks another leaf')
    return each(go)
def init(spec, name):
    def f():
        def go(w):
            if name is None: wait(w.call(get(w, spec, 'init'), []))
            else:
                o = obj(w, spec, name, [Obj({'circuit': 'C', 'witnessGenWasm': 'W'})])
                wait(w.call(w.get(o, 'initWasm'), [], o))
            e = [x for x in w.events if x[0] == 'initSync']
            if len(e) != 1 or not isinstance(e[0][1], Bytes) or e[0][1].tail != ('wasmBytes',): raise Fail('the WebAssembly module is not set up from the embedded bytes')
        return each(go)
    return f
def exports():
    def go(w):
        m = w.load(w.resolve(os.path.join(SRC, '_.ts'), '@src/index'))
        def ex(n):
            try: return w.export(m, n)
            except KeyError: raise Fail('the package does not export %s' % n)
        for n, spec, o in (('MembershipProver', '@src/core/prover', None), ('MembershipVerifier', '@src/core/verifier', None), ('CircuitPubInput', '@src/helpers/publicInputs', None),
                           ('PublicInput', '@src/helpers/publicInputs', None), ('computeEffEcdsaPubInput', '@src/helpers/publicInputs', None), ('verifyEffEcdsaPubInput', '@src/helpers/publicInputs', None),
                           ('Tree', '@src/helpers/tree', None), ('Poseidon', '@src/helpers/poseidon', None)):
            if ex(n) is not get(w, spec, o or n): raise Fail('the package exports something else as %s' % n)
        urls = {}
        for k in ('Pubkey', 'Address'):
            p, v = ex('default%sMembershipPConfig' % k), ex('default%sMembershipVConfig' % k)
            if w.get(p, 'circuit') != w.get(v, 'circuit'): raise Fail('default prover and verifier use different circuits (%s)' % k)
            f = {'Pubkey': 'pubkey_membership', 'Address': 'addr_membership'}[k]
            for o, key, suf in ((p, 'circuit', '.circuit'), (p, 'witnessGenWasm', '.wasm'), (v, 'circuit', '.circuit')):
                u = w.get(o, key)
                if not isinstance(u, str) or not u.endswith('/' + f + suf): raise Fail('the default %s of %s membership is %s' % (key, k, u))
    return each(go)

def run(c):
    H = 'packages/lib/src/helpers/'
    for v in (27, 28): c.ob('compute/v%d' % v, H + 'publicInputs.ts computeEffEcdsaPubInput', compute(v))
    c.ob('CircuitPubInput/serialize', H + 'publicInputs.ts CircuitPubInput.serialize', circuit_ser)
    c.ob('CircuitPubInput/deserialize', H + 'publicInputs.ts CircuitPubInput.deserialize', circuit_de)
    for v in (27, 28, 0, 255):
        c.ob('PublicInput/v%d' % v, H + 'publicInputs.ts PublicInput', public(v, 0, True))
    for n in ((0, 1, 31, 32, 33, 64) if c.tier == 'quick' else range(0, 130)):
        c.ob('PublicInput/hash%d' % n, H + 'publicInputs.ts PublicInput', public(28, n, False))
    PW = 'packages/lib/src/core/prover.ts MembershipProver.prove'
    import p20, p21
    for inst in ('pubkey_membership', 'addr_membership'):
        inputs = None
        try: inputs = p20_inputs(inst)
        except Exception as e: c.fail('inputs/' + inst, 'packages/circuits/instances/%s.circom' % inst, 'the inputs of the circuit cannot be listed: %s' % e); continue
        for v in (27, 28):
            for n, a, remote in (('local', {}, False), ('remote', {'useRemoteCircuit': True}, True), ('profiler', {'enableProfiler': True}, False)):
                c.ob('prove/%s/%s/v%d' % (inst, n, v), PW, prover(v, dict({'circuit': 'C', 'witnessGenWasm': 'W'}, **a), remote, inputs))
        for n, a, remote in (('local', {}, False), ('remote', {'useRemoteCircuit': True}, True)):
            for k, (x, y) in enumerate(p21.OTHER):
                A, B = [dict({'circuit': z, 'witnessGenWasm': z.replace('circuit', 'wasm')}, **a) for z in (x, y)]
                c.ob('prove/%s/%s/after-another/%d' % (inst, n, k), PW, prover(27, B, remote, inputs, A))
    for v in (27, 28): c.ob('roundtrip/v%d' % v, PW + ', MembershipVerifier.verify', roundtrip(v))
    for n in ((1, 2, 3) if c.tier == 'quick' else range(1, 9)): c.ob('poseidon/%d' % n, H + 'poseidon.ts Poseidon.hash', poseidon(n))
    c.ob('poseidon/pubkey', H + 'poseidon.ts Poseidon.hashPubKey', pubkey)
    c.ob('tree', H + 'tree.ts Tree', tree)
    c.ob('init/module', 'packages/lib/src/wasm/index.ts init', init('@src/wasm', None))
    for s, n in (('@src/helpers/poseidon', 'Poseidon'), ('@src/core/prover', 'MembershipProver'), ('@src/core/verifier', 'MembershipVerifier')):
        c.ob('init/' + n, 'packages/lib/src/ %s.initWasm' % n, init(s, n))
    import tsglue
    for n in ('prove', 'poseidon'):
        c.ob('glue/' + n, 'packages/lib/src/wasm/wasm.js ' + n, (lambda n: lambda: tsglue.check_bytes(c, SRC, n))(n))
    c.ob('exports', 'packages/lib/src/index.ts', exports)
    c.assumptions += ['elliptic, bn.js, snarkjs, @ethereumjs/util, @zk-kit/incremental-merkle-tree, Buffer and fs/fetch behave as documented (models in lib/tslib.py)',
                      'integers given to the client are non-negative and below 2^256']
    return 'abstract interpretation of the TypeScript client over symbolic bytes, integers and points, compared with the encoding the circuits and the statement fix'
def p20_inputs(inst):
    from p20 import instance
    e, pub, I = instance('%s.circom' % inst, None)
    return sorted(n for n, (k, _) in I.names.items() if k == 'input')

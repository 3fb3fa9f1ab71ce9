"""P19: the address circuit computes Keccak-256 of the public key."""
import circom, circbits
from circaddr import World, lib
from vc import Fail
DIR = 'eff_ecdsa_membership/'

def hashlike(I, memo):
    """does the component contain the hash function (and not the signature)?"""
    k = id(I)
    if k not in memo: memo[k] = I.name == 'Keccakf' or any([hashlike(x.inst, memo) for x in I.comps])
    return memo[k]

def run(c):
    W = World()
    def ref():
        # one-block test vectors of Keccak-256: the empty string and "abc"
        for m, h in ((b'', 'c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470'), (b'abc', '4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45')):
            if circbits.keccak_int(m).hex() != h: raise Fail('the reference is wrong')
        return 'specification evaluated on two published vectors'
    if not c.ob('reference', 'lib/circbits.py', ref): return ''
    memo = {}
    def root(I):
        W.address()
        def answer(i, name, ins):
            if i.name == 'EfficientECDSA': return W.ecdsa(i, name, ins)
            if i.name == 'Num2Bits' and lib(i): return W.num2bits(i, name, ins)
            k = (i.file, i.name, repr(i.args), repr(ins))
            if k not in memo: memo[k] = W.evaluate(i, ins)
            return memo[k]
        hm = {}
        out, n = circbits.run(W.B, I, [W.sym(I.sigs[x]) for x in I.ids('input')],
                              lambda i: i.name == 'EfficientECDSA' or lib(i) and i.name == 'Num2Bits' or i.name == 'PubkeyToAddress' and hashlike(i, hm), answer)
        return out, n
    def digest():
        W.address()
        I = circom.elab(DIR + 'eff_ecdsa_to_addr.circom').inst('Keccak', [512, 256])
        ins = [W.B.boolv(x) for x in W.message()]
        out = W.plain(I, ins)
        W.hashes[I.file, repr(I.args), repr(ins)] = out
        bad = [i for i in range(256) if W.B.collapse(out[i], 'bit %d' % i, True) != W.B.boolv(W.digest[i])]
        if len(out) != 256 or bad: raise Fail('%d bits of the digest differ, first bit %d' % (len(bad), bad[0] if bad else 256))
        return '%d assignments' % sum(W.ran)
    c.ob('Keccak', 'packages/circuits/eff_ecdsa_membership/to_address/vocdoni-keccak/keccak.circom Keccak', digest)
    def addr():
        I = circom.elab(DIR + 'eff_ecdsa_to_addr.circom').inst('EfficientECDSAToAddr', [])
        out, n = root(I)
        if len(out) != 1: raise Fail('%d outputs' % len(out))
        compare(W, out[0], 'the address')
        return '%d assignments around the hash, %d in it' % (n, sum(W.ran))
    c.ob('EfficientECDSAToAddr', 'packages/circuits/eff_ecdsa_membership/eff_ecdsa_to_addr.circom EfficientECDSAToAddr', addr)
    def member():
        I = circom.elab(DIR + 'addr_membership.circom').inst('AddrMembership', [1])
        def answer(i, name, ins):
            if i.name == 'EfficientECDSA': return W.ecdsa(i, name, ins)
            if i.name == 'Num2Bits' and lib(i): return W.num2bits(i, name, ins)
            k = (i.file, i.name, repr(i.args), repr(ins))
            if i.name == 'PubkeyToAddress':
                if k not in memo: memo[k] = W.evaluate(i, ins)
                return memo[k]
            return [{}]
        hm = {}
        import circalg
        lab, ops, inp, out, opq = circalg.flatten(I, lambda i: i.name in ('EfficientECDSA', 'PubkeyToAddress', 'Poseidon') or lib(i))
        tg = [q for q in opq if q[0].name == 'PubkeyToAddress']
        if len(tg) != 1: raise Fail('%d address components' % len(tg))
        J = only(I, lab, ops, inp, opq, tg[0])
        vals = J(W, answer)
        compare(W, vals[0], 'the address')
        return "%d hash evaluations" % len(memo)
    c.ob('AddrMembership', 'packages/circuits/eff_ecdsa_membership/addr_membership.circom AddrMembership', member)
    c.count('assignments', sum(W.ran)); c.count('cut_points', len(W.B.cut)); c.count('nodes', len(W.B.sets))
    c.assumptions += ['the decomposition of the coordinates is the canonical one (P17)', 'circomlib templates are those of version 2.0.5']
    return ('evaluation of every constraint assignment between the public key and the address in a domain of algebraic normal forms over GF(2), with the '
            'bits of each round of the reference as cut points; reference computed from the definition (rotation walk, LFSR round constants, padding 0x01...0x80, rate 1088)')

def only(I, lab, ops, inp, opq, target):
    def f(W, answer):
        val = {g: W.sym(lab[g]) for g in inp}
        prod = {o[1]: o for o in ops if o[0] in ('def', 'hint')}
        for q in opq:
            for g in q[3]: prod[g] = q
        def need(g, depth=0):
            if g in val: return val[g]
            o = prod.get(g)
            if o is None or o[0] == 'hint': raise Fail('%s is not determined by an assignment' % lab[g])
            if o[0] == 'def':
                for m in o[2]:
                    for x in m: need(x)
                val[g] = W.B.ev(o[2], val, lab[g])
            else:
                for y, v in zip(o[3], answer(o[0], o[1], [need(x) for x in o[2]])): val[y] = v
            return val[g]
        return [need(g) for g in target[3]]
    return f
def compare(W, got, what):
    want = W.address()
    if got == want: return
    for m in sorted(set(got) | set(want)):
        if got.get(m) != want.get(m):
            names = sorted('.'.join(sorted(x)) for n in m for x in W.B.sets[n])[:3]
            raise Fail('%s: coefficient of %s is %s instead of %s' % (what, names or 'the constant', got.get(m, 0), want.get(m, 0)))

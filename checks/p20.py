"""P20: membership circuits bind leaf, path and public statement."""
import circom, circaddr
from circalg import Ring, flatten
from circaddr import lib
from circom import P
from vc import Fail
DIR = 'instances/'
PUBLIC = ['root', 'Tx', 'Ty', 'Ux', 'Uy']
LEVELS = 20

class Path:
    """constraint systems over field symbols, 0/1 symbols and uninterpreted Poseidon applications"""
    def __init__(self, I, opaque, answer):
        self.I, self.R = I, Ring()
        self.L, self.ops, self.inp, self.out, self.opq = flatten(I, opaque)
        self.answer, self.h, self.name = answer, {}, {}
    def poseidon(self, a, b):
        k = (tuple(sorted(a.items())), tuple(sorted(b.items())))
        if k not in self.h: self.h[k] = 'H%d' % len(self.h)
        return self.R.var(self.h[k])
    def ev(self, p):
        R, r = self.R, {}
        for m, c in p.items():
            t = R.const(c)
            for x in m: t = R.mul(t, self.val[x])
            r = R.add(r, t)
            if len(r) > 400: raise Fail('expression too large')
        return r
    def solve(self):
        self.val = {g: self.R.var(self.L[g]) for g in self.inp}
        nodes = [('op', o) for o in self.ops] + [('opq', o) for o in self.opq]
        cons = []
        # 0/1 inputs first: constraints that mention one input only
        while nodes:
            left, did = [], False
            for k, o in nodes:
                if k == 'op' and o[0] == 'hint': raise Fail('%s is assigned without being constrained' % self.L[o[1]])
                ins = o[2] if k == 'opq' else {x for m in (o[2] if o[0] == 'def' else o[1]) for x in m}
                if any(x not in self.val for x in ins): left.append((k, o)); continue
                did = True
                if k == 'opq':
                    for g, v in zip(o[3], self.answer(self, o[0], o[1], [self.val[x] for x in o[2]])): self.val[g] = v
                elif o[0] == 'def': self.val[o[1]] = self.ev(o[2])
                else: cons.append((self.ev(o[1]), o[2]))
            nodes = left
            if not did: raise Fail('signals are never assigned: %s' % ', '.join(sorted({o[1] if k == 'opq' else self.L[o[1]] if o[0] == 'def' else 'constraint' for k, o in nodes})[:4]))
        return cons

def booleans(I, opaque, answer):
    """inputs that a constraint restricts to 0 and 1"""
    X = Path(I, opaque, answer)
    r = set()
    for p, w in X.solve():
        vs = {v for m in p for v, e in m}
        if len(vs) == 1:
            v, = vs
            if {m: c for m, c in p.items()} in [{((v, 1),): c, ((v, 2),): -c % P} for c in p.values()]: r.add(v)
    return r

def instance(file, main):
    e = circom.elab(DIR + file)
    if e.main is None: raise Fail('no main component')
    pub, (_, name, args) = e.main[0], e.main[1][:3]
    I = e.inst(name, [circom.Frame(e, None, file, {}).const(x) for x in args])
    return e, pub, I

def run(c):
    W = circaddr.World()
    def opaque(i): return i.name in ('EfficientECDSA', 'Poseidon', 'PubkeyToAddress') or lib(i) and i.name == 'Num2Bits'
    def answer(X, i, name, ins):
        m = {i.sigs[x]: v for x, v in zip(i.ids('input'), ins)}
        if i.name == 'EfficientECDSA':
            for n in ('s', 'Tx', 'Ty', 'Ux', 'Uy'):
                if m.get(n) != X.R.var(n): raise Fail('%s: input %s is not the input %s of the circuit' % (name, n, n))
            if [i.sigs[x] for x in i.ids('output')] != ['pubKeyX', 'pubKeyY']: raise Fail('%s has other outputs than the public key' % name)
            return [X.R.var('PX'), X.R.var('PY')]
        if i.name == 'Poseidon':
            if len(ins) != 2: raise Fail('%s has %d inputs' % (name, len(ins)))
            return [X.poseidon(*ins)]
        if i.name == 'Num2Bits':
            for n in ('PX', 'PY'):
                if ins[0] == X.R.var(n) and i.args[0] >= 256: return [X.R.var('%s.%d' % (n, k)) for k in range(256)] + [{}] * (i.args[0] - 256)
            return [X.R.var('bits of %r.%d' % (sorted(ins[0].items()), k)) for k in range(i.args[0])]
        if len(ins) == 512 and ins == [X.R.var('PY.%d' % k) for k in range(256)] + [X.R.var('PX.%d' % k) for k in range(256)]: return [X.R.var('ADDR')]
        return [X.R.var('ADDR')] if nonstandard(i, ins, X) else [X.R.var('hash of something else')]
    def nonstandard(i, ins, X):
        """another bit order: evaluate the hash bit by bit"""
        v = []
        for x in ins:
            if len(x) == 1 and list(x.values()) == [1]:
                (m,) = x
                if len(m) == 1 and m[0][1] == 1 and m[0][0][:2] in ('PX', 'PY') and '.' in m[0][0]:
                    v.append(W.bits[m[0][0][:2]][int(m[0][0].split('.')[1])]); continue
            return False
        W.address()
        return W.evaluate(i, v) == [W.address()]
    def check(file, leafof, expect):
        def sysm():
            e, pub, I = instance(file, None)
            if I.name != expect: raise Fail('main is %s' % I.name)
            ins = [I.sigs[x] for x in I.ids('input')]
            bo = booleans(I, opaque, answer)
            want = {'pathIndices[%d]' % k for k in range(LEVELS)}
            if not want <= bo: raise Fail('not restricted to 0 and 1: %s' % ', '.join(sorted(want - bo)))
            if bo - want: raise Fail('restricted to 0 and 1: %s' % ', '.join(sorted(bo - want)))
            X = Path(I, opaque, answer)
            for v in bo: X.R.sq[v] = X.R.var(v)
            cons = [(p, w) for p, w in X.solve() if p]
            R = X.R
            h = leafof(X)
            for k in range(LEVELS):
                s, b = R.var('pathIndices[%d]' % k), R.var('siblings[%d]' % k)
                d = R.mul(s, R.add(b, h, -1))
                h = X.poseidon(R.add(h, d), R.add(b, d, -1))
            goal = R.add(R.var('root'), h, -1)
            neg = {m: -x % P for m, x in goal.items()}
            hits = [1 for p, w in cons if p in (goal, neg)]
            if not hits: raise Fail('no constraint equates the public root with the Merkle root of the leaf and the path')
            rest = [w[0].name for p, w in cons if p not in (goal, neg)]
            if rest: raise Fail('a further constraint in %s restricts the inputs' % rest[0])
            return '%d levels, %d assignments' % (LEVELS, len(X.ops))
        w = 'packages/circuits/instances/%s' % file
        c.ob(expect + '/path', w, sysm)
        def public():
            e, pub, I = instance(file, None)
            ins = [I.sigs[x] for x in I.ids('input')]
            if sorted(pub) != sorted(PUBLIC): raise Fail('public signals are %s' % ', '.join(pub))
            if [n for n in ins if n in pub] != PUBLIC: raise Fail('public signals are laid out as %s' % ', '.join(n for n in ins if n in pub))
            if I.ids('output'): raise Fail('the circuit has outputs (they precede the public inputs)')
            exp = ['s'] + PUBLIC + ['%s[%d]' % (n, k) for n in ('pathIndices', 'siblings') for k in range(LEVELS)]
            if sorted(ins) != sorted(exp): raise Fail('the inputs differ from the documented ones: %s' % ', '.join(sorted(set(ins) ^ set(exp))[:6]))
            return ', '.join(PUBLIC)
        c.ob(expect + '/public', w, public)
    check('pubkey_membership.circom', lambda X: X.poseidon(X.R.var('PX'), X.R.var('PY')), 'PubKeyMembership')
    check('addr_membership.circom', lambda X: X.R.var('ADDR'), 'AddrMembership')
    c.assumptions += ['EfficientECDSA recovers the public key (P18), PubkeyToAddress hashes it (P19), Poseidon is the specified permutation (P05)', 'circom lays out public inputs in declaration order']
    return ('evaluation of all assignments and constraints of both circuit instances as polynomials over the inputs, 0/1 path selectors and uninterpreted hash applications; '
            'the constraint set must be the selector constraints and the equation of the public root with the reference path')

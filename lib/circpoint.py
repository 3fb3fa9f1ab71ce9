"""Circuits over curve points: a pair of coordinates stands for an element of the group generated by the input points, its
coefficients being multilinear integer polynomials in the 0/1 signals; each point template acts as the group law its own
analysis establishes, with its side conditions checked at every use."""
from itertools import product
from circom import P
from circalg import flatten
from vc import Fail
Q = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
TQ = (Q - (1 << 256)) % Q

def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + k * c
        if x: r[m] = x
        else: r.pop(m, None)
    return r
def pmul(a, b):                          # multilinear: 0/1 variables are idempotent
    r = {}
    for m, c in a.items():
        for n, d in b.items(): r[m | n] = r.get(m | n, 0) + c * d
    return {m: c for m, c in r.items() if c}
def never_zero(f, what):
    """the integer polynomial is no multiple of Q for any values of its variables"""
    vs = sorted({v for m in f for v in m})
    if any(isinstance(v, str) and v.startswith('s:') for v in vs): raise Fail('%s: a multiple by an arbitrary scalar may be the point at infinity' % what)
    if len(vs) <= 10:
        for a in product((0, 1), repeat=len(vs)):
            on = {v for v, x in zip(vs, a) if x}
            if sum(c for m, c in f.items() if m <= on) % Q == 0: raise Fail('%s for %s' % (what, dict(zip(vs, a))))
        return 1 << len(vs)
    lo = sum(min(0, c) if m else c for m, c in f.items()); hi = sum(max(0, c) if m else c for m, c in f.items())
    if -(-lo // Q) <= hi // Q: raise Fail('%s: the multiple ranges over [%#x, %#x]' % (what, lo, hi))
    return 1

POINT = {'Secp256k1AddIncomplete': ['xP', 'yP', 'xQ', 'yQ'], 'Secp256k1AddComplete': ['xP', 'yP', 'xQ', 'yQ'], 'Secp256k1Double': ['xP', 'yP'],
         'Secp256k1Mul': ['scalar', 'xP', 'yP'], 'K': ['s']}

class Points:
    """inputs: {input label: ('scalar', name) | ('x', point) | ('y', point)}"""
    def __init__(self, I, inputs, opaque=POINT):
        self.I = I
        self.L, self.ops, self.inp, self.out, self.opq = flatten(I, lambda i: i.name in opaque and 'circomlib' not in i.file and i is not I)
        self.pts, self.val, self.obl, self.uses = [], {}, 0, 0
        self.gens = {}
        for i in self.inp:
            k, n = inputs[self.L[i]]
            if k == 'scalar': self.val[i] = {('s:' + n,): 1}
            else:
                if n not in self.gens: self.gens[n] = self.point({n: {frozenset(): 1}})
                self.val[i] = {((k.upper(), self.gens[n]),): 1}
    def point(self, e): self.pts.append(e); return len(self.pts) - 1
    def mulv(self, a, b):
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = list(m) + [v for v in n if not (isinstance(v, str) and v.startswith('b:') and v in m)]
                k = tuple(sorted(k, key=str)); r[k] = (r.get(k, 0) + c * d) % P
        return {m: c for m, c in r.items() if c}
    def ev(self, p):
        r = {}
        for m, c in p.items():
            t = {(): c}
            for x in m: t = self.mulv(t, self.val[x])
            if len(t) > 4096: raise Fail('expression too large')
            for k, d in t.items():
                v = (r.get(k, 0) + d) % P
                if v: r[k] = v
                else: r.pop(k, None)
        return r
    def ispoint(self, x, y, what):
        """the group element with these coordinates"""
        bs = sorted({v for p in (x, y) for m in p for v in m if isinstance(v, str)})
        if any(b[:2] != 'b:' for b in bs) or len(bs) > 8: raise Fail('%s: the coordinates are not those of a point' % what)
        el = {}
        for a in product((0, 1), repeat=len(bs)):
            on = dict(zip(bs, a))
            def at(p):
                r = {}
                for m, c in p.items():
                    if all(on[v] for v in m if isinstance(v, str)):
                        k = tuple(v for v in m if not isinstance(v, str)); r[k] = (r.get(k, 0) + c) % P
                return {k: c for k, c in r.items() if c}
            X, Y = at(x), at(y)
            if not X and not Y: continue
            if len(X) != 1 or len(Y) != 1: raise Fail('%s: the coordinates are not those of a point' % what)
            (kx, cx), (ky, cy) = *X.items(), *Y.items()
            if len(kx) != 1 or len(ky) != 1 or kx[0][0] != 'X' or ky[0][0] != 'Y' or kx[0][1] != ky[0][1] or cx != 1 or cy not in (1, P - 1):
                raise Fail('%s: the coordinates are not those of a point' % what)
            s = 1 if cy == 1 else -1
            sel = {frozenset(): s}
            for b, v in on.items(): sel = pmul(sel, {frozenset([b]): 1} if v else {frozenset(): 1, frozenset([b]): -1})
            for g, f in self.pts[kx[0][1]].items():
                el[g] = padd(el.get(g, {}), pmul(sel, f))
        return {g: f for g, f in el.items() if f}
    def nz(self, e, what):
        if len(e) > 1: raise Fail('%s: a sum of independent points may be the point at infinity' % what)
        self.obl += never_zero(next(iter(e.values())), what) if e else self.bad(what)
    def bad(self, what): raise Fail(what)
    def run(self):
        nodes = [('op', o) for o in self.ops] + [('opq', o) for o in self.opq]
        while nodes:
            left, did = [], False
            for k, o in nodes:
                if k == 'op':
                    if o[0] == 'hint': raise Fail('%s is assigned without a constraint in %s' % (self.L[o[1]], o[3][0].name))
                    p = o[2] if o[0] == 'def' else o[1]
                    if any(x not in self.val for m in p for x in m): left.append((k, o)); continue
                    v = self.ev(p)
                    if o[0] == 'def': self.val[o[1]] = v
                    elif v: raise Fail('a constraint of %s does not hold for all inputs' % o[2][0].name)
                else:
                    if any(x not in self.val for x in o[2]): left.append((k, o)); continue
                    self.component(*o)
                did = True
            nodes = left
            if not did: raise Fail('signals are never assigned: %s' % ', '.join(sorted({o[1] if k == 'opq' else self.L[o[1]] if o[0] == 'def' else 'constraint' for k, o in nodes})[:4]))
        if len(self.out) != 2: raise Fail('%d outputs instead of the two coordinates' % len(self.out))
        return self.ispoint(self.val[self.out[0]], self.val[self.out[1]], 'the output')
    def component(self, inst, name, ins, outs):
        self.uses += 1
        names = POINT[inst.name]
        m = {inst.sigs[i]: self.val[g] for i, g in zip(inst.ids('input'), ins)}
        if set(m) != set(names): raise Fail('%s has inputs %s' % (inst.name, ', '.join(m)))
        if inst.name == 'K':
            if m['s'] != {('s:scalar',): 1}: raise Fail('%s: the recoded value is not the scalar' % name)
            for i, g in enumerate(outs): self.val[g] = {('b:%d' % i,): 1}
            return
        a = self.ispoint(m['xP'], m['yP'], name)
        if inst.name == 'Secp256k1Mul':
            s = m['scalar']
            if len(s) != 1 or any(c != 1 or len(k) != 1 or k[0][:2] != 's:' for k, c in s.items()): raise Fail('%s: the multiplier is not a scalar input' % name)
            k = frozenset(next(iter(s)))
            if len(a) != 1 or next(iter(a.values())) not in ({frozenset(): 1}, {frozenset(): -1}): raise Fail('%s: multiplication of a point that may be the point at infinity' % name)
            r = {g: pmul(f, {k: 1}) for g, f in a.items()}
        elif inst.name == 'Secp256k1Double':
            self.nz(a, '%s: doubling of the point at infinity' % name)
            r = {g: {m: 2 * c for m, c in f.items()} for g, f in a.items()}
        else:
            b = self.ispoint(m['xQ'], m['yQ'], name)
            def comb(k):
                r = dict(a)
                for g, f in b.items():
                    r[g] = padd(r.get(g, {}), f, k)
                return {g: f for g, f in r.items() if f}
            r = comb(1)
            if inst.name == 'Secp256k1AddIncomplete':
                self.nz(a, '%s: the first operand of an incomplete addition is the point at infinity' % name)
                self.nz(b, '%s: the second operand of an incomplete addition is the point at infinity' % name)
                self.nz(comb(-1), '%s: incomplete addition of equal points' % name)
                self.nz(r, '%s: incomplete addition of inverse points' % name)
        p = self.point(r)
        for nm, g in zip([inst.sigs[i] for i in inst.ids('output')], outs):
            if nm not in ('outX', 'outY'): raise Fail('%s has output %s' % (inst.name, nm))
            self.val[g] = {(('X' if nm == 'outX' else 'Y', p),): 1}

def same(e, want, what):
    for g in sorted(set(e) | set(want)):
        d = padd(e.get(g, {}), want.get(g, {}), -1)
        bad = {m: c for m, c in d.items() if c % Q}
        if bad:
            m = sorted(bad, key=lambda m: (len(m), sorted(m)))[0]
            raise Fail('%s: the coefficient of %s%s is off by %#x (%d coefficients differ)' % (what, g, ''.join('*' + v for v in sorted(m)), bad[m] % Q, len(bad)))

def mul(I):
    W = Points(I, {'scalar': ('scalar', 'scalar'), 'xP': ('x', 'T'), 'yP': ('y', 'T')})
    e = W.run()
    want = {'T': {frozenset(['b:%d' % i]): 1 << i for i in range(256)}}
    want['T'][frozenset()] = -TQ
    same(e, want, 'the output of the scalar multiplication')
    return W
def ecdsa(I):
    W = Points(I, {'s': ('scalar', 's'), 'Tx': ('x', 'T'), 'Ty': ('y', 'T'), 'Ux': ('x', 'U'), 'Uy': ('y', 'U')})
    e = W.run()
    same(e, {'T': {frozenset(['s:s']): 1}, 'U': {frozenset(): 1}}, 'the public key')
    return W

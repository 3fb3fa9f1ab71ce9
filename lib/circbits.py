"""Boolean circuits over a prime field: every signal is a multilinear polynomial over 0/1 nodes; a polynomial that only takes the
values 0 and 1 becomes a node, identified by its algebraic normal form (exclusive-or of products of atoms).  Sets the reference
computation names are replaced with fresh atoms (cut points), which keeps the normal forms small."""
from itertools import product
from circom import P
from circalg import flatten
from vc import Fail
LIMIT = 100

class Bits:
    def __init__(self):
        self.ids, self.sets = {}, []         # canonical constant-free ANF -> node
        self.cut = {}                        # ANF -> ANF of one atom
        self.memo = {}
    def node(self, s, what='a bit'):
        s = self.cut.get(s, s)
        if len(s) > LIMIT: raise Fail('%s is none of the bits of the specified function (its normal form has more than %d terms)' % (what, LIMIT))
        if s not in self.ids: self.ids[s] = len(self.sets); self.sets.append(s)
        return self.ids[s]
    def boolv(self, s):
        """value of a normal form (which may contain the constant term)"""
        one = frozenset()
        c = one in s
        s = s - {one}
        if not s: return {(): 1} if c else {}
        n = self.node(frozenset(s))
        return {(): 1, (n,): P - 1} if c else {(n,): 1}
    def anf(self, v):
        """normal form of a 0/1 value"""
        if not v: return frozenset()
        if v == {(): 1}: return frozenset([frozenset()])
        if len(v) == 1:
            (m, c), = v.items()
            if c == 1:
                r = frozenset([frozenset()])
                for n in m: r = self.mul(r, self.sets[n])
                return r
        if len(v) == 2 and v.get(()) == 1:
            (m, c), = [x for x in v.items() if x[0]]
            if c == P - 1 and len(m) == 1: return self.sets[m[0]] ^ {frozenset()}
        raise Fail('not a bit')
    def mul(self, a, b):
        if len(a) * len(b) > 4 * LIMIT: raise Fail('product of large normal forms')
        r = set()
        for x in a:
            for y in b: r ^= {x | y}
        return frozenset(r)
    def collapse(self, v, what, force=False):
        """make a 0/1-valued polynomial a node"""
        if len(v) <= 1 and not (force and v): return v
        if len(v) == 2 and v.get(()) == 1 and any(len(m) == 1 and c == P - 1 for m, c in v.items()): return v
        vs = sorted({n for m in v for n in m})
        if len(vs) > 9: return v
        key = (tuple(vs), tuple(sorted(v.items())))
        if key in self.memo: return self.memo[key]
        pos = {n: i for i, n in enumerate(vs)}
        t = []
        for a in range(1 << len(vs)):
            x = sum(c for m, c in v.items() if all(a >> pos[n] & 1 for n in m)) % P
            if x not in (0, 1): t = None; break
            t.append(x)
        if t is None: r = v
        else:
            for i in range(len(vs)):
                for a in range(len(t)):
                    if a >> i & 1: t[a] ^= t[a ^ (1 << i)]
            s = frozenset()
            for a, x in enumerate(t):
                if x:
                    q = frozenset([frozenset()])
                    for i, n in enumerate(vs):
                        if a >> i & 1: q = self.mul(q, self.sets[n])
                    s = s ^ q
            if len(s) > LIMIT + 1: raise Fail('%s is none of the bits of the specified function' % what)
            r = self.boolv(s)
        self.memo[key] = r
        return r
    def ev(self, p, val, what):
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1: return val[m[0]]
        sub, xs = {}, {x for m in p for x in m}
        vs = {x: {n for m in val[x] for n in m} for x in xs}
        for x in xs:
            # a product of nodes none of which occurs elsewhere is a node itself
            if len(vs[x]) > 1 and not any(vs[x] & vs[y] for y in xs if y != x): sub[x] = self.collapse(val[x], what, True)
        r = {}
        for m, c in p.items():
            t = {(): c}
            for x in m:
                w, n = sub.get(x) or val[x], {}
                for k, a in t.items():
                    for l, b in w.items():
                        kl = l if not k else k if not l else tuple(sorted(set(k) | set(l))); n[kl] = (n.get(kl, 0) + a * b) % P
                t = n
                if len(t) > 1100: raise Fail('%s: expression too large' % what)
            for k, a in t.items(): r[k] = (r.get(k, 0) + a) % P
        r = {k: a for k, a in r.items() if a}
        if len(p) == 1 and len(r) <= 8 and all(len(m) > 1 for m in p): return r     # keep a product recognisable as one
        return self.collapse(r, what)

def run(B, I, inputs, opaque=None, answer=None):
    """values of the outputs; answer(inst, name, input values) for opaque components"""
    L, ops, inp, out, opq = flatten(I, opaque or (lambda i: False))
    val = dict(zip(inp, inputs))
    # producer of each signal, demand-driven in source order
    prod = {}
    for o in ops:
        if o[0] == 'def': prod[o[1]] = o
        elif o[0] == 'hint': prod[o[1]] = o
    for q in opq:
        for g in q[3]: prod[g] = q
    def need(g):
        st = [g]
        while st:
            x = st[-1]
            if x in val: st.pop(); continue
            o = prod.get(x)
            if o is None: raise Fail('%s is never assigned' % L[x])
            if o[0] == 'hint': raise Fail('%s is assigned without being constrained' % L[x])
            ins = {y for m in o[2] for y in m} if o[0] == 'def' else set(o[2])
            w = [y for y in ins if y not in val]
            if w:
                if len(st) > 100000: raise Fail('cyclic assignment')
                st.extend(w); continue
            if o[0] == 'def': val[x] = B.ev(o[2], val, L[x])
            else:
                for y, v in zip(o[3], answer(o[0], o[1], [val[z] for z in o[2]])): val[y] = v
            st.pop()
    for g in out: need(g)
    left = [o for o in ops if o[0] == 'con']
    for o in left:
        for m in o[1]:
            for x in m: need(x)
        if B.ev(o[1], val, 'constraint'): raise Fail('a constraint of %s does not hold for all inputs' % o[2][0].name)
    return [val[g] for g in out], len(ops)

# ---- Keccak reference, from the definition ----------------------------------------------------
def round_constants():
    def rc(t):
        r = 1
        for _ in range(t % 255):
            r <<= 1
            if r & 0x100: r ^= 0x171
        return r & 1
    return [sum(rc(7 * i + j) << ((1 << j) - 1) for j in range(7)) for i in range(24)]
def offsets():
    o = {(0, 0): 0}; x, y = 1, 0
    for t in range(24):
        o[x, y] = (t + 1) * (t + 2) // 2 % 64; x, y = y, (2 * x + 3 * y) % 5
    return o
ONE = frozenset([frozenset()])
def atom(n): return frozenset([frozenset([n])])
def keccak_f(B, A):
    """A[lane][bit] normal forms; registers the cut points in B"""
    off, rcs = offsets(), round_constants()
    fresh = [0]
    def cutp(s, nm):
        c = ONE if frozenset() in s else frozenset()
        s = s - c
        if len(s) <= 1: return s ^ c
        if s not in B.cut: B.cut[s] = atom('%s' % nm)
        return B.cut[s] ^ c
    for r in range(24):
        C = [[A[x][z] ^ A[x + 5][z] ^ A[x + 10][z] ^ A[x + 15][z] ^ A[x + 20][z] for z in range(64)] for x in range(5)]
        D = [[C[(x - 1) % 5][z] ^ C[(x + 1) % 5][(z - 1) % 64] for z in range(64)] for x in range(5)]
        raw = D
        D = [[cutp(D[x][z], 'D%d.%d.%d' % (r, x, z)) for z in range(64)] for x in range(5)]
        Bq = [None] * 25
        for x in range(5):
            for y in range(5):
                l = [cutp(A[x + 5 * y][z] ^ D[x][z], 'theta%d.%d.%d' % (r, x + 5 * y, z)) for z in range(64)]
                for z in range(64):              # the same bit summed up without going through D
                    a = A[x + 5 * y][z] ^ raw[x][z]
                    if len(a - ONE) > 1 and (a ^ l[z]) - ONE: B.cut.setdefault(a - ONE, l[z] - ONE)
                Bq[y + 5 * ((2 * x + 3 * y) % 5)] = [l[(z - off[x, y]) % 64] for z in range(64)]
        N = [None] * 25
        for y in range(5):
            for x in range(5):
                a, b, c = Bq[x + 5 * y], Bq[(x + 1) % 5 + 5 * y], Bq[(x + 2) % 5 + 5 * y]
                l = []
                for z in range(64):
                    s = a[z] ^ B.mul(b[z] ^ ONE, c[z])
                    if x == y == 0 and rcs[r] >> z & 1: s = s ^ ONE
                    l.append(cutp(s, 'round%d.%d.%d' % (r, x + 5 * y, z)))
                N[x + 5 * y] = l
        A = N
    return A
def keccak256(B, msg, bits):
    """digest bits (least significant bit of each byte first) of a one-block message given as bits"""
    assert len(msg) + 8 <= 1088
    blk = list(msg) + [ONE] + [frozenset()] * (1088 - len(msg) - 1)
    blk[1087] = blk[1087] ^ ONE
    A = [[blk[64 * l + z] if l < 17 else frozenset() for z in range(64)] for l in range(25)]
    A = keccak_f(B, A)
    return [A[i // 64][i % 64] for i in range(bits)]
def keccak_int(data):
    """the reference on concrete bytes"""
    B = Bits()
    m = [ONE if data[i // 8] >> i % 8 & 1 else frozenset() for i in range(8 * len(data))]
    d = keccak256(B, m, 256)
    return bytes(sum((d[8 * i + j] == ONE) << j for j in range(8)) for i in range(32))

"""Integer meaning of limb circuits: every signal is an integer linear form over range-bounded variables, every 0/1 decision
(top bit of a decomposition, zero test) splits the case, and each case's outputs are compared with the specification."""
from circom import P, Poly, Hint
from circalg import flatten
from vc import Fail

class Lin:
    """c + sum k_i * v_i over the integers"""
    __slots__ = ('c', 't')
    def __init__(self, c=0, t=()): self.c, self.t = c, {v: k for v, k in dict(t).items() if k}
    def add(self, o, k=1):
        t = dict(self.t)
        for v, x in o.t.items(): t[v] = t.get(v, 0) + k * x
        return Lin(self.c + k * o.c, t)
    def scale(self, k): return Lin(self.c * k, {v: x * k for v, x in self.t.items()})
    def const(self): return not self.t

def sg(c): return c if c <= P // 2 else c - P

class NB:
    """a decomposition of the form e into bits sig[0..]"""
    def __init__(self, name, e, sig): self.name, self.e, self.sig = name, e, sig

class State:
    """ranges of the variables, forms that are multiples of p"""
    def __init__(self, rng, eqs=()): self.rng, self.eqs = dict(rng), list(eqs)
    def copy(self): return State(self.rng, self.eqs)
    def bound(self, e):
        lo = hi = e.c
        for v, k in e.t.items():
            a, b = self.rng[v]
            lo, hi = lo + min(k * a, k * b), hi + max(k * a, k * b)
        return lo, hi
    def refine(self, e, lo, hi):
        """keep only values with lo <= e <= hi; False when nothing is left (exact for one variable, else the smallest box)"""
        again = True
        while again:
            again = False
            l, h = self.bound(e)
            if h < lo or l > hi: return False
            for v, k in e.t.items():
                a, b = self.rng[v]
                l, h = self.bound(e)
                x, y = lo - (h - max(k * a, k * b)), hi - (l - min(k * a, k * b))      # x <= k v <= y
                na, nb = (-((-x) // k), y // k) if k > 0 else (-((-y) // k), x // k)
                na, nb = max(a, na), min(b, nb)
                if na > nb: return False
                if (na, nb) != (a, b): self.rng[v] = (na, nb); again = True
        return True

def opaque(i): return i.name in ('Num2Bits', 'IsZero') and 'circomlib' in i.file

class Limbs:
    """ranges: {input label: (lo, hi)}"""
    LIMIT = 400
    def __init__(self, I, ranges):
        self.I = I
        self.L, self.ops, self.inp, self.out, self.opq = flatten(I, opaque)
        self.ranges, self.cases, self.steps = ranges, 0, 0
        self.hints = {'w:' + self.L[o[1]]: o[2] for o in self.ops if o[0] == 'hint'}
    def run(self, leaf):
        rng, val = {}, {}
        for i in self.inp:
            v = 'in:' + self.L[i]; rng[v] = self.ranges[self.L[i]]; val[i] = Lin(0, {v: 1})
        self.leaf, self.inval = leaf, dict(val)
        self.dfs(val, {}, State(rng), [('op', o) for o in self.ops] + [('opq', o) for o in self.opq])
        return self.cases
    def dfs(self, val, bits, st, nodes):
        self.steps += 1
        if self.steps > self.LIMIT: raise Fail('too many case distinctions')
        val, bits, st = dict(val), dict(bits), st.copy()
        while nodes:
            self.why = None
            for cons in (False, True):
                left, did = [], False
                for nd in nodes:
                    r = self.step(nd, val, bits, st) if cons or nd[1][0] != 'con' else False
                    if r == 'dead': return
                    if r: did = True
                    else: left.append(nd)
                nodes = left
                if did: break
            if did: continue
            split = self.choose(nodes, val, bits, st)
            if split is None: raise Fail(self.why or '%s cannot be evaluated' % ', '.join(sorted({self.desc(n) for n in nodes})[:4]))
            for sig, x, s in split: self.dfs({**val, sig: Lin(x)}, bits, s, nodes)
            return
        self.cases += 1
        self.leaf(self, val, bits, st)
    def desc(self, nd): return self.L[nd[1][1]] if nd[0] == 'op' and nd[1][0] != 'con' else nd[1][1] if nd[0] == 'opq' else 'a constraint of ' + nd[1][-1][0].name
    def lin(self, p, val, bits, st):
        """integer form congruent to the polynomial modulo p, or None"""
        terms = []
        for m, c in p.items():
            k, free = sg(c), []
            for x in m:
                if x in bits: x = bits[x][0].sig[bits[x][1]]
                if x in val and val[x].const(): k = sg(k * val[x].c % P)
                elif x in val or x in bits: free.append(x)
                else: return None
            if k == 0: continue
            if len(free) == 2 and free[0] == free[1] and free[0] in bits: free = free[:1]
            if len(free) > 1: return None
            terms.append((free[0] if free else None, k))
        return self.total(terms, val, bits, st)
    def total(self, terms, val, bits, st):
        """sum of k * signal"""
        r, groups = Lin(), {}
        for x, k in terms:
            if x in bits: x = bits[x][0].sig[bits[x][1]]
            if x is None: r = r.add(Lin(k))
            elif x in val: r = r.add(val[x].scale(k))
            else:
                nb, i = bits[x]
                g = groups.setdefault(nb, {}); g[i] = g.get(i, 0) + k
        for nb, d in groups.items():
            lo, hi = st.bound(nb.e)
            d = {i: k for i, k in d.items() if k and (lo < 0 or hi >> i)}
            if not d: continue
            s = self.slice(nb, d, val, st)
            if s is None: return None
            r = r.add(s)
        return r
    def slice(self, nb, d, val, st):
        """sum of d[i] * bit i when these are the low bits with weights k, 2k, 4k, ... and the remaining bits are known"""
        k, n = d.get(0), len(d)
        if k is None or any(d.get(i, 0) != k << i for i in range(n)): return None
        lo, hi = st.bound(nb.e)
        if 0 <= lo and hi < 1 << n: return nb.e.scale(k)
        top = nb.sig[n:]
        if any(x not in val for x in top): return None
        t = sum(val[x].c << (n + i) for i, x in enumerate(top))
        if lo < t or hi - t >= 1 << n: return None
        return nb.e.add(Lin(-t)).scale(k)
    def step(self, nd, val, bits, st):
        k, o = nd
        if k == 'op' and o[0] == 'def':
            if len(o[2]) == 1 and all(len(m) == 1 and m[0] in bits and c == 1 for m, c in o[2].items()):
                bits[o[1]] = bits[next(iter(o[2]))[0]]; return True
            e = self.lin(o[2], val, bits, st)
            if e is None: return False
            val[o[1]] = e; return True
        if k == 'op' and o[0] == 'hint':
            v = 'w:' + self.L[o[1]]
            st.rng[v] = (0, P - 1); val[o[1]] = Lin(0, {v: 1}); return True
        if k == 'op':
            e = self.lin(o[1], val, bits, st)
            if e is None: return False
            ms = self.multiples(e, st)
            if not ms: return 'dead'
            if len(ms) == 1 and not st.refine(e, ms[0] * P, ms[0] * P): return 'dead'
            st.eqs.append(e); return True
        inst, name, ins, outs = o
        e = val.get(ins[0])
        if e is None:
            if ins[0] in bits: e = self.total([(ins[0], 1)], val, bits, st)
            if e is None: return False
        lo, hi = st.bound(e)
        if inst.name == 'Num2Bits':
            n = len(outs)
            if (1 << n) > P: raise Fail('%s: %d bits do not determine a field element' % (name, n))
            # a value outside [0, p) is decomposed as its residue
            ms = range(lo // P, hi // P + 1)
            if len(ms) > 4: self.why = '%s: the decomposed value ranges over %d multiples of the field size' % (name, len(ms)); return False
            if len(ms) > 1:
                ok = [m for m in ms if self.meets(st, e, m * P, m * P + (1 << n) - 1)]
                if len(ok) > 1: self.why = '%s: the decomposed value may wrap around the field' % name; return False
                if not ok: return 'dead'
                ms = ok
            if not st.refine(e, ms[0] * P, ms[0] * P + (1 << n) - 1): return 'dead'
            nb = NB(name, e.add(Lin(-ms[0] * P)), list(outs))
            for i, x in enumerate(outs): bits[x] = (nb, i)
            return True
        if outs[0] in val: return True
        if len(range(-(-lo // P), hi // P + 1)) == 0: val[outs[0]] = Lin(0); return True
        if lo == hi: val[outs[0]] = Lin(int(lo % P == 0)); return True
        return False
    def meets(self, st, e, lo, hi): return st.copy().refine(e, lo, hi)
    def multiples(self, e, st):
        lo, hi = st.bound(e)
        return range(-(-lo // P), hi // P + 1)
    def choose(self, nodes, val, bits, st):
        """split on a zero test or on the highest undecided bit some node needs"""
        for k, o in nodes:
            if k != 'opq' or o[0].name != 'IsZero' or o[2][0] not in val: continue
            e, r = val[o[2][0]], []
            lo, hi = st.bound(e)
            if lo <= -P or hi >= P: self.why = '%s: the tested value ranges beyond the field' % o[1]; continue
            s = st.copy()
            if s.refine(e, 0, 0): r.append((o[3][0], 1, s))
            for a, b in ((-P, -1), (1, P)):
                s = st.copy()
                if s.refine(e, a, b): r.append((o[3][0], 0, s))
            return r
        for k, o in nodes:
            if k != 'op': continue
            p = o[2] if o[0] == 'def' else o[1]
            need = {x for m in p for x in m}
            if any(x not in val and x not in bits for x in need): continue
            for x in sorted(need):
                if x not in bits: continue
                nb = bits[x][0]
                if nb.sig[bits[x][1]] in val: continue
                j = max(j for j in range(len(nb.sig)) if nb.sig[j] not in val)
                t = sum(val[s].c << l for l, s in enumerate(nb.sig) if l > j)
                r = []
                for b in (0, 1):
                    s = st.copy()
                    if s.refine(nb.e, t + (b << j), t + (b << j) + (1 << j) - 1): r.append((nb.sig[j], b, s))
                return r
        return None

def recoding(I, q, add, done=None):
    """sum 2^i out_i = s' + add (mod q) in every case, where s' in {s, s + p} is below 2^256; every s has a witness"""
    if len(I.ids('input')) != 1 or len(I.ids('output')) != 256: raise Fail('the template has %d inputs and %d outputs' % (len(I.ids('input')), len(I.ids('output'))))
    M = Limbs(I, {I.sigs[I.ids('input')[0]]: (0, P - 1)})
    sv = 'in:' + M.L[M.inp[0]]
    vol = [0]
    honest = {v: hint_range(t) for v, t in M.hints.items()}
    def leaf(M, val, bits, st):
        k = M.total([(x, 1 << i) for i, x in enumerate(M.out)], val, bits, st)
        if k is None: raise Fail('the outputs are not the bits of values that fit them (%s)' % ', '.join(sorted({bits[x][0].name for x in M.out if x in bits})))
        pin = lambda e: Lin(e.c + sum(x * st.rng[v][0] for v, x in e.t.items() if st.rng[v][0] == st.rng[v][1]), {v: x for v, x in e.t.items() if st.rng[v][0] < st.rng[v][1]})
        d = pin(k.add(Lin(add, {sv: 1}), -1))
        lam, consts = [], [d]
        # eliminate the witnesses with the equations
        eqs = [(pin(e), M.multiples(e, st)) for e in st.eqs]
        while True:
            es = [(e, ms) for e, ms in eqs if any(v != sv for v in e.t)]
            v = next((v for v in sorted(d.t) if v != sv and any(v in e.t for e, _ in es)), None)
            if v is None: break
            e, ms = min(((e, ms) for e, ms in es if v in e.t), key=lambda x: abs(x[0].t[v]))
            if d.t[v] % e.t[v] or len(ms) > 4: raise Fail('the relation between the witnesses and the scalar is not understood')
            f = d.t[v] // e.t[v]
            d = d.add(e, -f); lam.append((f, ms))
            eqs = [x for x in eqs if x[0] is not e]
        bad = {v for v, k in d.t.items() if k % q}
        if bad: raise Fail('the outputs depend on %s' % ', '.join('the scalar in another way than as its sum with the constant' if v == sv else '%s, which the prover may choose' % v[2:] for v in sorted(bad)))
        vals = [d.c]
        for f, ms in lam: vals = [x + f * m * P for x in vals for m in ms]
        if any(x % q not in (0, P % q) for x in vals): raise Fail('for %s the outputs are not the bits of s + tQ mod q' % ', '.join('%s in [%#x, %#x]' % (v.split(':')[1], *r) for v, r in sorted(st.rng.items()))[:300])
        x = 1
        for v, h in honest.items():
            a, b = st.rng[v]; a, b = max(a, h[0]), min(b, h[1])
            x *= max(0, b - a + 1)
        vol[0] += x
        if done: done(M, val, bits, st)
    n = M.run(leaf)
    want = 1
    for v, h in honest.items(): want *= h[1] - h[0] + 1
    if vol[0] < want: raise Fail('some scalars have no witness that satisfies the constraints')
    return M, n

def hint_range(t):
    """range of what the witness generator assigns"""
    if isinstance(t, int): return (t, t)
    if isinstance(t, Hint) and t.op == '&' and isinstance(t.a[1], int): return (0, t.a[1])
    if isinstance(t, Hint) and t.op == '>>' and isinstance(t.a[1], int): return (0, (P - 1) >> t.a[1])
    return (0, P - 1)

def hint_form(t, inp):
    """honest assignment as (low, width) slices of an input: ('slice', input signal, from, to)"""
    def sigof(x):
        if isinstance(x, Poly) and len(x.d) == 1:
            (m, c), = x.d.items()
            if c == 1 and len(m) == 1 and m[0] in inp: return m[0]
        return None
    if isinstance(t, Poly): return ('slice', sigof(t), 0, 256) if sigof(t) is not None else None
    if isinstance(t, Hint) and t.op == '>>' and isinstance(t.a[1], int):
        f = hint_form(t.a[0], inp)
        if f: return ('slice', f[1], min(f[2] + t.a[1], f[3]), f[3])
    if isinstance(t, Hint) and t.op == '&' and isinstance(t.a[1], int) and t.a[1] & (t.a[1] + 1) == 0:
        f = hint_form(t.a[0], inp)
        if f: return ('slice', f[1], f[2], min(f[3], f[2] + t.a[1].bit_length()))
    return None
def honest(I):
    """the witness generator's values satisfy the equations between witnesses and inputs"""
    M = Limbs(I, {I.sigs[i]: (0, P - 1) for i in I.ids('input')})
    forms = {}
    for v, t in M.hints.items():
        f = hint_form(t, set(M.inp))
        if f is None: raise Fail('the value assigned to %s is not understood' % v[2:])
        forms[v] = f
    n = [0]
    def leaf(M, val, bits, st):
        for e in st.eqs:
            d, sl = {}, {}
            for v, k in e.t.items():
                s = forms.get(v) or ('slice', next(i for i in M.inp if v == 'in:' + M.L[i]), 0, 256)
                for b in range(s[2], s[3]): d[s[1], b] = d.get((s[1], b), 0) + (k << (b - s[2]))
            if e.c % P or any(x % P for x in d.values()): raise Fail('the assigned values do not satisfy a constraint between %s' % ', '.join(v.split(':')[1] for v in e.t))
            n[0] += 1
    M.run(leaf)
    return '%d equations' % n[0]

"""Constraint systems of small templates solved exactly: values are rational functions of the case's coordinates, hints are
unknowns, and every constraint is solved for an unknown it is linear in.  Where a coefficient is neither known to be zero nor
known to be non-zero the case is split."""
from circom import P, Hint, Poly, Inst
from vc import Fail

class Split(Exception):
    def __init__(self, poly): self.poly = poly

def flatten(I, opaque=lambda inst: False):
    """One flat system: (labels, ops, inputs, outputs, opaque components as (inst, label, inputs, outputs)).
    Ports of a component and the component's own signals are the same signal."""
    labels, ops, opq = [], [], []
    def go(I, pre, pmap):
        m = [None] * len(I.sigs)
        for i in range(len(I.sigs)):
            if i in pmap: m[i] = pmap[i]
            else: m[i] = len(labels); labels.append(pre + I.sigs[i])
        for o, w in zip(I.ops, I.where):
            if o[0] == 'def': ops.append(('def', m[o[1]], ren(o[2], m), (I, w)))
            elif o[0] == 'con': ops.append(('con', ren(o[1], m), (I, w)))
            else: ops.append(('hint', m[o[1]], rent(o[2], m), (I, w)))
        for c in I.comps:
            if opaque(c.inst): opq.append((c.inst, pre + c.name, [m[c.ports[s]] for s in c.inst.ids('input')], [m[c.ports[s]] for s in c.inst.ids('output')]))
            else: go(c.inst, pre + c.name + '.', {s: m[g] for s, g in c.ports.items()})
        return m
    m = go(I, '', {})
    return labels, ops, [m[i] for i in I.ids('input')], [m[i] for i in I.ids('output')], opq
def ren(p, m):
    r = {}
    for mo, c in p.items():
        k = tuple(sorted(m[x] for x in mo)); r[k] = (r.get(k, 0) + c) % P
    return r
def rent(t, m):
    if isinstance(t, Poly): return Poly(ren(t.d, m))
    if isinstance(t, Hint): return Hint(t.op, *[rent(x, m) for x in t.a])
    return t
def sigs_of(t):
    if isinstance(t, Poly): return {x for m in t.d for x in m}
    if isinstance(t, Hint): return set().union(set(), *[sigs_of(x) for x in t.a])
    return set()

# ---- polynomials in named variables, with rewriting v^2 -> polynomial -------------------------
class Ring:
    """monomials: sorted tuples of (variable, exponent)"""
    def __init__(self): self.sq = {}        # variable -> polynomial its square equals
    def const(self, c): return {(): c % P} if c % P else {}
    def var(self, v): return {((v, 1),): 1}
    def add(self, a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            x = (r.get(m, 0) + k * c) % P
            if x: r[m] = x
            else: r.pop(m, None)
        return r
    def mul(self, a, b):
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                e = dict(m)
                for v, k in n: e[v] = e.get(v, 0) + k
                k = tuple(sorted(e.items())); r[k] = (r.get(k, 0) + c * d) % P
        r = {k: v for k, v in r.items() if v}
        return self.red(r)
    def red(self, r):
        while True:
            t = next(((m, v) for m in r for v, e in m if e >= 2 and v in self.sq), None)
            if t is None: return r
            m, v = t
            c = r.pop(m)
            e = dict(m); e[v] -= 2
            if not e[v]: del e[v]
            # multiply the rest with the square's value without recursion into mul's reduction of other monomials
            rest = {tuple(sorted(e.items())): c}
            for n, d in self.sq[v].items():
                for mm, cc in rest.items():
                    ee = dict(mm)
                    for vv, kk in n: ee[vv] = ee.get(vv, 0) + kk
                    k = tuple(sorted(ee.items())); x = (r.get(k, 0) + cc * d) % P
                    if x: r[k] = x
                    else: r.pop(k, None)
class Case:
    """sq: relations v^2 = poly, nz: polynomials known to be non-zero, zero/nonzero: decisions taken by splitting"""
    def __init__(self, name, ring, inputs, nz, spec, hyp=()):
        self.name, self.R, self.inputs, self.nz, self.spec, self.hyp = name, ring, inputs, list(nz), spec, list(hyp)

def monic(a):
    m = max(a); k = pow(a[m], -1, P)
    return {n: c * k % P for n, c in a.items()}

class Solver:
    def __init__(self, labels, ops, inputs, outputs, case):
        self.L, self.ops, self.inp, self.out, self.case, self.R = labels, ops, inputs, outputs, case, case.R
        self.unk = set()
        self.free_ok = True
    # fractions (num, den)
    def fadd(self, a, b, k=1):
        R = self.R
        if a[1] == b[1]: return (R.add(a[0], b[0], k), a[1])
        return (R.add(R.mul(a[0], b[1]), R.mul(b[0], a[1]), k), R.mul(a[1], b[1]))
    def fmul(self, a, b):
        if not a[0] or not b[0]: return ({}, self.R.const(1))
        n, d = self.R.mul(a[0], b[0]), self.R.mul(a[1], b[1])
        if d != self.R.const(1) and n and monic(n) == monic(d): 
            m = max(n); return (self.R.const(n[m] * pow(d[m], -1, P)), self.R.const(1))
        return (n, d)
    def zero(self, a):
        """is the polynomial zero / non-zero in this case?  Splits the case when that is open."""
        if not a: return True
        c = self.case
        mk = monic(a)
        ks = tuple(sorted(mk.items()))
        for p in c.nz + [h[0] for h in c.hyp if not h[1]]:
            if monic(p) == mk: return False
        for p in [h[0] for h in c.hyp if h[1]]:
            if monic(p) == mk: return True
            for q in [p] + c.nz + [h[0] for h in c.hyp]:
                pq = self.R.mul(p, q)
                if pq and monic(pq) == mk: return True
        if set(a) == {()}: return False
        nzs = c.nz + [h[0] for h in c.hyp if not h[1]]
        for i, p in enumerate(nzs):
            for q in nzs[i:]:
                pq = self.R.mul(p, q)
                if pq and monic(pq) == mk: return False
                for r in nzs:
                    pqr = self.R.mul(pq, r)
                    if pqr and monic(pqr) == mk: return False
        if any(v in self.unk for m in a for v, e in m): raise Fail('the condition %s = 0 depends on a value the prover may choose' % self.show(a))
        raise Split(a)
    def nm(self, v): return self.L[int(v[1:])] if v[0] == '~' else v
    def show(self, a):
        s = []
        for m, c in sorted(a.items(), reverse=True)[:6]:
            c = c if c < P // 2 else c - P
            s.append('%+d%s' % (c, ''.join('*' + self.nm(v) + ('^%d' % e if e > 1 else '') for v, e in m)))
        return ' '.join(s) + (' ...' if len(a) > 6 else '')
    def ev(self, p):
        r = ({}, self.R.const(1))
        for m, c in p.items():
            t = (self.R.const(c), self.R.const(1))
            for x in m: t = self.fmul(t, self.val[x])
            r = self.fadd(r, t)
        return r
    def subst(self, u, num, den):
        for x, (n, d) in list(self.val.items()):
            if any(v == u for m in n for v, e in m):
                self.val[x] = self.sub1((n, d), u, num, den)
    def sub1(self, f, u, num, den):
        n, d = f
        r = ({}, self.R.const(1))
        for m, c in n.items():
            t = ({tuple(z for z in m if z[0] != u): c}, self.R.const(1))
            for v, e in m:
                if v == u:
                    for _ in range(e): t = self.fmul(t, (num, den))
            r = self.fadd(r, t)
        return (r[0], self.R.mul(r[1], d))
    def run(self):
        """values of the outputs; None when the case admits no witness"""
        self.val = {}
        for i, v in zip(self.inp, self.case.inputs): self.val[i] = (v, self.R.const(1))
        pend = list(self.ops)
        hints = {}
        while pend:
            left, did = [], False
            for o in pend:
                if o[0] == 'def' and all(x in self.val for m in o[2] for x in m):
                    self.val[o[1]] = self.ev(o[2]); did = True
                elif o[0] == 'hint':
                    u = '~%06d' % o[1]; self.unk.add(u); self.val[o[1]] = (self.R.var(u), self.R.const(1)); hints[u] = o[2]; did = True
                elif o[0] == 'con' and all(x in self.val for m in o[1] for x in m):
                    if not self.constrain(self.ev(o[1])[0], o[2]): return None
                    did = True
                else: left.append(o)
            if not did: raise Fail('signals are never assigned: %s' % ', '.join(sorted({self.L[x] for o in left for m in (o[2] if o[0] == 'def' else o[1]) for x in m if x not in self.val})[:4]))
            pend = left
        # constraints left open until others were solved
        again = True
        while again and self.open:
            again = False
            op, self.open = self.open, []
            for n, w in op:
                k = len(self.open)
                if not self.constrain(self.cur(n), w): return None
                if len(self.open) == k: again = True
        if self.open: raise Fail('constraint cannot be solved: %s = 0' % self.show(self.open[0][0]))
        self.hints = hints
        return [self.val[o] for o in self.out]
    open = ()
    solved = None
    def cur(self, n):
        for u, (a, b) in (self.solved or {}).items():
            if any(v == u for m in n for v, e in m): n = self.sub1((n, self.R.const(1)), u, a, b)[0]
        return n
    def constrain(self, n, w):
        if self.solved is None: self.solved, self.open = {}, []
        us = sorted({v for m in n for v, e in m if v in self.unk}, key=self.nm)
        if not us: return self.zero(n)
        n = self.R.red(dict(n))
        for u in us:
            if any(v == u and e > 1 for m in n for v, e in m): continue
            co = {tuple(z for z in m if z[0] != u): c for m, c in n.items() if any(z[0] == u for z in m)}
            rest = {m: c for m, c in n.items() if not any(z[0] == u for z in m)}
            if any(v in self.unk for m in co for v, e in m): continue
            if rest and co and monic(self.R.mul(rest, rest)) == monic(co): self.zero(rest)     # in * (1 - in * inv): decide in
            if self.zero(co):
                return self.constrain(rest, w)
            num = {m: -c % P for m, c in rest.items()}
            self.subst(u, num, co)
            for k in self.solved: 
                a, b = self.solved[k]
                if any(v == u for m in a for v, e in m): self.solved[k] = self.sub1((a, b), u, num, co)
            self.solved[u] = (num, co)
            return True
        self.open.append((n, w))
        return True
    def hint_value(self, t):
        """what the witness generator assigns, as a fraction (division by zero gives zero, as the generated code does)"""
        R = self.R
        if isinstance(t, int): return (R.const(t), R.const(1))
        if isinstance(t, Poly): return self.ev(t.d)
        a = t.a
        if t.op == '?': return self.hint_value(a[1] if self.zero(self.sub_(self.hint_value(a[0]), 0)) is False else a[2])
        x = [self.hint_value(v) for v in a]
        if t.op == '+': return self.fadd(x[0], x[1])
        if t.op == '-': return self.fadd(x[0], x[1], -1)
        if t.op == '*': return self.fmul(x[0], x[1])
        if t.op == '/':
            if self.zero(x[1][0]): return (R.const(0), R.const(1))
            return (R.mul(x[0][0], x[1][1]), R.mul(x[0][1], x[1][0]))
        if t.op in ('!=', '=='):
            z = self.zero(self.fadd(x[0], x[1], -1)[0])
            return (R.const(int(z == (t.op == '=='))), R.const(1))
        raise Fail('hint with operator %s' % t.op)
    def sub_(self, f, k): return f[0]

def solve(flat, case, depth=0):
    """yield (case, solver, outputs) for the case and everything it splits into"""
    labels, ops, inp, out, opq = flat
    if opq: raise Fail('unexpected component %s' % opq[0][1])
    s = Solver(labels, ops, inp, out, case)
    try:
        r = s.run()
    except Split as e:
        if depth > 6: raise Fail('too many case distinctions')
        for z in (True, False):
            c = Case(case.name + (' and %s %s 0' % (s.show(e.poly), '=' if z else '!=')), case.R, case.inputs, case.nz, case.spec, case.hyp + [(e.poly, z)])
            yield from solve(flat, c, depth + 1)
        return
    yield case, s, r

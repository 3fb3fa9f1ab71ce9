"""Linear forms over power products: the value domain for Poseidon-like computations (hash-consed, exact).
A value is const + sum c_i * m_i where m_i is a product of powers of other (monic) linear forms."""
from circom import P
class LP:
    def __init__(self):
        self.atoms = []            # atom id -> ('in', name) | ('mono', ((form id, k), ...))
        self.ids, self.forms, self.fid = {}, [], {}
    def atom(self, key):
        if key not in self.ids: self.ids[key] = len(self.atoms); self.atoms.append(key)
        return self.ids[key]
    def inp(self, name): return (0, ((self.atom(('in', name)), 1),))
    def const(self, c): return (c % P, ())
    def add(self, a, b, k=1):
        d = dict(a[1])
        for m, c in b[1]:
            v = (d.get(m, 0) + k * c) % P
            if v: d[m] = v
            else: d.pop(m, None)
        return ((a[0] + k * b[0]) % P, tuple(sorted(d.items())))
    def scale(self, a, k):
        k %= P
        if k == 0: return (0, ())
        return (a[0] * k % P, tuple((m, c * k % P) for m, c in a[1]))
    def split(self, a):
        """a as c * product of powers of monic forms."""
        if len(a[1]) == 1 and a[0] == 0:
            m, c = a[1][0]
            if self.atoms[m][0] == 'mono': return c, dict(self.atoms[m][1])
        c = a[1][0][1]
        f = self.scale(a, pow(c, -1, P))
        if f not in self.fid: self.fid[f] = len(self.forms); self.forms.append(f)
        return c, {self.fid[f]: 1}
    def mul(self, a, b):
        if not a[1]: return self.scale(b, a[0])
        if not b[1]: return self.scale(a, b[0])
        (c, m), (d, n) = self.split(a), self.split(b)
        for k, e in n.items(): m[k] = m.get(k, 0) + e
        return (0, ((self.atom(('mono', tuple(sorted(m.items())))), c * d % P),))
    def pow(self, a, k):
        r = self.const(1)
        for _ in range(k): r = self.mul(r, a)
        return r

def circuit_value(I, inputs, dom, memo=None, sub=None):
    """Values of all outputs of instance I given its input values (list in declaration order), in domain dom;
    every signal on the way must be defined by <==.  sub(comp inst, inputs) may answer for a component."""
    from vc import Fail
    val = {}
    for i, v in zip(I.ids('input'), inputs): val[i] = v
    defs = {}
    for o in I.ops:
        if o[0] == 'def': defs[o[1]] = o[2]
    port = {}
    for ci, c in enumerate(I.comps):
        for s, g in c.ports.items(): port[g] = (ci, s)
    done = set()
    def need(g):
        stack = [g]
        while stack:
            x = stack[-1]
            if x in val: stack.pop(); continue
            if x in defs:
                todo = [y for m in defs[x] for y in m if y not in val]
                if todo: stack.extend(todo); 
                else: val[x] = ev(defs[x]); stack.pop()
            elif x in port and I.kind[x][0] == 'port-out':
                ci = port[x][0]; c = I.comps[ci]
                ins = [c.ports[s] for s in c.inst.ids('input')]
                todo = [y for y in ins if y not in val]
                if todo: stack.extend(todo)
                else:
                    iv = [val[y] for y in ins]
                    r = sub(c.inst, iv) if sub else None
                    if r is None: r = circuit_value(c.inst, iv, dom, memo, sub)
                    for s, v in zip(c.inst.ids('output'), r): val[c.ports[s]] = v
                    stack.pop()
            else: raise Fail('%s: signal %s is not defined by a constraint assignment' % (I.title(), I.sigs[x]))
            if len(stack) > 10**6: raise Fail('%s: circular definition of %s' % (I.title(), I.sigs[g]))
    def ev(p):
        r = dom.const(p.get((), 0))
        for m, c in p.items():
            if not m: continue
            t = val[m[0]]
            for y in m[1:]: t = dom.mul(t, val[y])
            r = dom.add(r, t, c)
        return r
    for o in I.ids('output'): need(o)
    return [val[o] for o in I.ids('output')]

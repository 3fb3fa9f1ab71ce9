"""What the address circuit must compute, and how the circuits obtain it from the recovered public key."""
import circbits
from circom import P
from vc import Fail
class World:
    """nodes: scalars (s, Tx, ...), the recovered coordinates PX, PY and their bits"""
    def __init__(self):
        self.B = B = circbits.Bits()
        self.X = [circbits.atom('x%d' % i) for i in range(256)]
        self.Y = [circbits.atom('y%d' % i) for i in range(256)]
        self.bits = {'PX': [B.boolv(s) for s in self.X], 'PY': [B.boolv(s) for s in self.Y]}
        self.want = None
        self.ran, self.hashes = [], {}
    def sym(self, n): return self.B.boolv(circbits.atom('sym:' + n))
    def message(self):
        return [self.X[8 * (31 - i) + j] for i in range(32) for j in range(8)] + [self.Y[8 * (31 - i) + j] for i in range(32) for j in range(8)]
    def address(self):
        if self.want is None:
            B = self.B
            msg = self.message()
            self.digest = d = circbits.keccak256(B, msg, 256)
            w = {}
            for k in range(20):
                for j in range(8):
                    for m, c in B.boolv(d[8 * (31 - k) + j]).items(): w[m] = (w.get(m, 0) + (c << (8 * k + j))) % P
            self.want = {m: c for m, c in w.items() if c}
        return self.want
    def ecdsa(self, inst, name, ins):
        m = {inst.sigs[i]: v for i, v in zip(inst.ids('input'), ins)}
        for n in ('s', 'Tx', 'Ty', 'Ux', 'Uy'):
            if m.get(n) != self.sym(n): raise Fail('%s: input %s is not the input %s of the circuit' % (name, n, n))
        if len(m) != 5: raise Fail('%s has %d inputs' % (name, len(m)))
        o = [inst.sigs[i] for i in inst.ids('output')]
        if o != ['pubKeyX', 'pubKeyY']: raise Fail('%s has outputs %s' % (name, ', '.join(o)))
        return [self.sym('PX'), self.sym('PY')]
    def num2bits(self, inst, name, ins):
        for n in ('PX', 'PY'):
            if ins[0] == self.sym(n):
                if inst.args[0] < 256: raise Fail('%s: %d bits do not hold every coordinate' % (name, inst.args[0]))
                return self.bits[n] + [{}] * (inst.args[0] - 256)
        raise Fail('%s: the decomposed value is not a coordinate of the public key' % name)
    def standard(self, ins): return len(ins) == 512 and list(ins) == self.bits['PY'] + self.bits['PX']
    def evaluate(self, I, ins):
        """Keccak and what surrounds it, bit by bit"""
        def answer(i, name, v):
            k = (i.file, repr(i.args), repr(v))
            if k not in self.hashes: self.hashes[k] = self.plain(i, v)
            return self.hashes[k]
        out, n = circbits.run(self.B, I, ins, lambda i: i.name == 'Keccak', answer)
        self.ran.append(n)
        return out
    def plain(self, I, ins):
        out, n = circbits.run(self.B, I, ins)
        self.ran.append(n)
        return out
def lib(i): return 'circomlib' in i.file

"""The three prime-field types and how to call their operations."""
import mir, poly, absint
import limbproof as lp
from absint import S, R, Interp
from vc import Fail
P_SECP = 2**256 - 2**32 - 977                   # base field of secp256k1 = scalar field of secq256k1
N_SECP = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141   # order of secp256k1 = base field of secq256k1
RR = 256    # Montgomery radix 2^RR

class FT:
    def __init__(self, label, crate, name, p, file):
        self.label, self.crate, self.name, self.p, self.file = label, crate, name, p, file
    @property
    def prog(self):
        return mir.prog(self.crate)
    def tid(self):
        for i, t in enumerate(self.prog.types):
            if t and t['k'] == 'adt' and t['n'] == self.name:
                return i
        raise Fail('type %s not found' % self.name)
    def val(self, limbs):
        return S(self.tid(), (S('arr', tuple(limbs)),))
    def const(self, v):
        """The internal (Montgomery) representation of the integer v."""
        m = v * 2**RR % self.p
        return self.val([(m >> (64 * i)) & (2**64 - 1) for i in range(5)])
    def limbs(self, v):
        return self.prog and v.f[0].f

FTS = [
    FT('scalar', 'libspartan', 'libspartan::scalar::scalar::Scalar', P_SECP, 'packages/Spartan-secq/src/scalar/scalar.rs'),
    FT('field_secp', 'secq256k1', 'secq256k1::field::field_secp::FieldElement', P_SECP, 'packages/secq256k1/src/field/field_secp.rs'),
    FT('field_secq', 'secq256k1', 'secq256k1::field::field_secq::FieldElement', N_SECP, 'packages/secq256k1/src/field/field_secq.rs'),
]

def pointee(prog, t):
    """(is_ref, adt name or kind, type)"""
    ty = prog.types[t]
    ref = 0
    while ty['k'] == 'ref':
        ref += 1
        t = ty['e']
        ty = prog.types[t]
    return ref, ty.get('n', ty['k']), ty

def args_for(it, b, mk):
    """Arguments for body b: mk(i, adt name, type) gives the value of the i-th parameter (by value)."""
    out, cells = [], []
    for i in range(1, b.nargs + 1):
        ref, n, ty = pointee(it.p, b.locals[i])
        v = mk(i, n, ty)
        for _ in range(ref):
            v = it.ref(v)
        out.append(v)
    return out

def deref(it, v):
    while isinstance(v, R):
        v = it.load(v)
    return v

"""Protocol-level analysis: abstract inputs of a given shape, outcome of a verifier, and specification verifiers."""
import re, os, json
import mir, poly, absint, vn
from absint import S, E, R, Interp, UNIT, Diverge
from poly import P, Unsupported
from vc import Fail
from vn import V, G, Cg, T, const, var, gvar, cvar

def prog():
    return mir.prog('libspartan')

def new_interp(**kw):
    it = Interp(prog(), vn.overrides())
    it.vlog = []
    for k, v in kw.items():
        setattr(it, k, v)
    return it

def tid(p, name):
    """type id of the struct with this (path-suffix) name"""
    c = [i for i, t in enumerate(p.types) if t and t['k'] == 'adt' and (t['n'] == name or t['n'].endswith('::' + name))]
    if not c:
        raise Fail('type %s not found' % name)
    return c[0]

REF = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fieldref.json')))
def fields(p, t):
    """fields of a struct under the names the specification knows them by: a renamed field keeps its place"""
    fs = p.types[t]['v'][0]['f']
    ref = REF.get(p.types[t]['n'])
    if ref is None or len(ref) != len(fs):
        return fs
    have = [n for n, _ in fs]
    if set(have) == set(ref):
        return fs
    old = iter([n for n in ref if n not in have])
    return [(n if n in ref else next(old), ft) for n, ft in fs]

def struct(p, name, **fs):
    t = tid(p, name)
    out = []
    for n, _ in fields(p, t):
        if n not in fs:
            raise Fail('%s has a field %s the specification does not know' % (name, n))
        out.append(fs.pop(n))
    if fs:
        raise Fail('%s has no field %s' % (name, ', '.join(fs)))
    return S(t, tuple(out))

def get(p, v, *path):
    """field by name"""
    for f in path:
        if isinstance(f, int):
            v = v.f[f]
            continue
        names = [n for n, _ in fields(p, v.t)]
        if f not in names:
            raise Fail('%s has no field %s' % (p.types[v.t]['n'], f))
        v = v.f[names.index(f)]
    return v

def setf(p, v, path, x):
    f = path[0]
    i = f if isinstance(f, int) else [n for n, _ in fields(p, v.t)].index(f)
    y = x if len(path) == 1 else setf(p, v.f[i], path[1:], x)
    if callable(y):
        y = y(v.f[i])
    return S(v.t, v.f[:i] + (y,) + v.f[i + 1:])

def symbolic(p, t, path, lens):
    """A value of type t all of whose parts are unknown; vectors have the lengths lens(path)."""
    ty = p.types[t]
    k = ty['k']
    if k == 'adt':
        n = ty['n']
        if n.endswith('scalar::Scalar') or n == 'secq256k1::Scalar':
            return var(path)
        if n.endswith('EncodedPoint'):
            return cvar(path)
        if n.endswith('AffinePoint') and len(ty['v']) and not n.startswith('primeorder'):
            return S(t, (gvar(path),))
        if n.startswith('primeorder'):
            return gvar(path)
        if n.endswith('vec::Vec'):
            return S('vec', tuple(symbolic(p, ty['a'][0], '%s[%d]' % (path, i), lens) for i in range(lens(path))))
        if n.endswith('option::Option'):
            return E(t, ((1, 1, (symbolic(p, ty['a'][0], path + '?', lens),)),))
        if n.endswith('boxed::Box'):
            return symbolic(p, ty['a'][0], path, lens)
        if ty['kind'] == 'Struct':
            return S(t, tuple(symbolic(p, ft, path + '.' + fn if path else fn, lens) for fn, ft in ty['v'][0]['f']))
    if k in ('tup', 'tuple'):
        es = ty['f']
        return S('tup', tuple(symbolic(p, e, '%s.%d' % (path, i), lens) for i, e in enumerate(es)))
    if k == 'array':
        return S('arr', tuple(symbolic(p, ty['e'], '%s[%d]' % (path, i), lens) for i in range(ty['n'])))
    if k == 'int':
        return lens(path)
    raise Unsupported('symbolic %s %s at %s' % (k, ty.get('n', ''), path))

# ---- outcome of a verifier ---------------------------------------------------------------
def outcome(it, r):
    """The condition (0/1 polynomial over equality tests) under which the verifier accepts: it returns Ok and no panic occurred."""
    c = 0
    if not isinstance(r, E):
        c = 1
    else:
        for v, k, f in r.alts:
            if v == 0:
                c = poly.add(c, k)
    for g, cond, why, where in it.panics:
        c = poly.mul(c, poly.sub(1, poly.mul(g, poly.bnot(cond))))
    return poly.setrange(c, 0, 1) if isinstance(c, P) else c

def atoms_in(c):
    return poly.atoms_of(c) if isinstance(c, P) else set()

def describe(a):
    x = poly.ATOMS[a]
    if x.kind == 'veq':
        return '%s equation #%06x' % ('scalar' if x.data[1] == 's' else 'group', x.data[2] & 0xffffff)
    if x.kind == 'decodes':
        return 'decoding of %s' % x.data[1]
    return str(x)

def payload(r):
    """fields of the Ok alternative"""
    for v, k, f in r.alts:
        if v == 0:
            return f
    raise Fail('never accepts')

class Spec:
    """Specification side of one verifier: absorbs statement and messages, draws the code's own challenges in order,
    and collects the relations that must be tested."""
    def __init__(self, log):
        self.challenges = [e for e in log if e[0] == 'challenge']
        self.next = 0
        self.need = []          # (key, name)
        self.missing = []       # (challenge number, label, what is not bound)
        self.eqs = {}           # atom id -> description
        self.nz = {}            # atom id of 'x = 0' for challenges that must be invertible
        self.label = ''
    def absorb(self, name, *xs):
        for x in xs:
            if isinstance(x, (list, tuple)):
                for i, y in enumerate(x):
                    self.absorb('%s[%d]' % (name, i), y)
                continue
            if isinstance(x, V):
                k = ('s', x.v)
            elif isinstance(x, (G, Cg)):
                k = ('g', x.v)
            elif isinstance(x, bytes):
                k = ('bytes', x)
            elif isinstance(x, int):
                k = ('bytes', x.to_bytes(8, 'little'))
            else:
                raise Fail('cannot absorb %r' % (x,))
            self.need.append((k, name))
    def challenge(self, what=''):
        if self.next >= len(self.challenges):
            raise Fail('the code draws %d challenges; the specification needs another one (%s)' % (len(self.challenges), what))
        _, label, x = self.challenges[self.next]
        self.next += 1
        have = set()
        h = vn.HIST_OF[x.v]
        while h is not None:
            if h.ev[0] == 'append':
                have.update(h.ev[2])
            h = h.prev
        for k, name in self.need:
            if k not in have:
                self.missing.append((self.next, label.decode('latin1'), name))
        return x
    def challenges_n(self, n, what=''):
        return [self.challenge('%s[%d]' % (what, i)) for i in range(n)]
    def _eq(self, bit, name):
        if isinstance(bit, int):
            if not bit:
                raise Fail('the specification itself is unsatisfiable: %s' % name)
            return
        (a,) = atoms_in(bit)
        self.eqs.setdefault(a, name)
    def veq(self, a, b, name):
        self._eq(vn.veq(a, b), name)
    def geq(self, a, b, name):
        self._eq(vn.geq(a, b), name)
    def nonzero(self, x, name):
        b = vn.veq(x, const(0))
        if isinstance(b, int):
            return
        (a,) = atoms_in(b)
        self.nz[a] = name
    def point(self, c):
        """decoded point"""
        if isinstance(c, G):
            return c
        if not isinstance(c.ok, int):
            self._eq(c.ok, 'decoding of ' + vn.show(c))
        return G(c.v, c.d)
    def point_(self, c):
        return G(c.v, c.d)

def commit(xs, blind, gens, h):
    return vn.gadd(vn.gsum(vn.gmul(x, g) for x, g in zip(xs, gens)), vn.gmul(blind, h))

def compare(it, r, spec, exact=True):
    """Every specified relation is necessary for acceptance; together they are sufficient."""
    if spec.next != len(spec.challenges):
        raise Fail('the code draws %d challenges, the specification %d' % (len(spec.challenges), spec.next))
    c = outcome(it, r)
    if isinstance(c, int) and c == 0:
        raise Fail('never accepts')
    lost = []
    for a, name in spec.eqs.items():
        k = poly.subst(c, {a: 0}) if isinstance(c, P) else c
        if not (isinstance(k, int) and k == 0):
            lost.append(name)
    if lost:
        raise Fail('accepts although these may be violated: %s' % '; '.join(lost[:6]))
    if exact:
        k = poly.subst(c, dict([(a, 1) for a in spec.eqs] + [(a, 0) for a in spec.nz])) if isinstance(c, P) else c
        if not (isinstance(k, int) and k == 1):
            raise Fail('rejects although all prescribed relations hold: also requires %s' % '; '.join(describe(a) for a in list(atoms_in(k))[:4]))
    return len(spec.eqs)

"""mont_params, the program the Montgomery constants come from: constant propagation through its main function, with
big integers as integers, gives the words it prints; they must be the defining values."""
import re
import mir, poly, absint
from absint import S, E, R, Interp, Str
from vc import Fail
from fields import P_SECP

class Big(absint.Dom):
    __slots__ = ('n',)
    def __init__(self, n):
        self.n = n
    def __repr__(self):
        return 'Big(%d)' % self.n

def num(it, v):
    while isinstance(v, R):
        v = it.load(v)
    if isinstance(v, Big):
        return v.n
    if isinstance(v, int):
        return v
    raise poly.Unsupported('not a known integer')

def some(it, ok, v=None):
    return it.some(v) if ok else it.none()

BIN = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'bitand': lambda a, b: a & b,
       'bitor': lambda a, b: a | b, 'bitxor': lambda a, b: a ^ b, 'shr': lambda a, b: a >> b, 'shl': lambda a, b: a << b,
       'div': lambda a, b: abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1), 'rem': lambda a, b: abs(a) % abs(b) * (-1 if a < 0 else 1),
       'pow': lambda a, b: a ** b, 'div_floor': lambda a, b: a // b, 'mod_floor': lambda a, b: a % b}

def big(it, a, f):
    n = f['n'] or f['d']
    m = n.split('::<')[0] if n.endswith('>') and not n.startswith('<') else n
    m = re.sub(r'::<[^<>]*>$', '', n).rsplit('::', 1)[-1]
    unsigned = 'BigUint' in n.split(' as ')[0]
    if m in ('clone', 'to_owned', 'deref', 'borrow', 'as_ref'):
        return a[0] if m in ('deref', 'borrow', 'as_ref') else Big(num(it, a[0]))
    if m in ('from_bytes_be', 'from_bytes_le'):
        xs = it.items(a[-1])
        if any(not isinstance(x, int) for x in xs):
            raise poly.Unsupported('unknown bytes')
        return Big(int.from_bytes(bytes(xs), m[-2:].replace('be', 'big').replace('le', 'little')))
    if re.match(r'from_[ui](\d+|size)$', m):
        k = num(it, a[0])
        w = {'size': 64}.get(m[6:]) or int(m[6:])
        if m[5] == 'i' and k >= 1 << (w - 1):
            k -= 1 << w
        return some(it, not (unsigned and k < 0), Big(k))
    if m in ('from', 'into') and len(a) == 1:
        return Big(num(it, a[0]))
    if m == 'one':
        return Big(1)
    if m == 'zero':
        return Big(0)
    if m == 'modpow':
        b, e, q = (num(it, x) for x in a)
        return Big(pow(b, e, q))
    if m == 'mod_inverse':
        b, q = num(it, a[0]), num(it, a[1])
        try:
            return some(it, True, Big(pow(b, -1, q)))
        except ValueError:
            return some(it, False)
    if m == 'neg':
        return Big(-num(it, a[0]))
    if m == 'to_bigint':
        return some(it, True, Big(num(it, a[0])))
    if m == 'to_biguint':
        return some(it, num(it, a[0]) >= 0, Big(num(it, a[0])))
    g = re.match(r'to_u(\d+|size)$', m)
    if g:
        w = 64 if g.group(1) == 'size' else int(g.group(1))
        k = num(it, a[0])
        return some(it, 0 <= k < 1 << w, k)
    if m in ('to_bytes_le', 'to_bytes_be'):
        k = num(it, a[0])
        bs = list(k.to_bytes(max(1, (k.bit_length() + 7) // 8), 'little'))
        return S('vec', tuple(bs if m.endswith('le') else bs[::-1]))
    if m in ('bits', 'bit_length'):
        return num(it, a[0]).bit_length()
    base = m[:-7] if m.endswith('_assign') else m
    if base in BIN and len(a) == 2:
        x, y = num(it, a[0]), num(it, a[1])
        r = BIN[base](x, y)
        if unsigned and r < 0:
            raise absint.Diverge('subtraction below zero')
        if m.endswith('_assign'):
            r0 = a[0]
            while isinstance(it.load(r0), R):
                r0 = it.load(r0)
            it.store(r0, Big(r))
            return absint.UNIT
        return Big(r)
    cmp = {'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y, 'lt': lambda x, y: x < y, 'le': lambda x, y: x <= y, 'gt': lambda x, y: x > y,
           'ge': lambda x, y: x >= y}.get(m)
    if cmp:
        return int(cmp(num(it, a[0]), num(it, a[1])))
    if m == 'is_zero':
        return int(num(it, a[0]) == 0)
    return NotImplemented

class Text(absint.Dom):
    """Text made of literal pieces and numbers."""
    __slots__ = ('parts',)
    def __init__(self, parts):
        self.parts = tuple(parts)

def printed(q, main):
    log = []
    it = Interp(q)
    ov = it.overrides
    def names():
        import json
        for k, b in q.bodies.items():
            bs = b if isinstance(b, dict) else getattr(b, 'raw', None)
            yield k, bs
    class All(dict):
        def get(self, k, d=None):
            o = dict.get(self, k, d)
            if o is None and isinstance(k, str) and ('num_bigint' in k or 'BigUint' in k or 'BigInt' in k):
                if not re.match(r'^(<?[\w:]*Option|<?[\w:]*Vec|<?core|<?std)', k):
                    return big
            return o
    it.overrides = ov = All(ov)
    def txt(it, v):
        while isinstance(v, R):
            v = it.load(v)
        if isinstance(v, Text):
            return v.parts
        if isinstance(v, Str):
            return (v.s,)
        if isinstance(v, Big):
            return (v.n,)
        if isinstance(v, int):
            return (v,)
        return ('?',)
    def arg(it, a, f):
        return Text(txt(it, a[0]))
    for k in ('display', 'debug', 'lower_hex', 'upper_hex', 'pointer', 'lower_exp', 'binary', 'octal'):
        ov['Argument::new_' + k] = arg
    def template(it, v):
        while isinstance(v, R):
            v = it.load(v)
        if isinstance(v, Str):
            return v.s
        if isinstance(v, S):
            if all(isinstance(x, int) for x in v.f):
                return ''.join(chr(x) if 32 <= x < 127 else '' for x in v.f)
            return ' '.join(template(it, x) for x in v.f)
        return ''
    def args(it, a, f):
        lit = template(it, a[0]) if a else ''
        ps = [lit]
        for x in a[1:]:
            while isinstance(x, R):
                x = it.load(x) if not isinstance(it.load(x), S) else x
                if isinstance(x, R) and isinstance(it.load(x), S):
                    break
            for y in (it.items(x) if isinstance(x, R) else ()):
                ps += txt(it, y)
        return Text(ps)
    ov['Arguments::new'] = ov['Arguments::from_str'] = ov['Arguments::new_const'] = ov['Arguments::new_v1'] = args
    ov['fmt::format'] = lambda it, a, f: Text(txt(it, a[0]))
    tos = lambda it, a, f: Text(txt(it, a[0]))
    for k in ('ToString::to_string', 'String::from'):
        ov[k] = tos
    def pr(it, a, f):
        log.append(txt(it, a[0]))
        return absint.UNIT
    for k in ('io::_print', 'stdio::_print'):
        ov[k] = pr
    it.callfn(main, [])
    if it.panics:
        raise Fail('may panic')
    return log

def check(c):
    F = 'packages/Spartan-secq/src/bin/mont_params.rs main'
    p = P_SECP
    want = {'Modulus': p, 'R': 2**256 % p, 'R2': 2**512 % p, 'R3': 2**768 % p, 'INV': -pow(p, -1, 2**64) % 2**64}
    def ob():
        q = mir.prog('mont_params')
        have, cur = {}, None
        for parts in printed(q, 'mont_params::main'):
            for x in parts:
                if isinstance(x, int):
                    if cur is None:
                        raise Fail('a number is printed under no name')
                    have[cur].append(x)
                    continue
                g = re.findall(r'\b(Modulus|MODULUS|R3|R2|R|INV)\b', x)
                if g:
                    cur = 'Modulus' if g[-1] == 'MODULUS' else g[-1]
                    have.setdefault(cur, [])
        for k, n in want.items():
            ws = have.get(k)
            if not ws:
                raise Fail('%s is not printed' % k)
            v = sum(w << (64 * i) for i, w in enumerate(ws))
            if v != n:
                raise Fail('%s is printed as %s, not %s' % (k, hex(v), hex(n)))
        return ', '.join(want)
    c.ob('generator/mont_params', F, ob)

"""Contracts of the JavaScript built-ins and of the packages the client uses."""
from tsint import *
import tsint, tseval

def nat(fn, name=''): return Native(fn, name)
def ctor(name, new, call=None, **props):
    f = Native(call or (lambda this, a: undecided('%s called without new' % name)), name)
    f.props['new'] = new
    f.props.update({k: nat(v, k) if callable(v) and not isinstance(v, Native) else v for k, v in props.items()})
    return f
def arg(a, i, d=UNDEF): return a[i] if i < len(a) and a[i] is not UNDEF else d
def cint(v):
    if isinstance(v, bool): return int(v)
    if isinstance(v, int): return v
    if isinstance(v, float) and v == int(v): return int(v)
    undecided('a position or size that is not a constant')
def blen(v):
    """length of a byte string as a polynomial"""
    return padd(pc(v.n), pa('len', v.tail)) if v.tail is not None else pc(v.n)
def mknum(p):
    c = pconst(p)
    return c if c is not None else Num(p)

# ---- byte strings -------------------------------------------------------------------------------------
def alloc(v, buf=False):
    if isinstance(v, Num):
        ts = [(m, c) for m, c in v.p.items() if m]
        if len(ts) == 1 and ts[0][1] == 1 and len(ts[0][0]) == 1 and tsint._atoms[ts[0][0][0]][0] == 'len':
            t = tsint._atoms[ts[0][0][0]][1]
            return Bytes([0] * v.p.get((), 0), ('zero', t), buf) if v.p.get((), 0) >= 0 else undecided('negative size')
        undecided('allocation of an unknown size')
    n = cint(v)
    if n < 0: raise err('RangeError', 'size')
    return Bytes([0] * n, None, buf)
def tobytes(xs):
    d = Bytes([0] * len(xs))
    return d
def from_items(w, xs, buf=False):
    d = Bytes([0] * len(xs), None, buf)
    for i, x in enumerate(xs): w.set(d, i, x)
    return d
def new_u8(w):
    def f(a):
        v = arg(a, 0, 0)
        if isinstance(v, (int, float, Num)): return alloc(v)
        if isinstance(v, Bytes):
            if len(a) > 1 and getattr(v, 'ab', False): return view(v, cint(a[1]), cint(a[1]) + cint(a[2]) if len(a) > 2 else None, False)
            if getattr(v, 'ab', False): return Bytes([], v.tail, False, v.s, v.off, v.n)
            return Bytes(v.b, v.tail)
        if isinstance(v, Arr): return from_items(w, v.xs)
        undecided('Uint8Array of %s' % type(v).__name__)
    return f
def view(o, a, b, buf):
    """the window [a, b) of o, sharing its storage; b is None for the end"""
    n = o.n
    if a < 0 or b is not None and b < 0:
        if o.tail is not None: undecided('position from the end of a byte string of unknown length')
        a = max(0, a + n) if a < 0 else a
        b = b + n if b is not None and b < 0 else b
    if o.tail is not None:
        if a > n: undecided('position inside a part of unknown length')
        if b is None: return Bytes([], o.tail, buf, o.s, o.off + a, n - a)
        if b > n: raise Fail('a byte string of any length is cut at byte %d' % b)
        return Bytes([], None, buf, o.s, o.off + a, max(0, b - a))
    a = min(a, n); b = n if b is None else min(b, n)
    return Bytes([], None, buf, o.s, o.off + a, max(0, b - a))
def lenpos(o, v, d):
    """a position argument; the full length of o counts as the end"""
    if v is UNDEF: return d
    if isinstance(v, Num):
        if padd(v.p, blen(o), -1) == {}: return None
        undecided('position that is not a constant')
    return cint(v)
def decode_hex(w, s, buf):
    """Buffer.from(s, 'hex')"""
    if isinstance(s, str):
        n = 0
        while n + 2 <= len(s) and all(c in '0123456789abcdefABCDEF' for c in s[n:n + 2]): n += 2
        return Bytes(list(bytes.fromhex(s[:n])), None, buf)
    out, tail = [], None
    ps = list(s.ps)
    for i, p in enumerate(ps):
        if tail is not None: undecided('text after a part of unknown length')
        if isinstance(p, str):
            if i == 0 and p.startswith('0x'): return Bytes([], None, buf)          # decoding stops at the first bad digit
            if len(p) % 2 or any(c not in '0123456789abcdefABCDEF' for c in p): undecided('hex text that is not aligned')
            out += list(bytes.fromhex(p))
        elif p[0] == 'hexb': out += list(p[1]); tail = p[2]
        elif p[0] == 'hexpad':
            v = dict(p[1])
            if p[2] % 2: raise Fail('a value is padded to an odd number of hex digits')
            out += be(v, p[2] // 2)
        elif p[0] == 'hex': raise Fail('the number of hex digits of an encoded value depends on the value')
        else: undecided('decoding of %s text' % p[0])
    return Bytes(out, tail, buf)
def buf_from(w):
    def f(this, a):
        v, enc = arg(a, 0), arg(a, 1, 'utf8')
        if isinstance(v, Bytes):
            if getattr(v, 'ab', False): return Bytes([], v.tail, True, v.s, v.off, v.n)
            return Bytes(v.b, v.tail, True)
        if isinstance(v, Arr): return from_items(w, v.xs, True)
        if isinstance(v, (str, Str)):
            if enc == 'hex': return decode_hex(w, v, True)
            if enc in ('utf8', 'utf-8') and isinstance(v, str): return Bytes(list(v.encode()), None, True)
            undecided('Buffer.from text in encoding %s' % enc)
        raise err('TypeError', 'Buffer.from')
    return f
def concat(w, a):
    xs = a[0].xs
    b, t = [], None
    for v in xs:
        if not isinstance(v, Bytes): raise err('TypeError', 'concat')
        if t is not None and v.n: undecided('bytes after a part of unknown length')
        b += v.b
        if v.tail is not None:
            if t is not None: undecided('two parts of unknown length')
            t = v.tail
    if len(a) > 1 and a[1] is not UNDEF:
        n = cint(a[1])
        if t is not None: undecided('concat with a length')
        b = (b + [0] * n)[:n]
    return Bytes(b, t, True)
def bytes_prop(w, o, n, node):
    if isinstance(n, int):
        if 0 <= n < o.n:
            b = o.s.b[o.off + n]
            return b if isinstance(b, int) else Num(pbyte(b))
        if o.tail is not None: undecided('index inside a part of unknown length', node)
        return UNDEF
    if n in ('length', 'byteLength'): return mknum(blen(o))
    if n == 'buffer':
        r = Bytes([], o.tail, False, o.s, o.off, o.n); r.ab = True
        return r
    if n == 'byteOffset': return 0
    def m(f): return nat(lambda this, a: f(a), n)
    if n == 'slice':
        def f(a):
            v = view(o, lenpos(o, arg(a, 0), 0) if arg(a, 0) is not UNDEF else 0, lenpos(o, arg(a, 1), None), o.buf)
            return v if o.buf else Bytes(v.b, v.tail)
        return m(f)
    if n == 'subarray': return m(lambda a: view(o, lenpos(o, arg(a, 0), 0), lenpos(o, arg(a, 1), None), o.buf))
    if n == 'set':
        def f(a):
            src, off = arg(a, 0), arg(a, 1, 0)
            if isinstance(off, Num): undecided('offset that is not a constant', node)
            off = cint(off)
            if isinstance(src, Arr): src = from_items(w, src.xs)
            if not isinstance(src, Bytes): raise err('TypeError', 'set')
            if off < 0: raise err('RangeError', 'offset')
            if src.tail is not None:
                if o.tail is None or o.tail[1:] != (src.tail,) and o.tail != src.tail: raise err('RangeError', 'a part of unknown length is stored in a field of fixed length')
                if off + src.n != o.n: raise Fail('a part of unknown length is stored at offset %d of a string with %d leading bytes' % (off, o.n - src.n))
            elif off + src.n > o.n:
                if o.tail is not None: undecided('write into a part of unknown length', node)
                raise err('RangeError', 'offset is out of bounds')
            b = list(src.b)
            for i, x in enumerate(b): o.put(off + i, x)
            if src.tail is not None: o.tail = src.tail
            return UNDEF
        return m(f)
    if n == 'copy':
        def f(a):
            t, off = a[0], cint(arg(a, 1, 0))
            src = view(o, lenpos(o, arg(a, 2), 0), lenpos(o, arg(a, 3), None), False)
            if src.tail is not None or t.tail is not None: undecided('copy of a part of unknown length', node)
            b = list(src.b)[:max(0, t.n - off)]
            for i, x in enumerate(b): t.put(off + i, x)
            return len(b)
        return m(f)
    if n in ('reverse', 'toReversed'):
        def f(a):
            if o.tail is not None: undecided('reversal of a byte string of unknown length', node)
            b = o.b[::-1]
            if n == 'toReversed': return Bytes(b, None, False)
            for i, x in enumerate(b): o.put(i, x)
            return o
        return m(f)
    if n == 'fill':
        def f(a):
            if o.tail is not None: undecided('fill', node)
            v = arg(a, 0, 0)
            for i in range(cint(arg(a, 1, 0)), min(o.n, cint(arg(a, 2, o.n)))): w.set(o, i, v)
            return o
        return m(f)
    if n == 'toString':
        def f(a):
            e = arg(a, 0, 'utf8')
            if not o.buf: undecided('text of a Uint8Array', node)
            if e == 'hex':
                r = Str([('hexb', tuple(o.b), o.tail)])
                lo, hi = arg(a, 1, 0), arg(a, 2)
                if lo != 0 or hi is not UNDEF: v = view(o, cint(lo), lenpos(o, hi, None), False); r = Str([('hexb', tuple(v.b), v.tail)])
                return mkstr(r.ps)
            undecided('text encoding %s' % e, node)
        return m(f)
    if n == 'equals':
        def f(a):
            v = a[0]
            if tuple(o.b) == tuple(v.b) and o.tail == v.tail: return True
            if o.n != v.n and o.tail is None and v.tail is None: return False
            if o.n == v.n and o.tail == v.tail:                       # field by field
                i, x, y = 0, o.b, v.b
                while i < len(x):
                    if x[i] == y[i]: i += 1; continue
                    k = next((q[2] for q in (x[i], y[i]) if isinstance(q, tuple) and q[0] == 'be' and q[3] == 0), 1)
                    if not w.truthy(w.peq(int_of(x[i:i + k]), int_of(y[i:i + k]))): return False
                    i += k
                return True
            return Sym('byteseq', *sorted([(tuple(o.b), o.tail), (tuple(v.b), v.tail)], key=repr))
        return m(f)
    if n in ('map', 'forEach', 'reduce', 'reduceRight', 'every', 'some', 'join', 'at', 'entries', 'indexOf', 'includes', 'filter'):
        if o.tail is not None: undecided('iteration over a byte string of unknown length', node)
        xs = Arr([x if isinstance(x, int) else Num(pbyte(x)) for x in o.b])
        f = arr_prop(w, xs, n, node)
        if n in ('map', 'filter'): return m(lambda a: from_items(w, w.call(f, a, xs).xs, o.buf))
        return m(lambda a: w.call(f, a, xs))
    if n in ('readUInt8', 'readUint8'): return m(lambda a: bytes_prop(w, o, cint(arg(a, 0, 0)), node))
    if n == 'writeUInt8': return m(lambda a: (w.set(o, cint(arg(a, 1, 0)), a[0]), cint(arg(a, 1, 0)) + 1)[1])
    undecided('member %s of a byte string' % n, node)

# ---- strings ---------------------------------------------------------------------------------------------
def slen(s):
    r = {}
    for p in Str([s] if isinstance(s, str) else s.ps).ps:
        if isinstance(p, str): r = padd(r, pc(len(p)))
        elif p[0] == 'hexb': r = padd(r, padd(pc(2 * len(p[1])), {(atom('len', p[2]),): 2} if p[2] is not None else {}))
        elif p[0] == 'hexpad' and width(dict(p[1])) and width(dict(p[1])) * 2 <= p[2]: r = padd(r, pc(p[2]))
        elif p[0] in ('hex', 'dec', 'text'): r = padd(r, pa('strlen', p))
        else: undecided('length of text')
    return r
def cut(s, a, b):
    """characters [a, b) of s; b None: to the end"""
    if isinstance(s, str): return s[a:b] if b is None or b > a else ''
    out, pos = [], 0
    for p in s.ps:
        if b is not None and pos >= b: return mkstr(out)
        if isinstance(p, str): n = len(p)
        elif p[0] == 'hexb' and p[2] is None: n = 2 * len(p[1])
        elif p[0] == 'hexb':
            n = None
        elif p[0] == 'hexpad' and width(dict(p[1])) and width(dict(p[1])) * 2 <= p[2] and p[2] % 2 == 0:
            p = ('hexb', tuple(be(dict(p[1]), p[2] // 2)), None); n = p[2] and 2 * len(p[1]) if False else 2 * len(p[1])
        else: undecided('part of text of unknown length')
        lo = max(0, a - pos)
        if isinstance(p, str): out.append(p[lo:None if b is None else b - pos])
        elif n is None:
            k = len(p[1])
            if lo % 2 or lo // 2 > k: undecided('part of text of unknown length')
            if b is None: out.append(('hexb', p[1][lo // 2:], p[2]))
            elif (b - pos) % 2 or (b - pos) // 2 > k: raise Fail('text of any length is cut at a fixed position')
            else: out.append(('hexb', p[1][lo // 2:(b - pos) // 2], None)); return mkstr(out)
            pos = None
            return mkstr(out)
        else:
            hi = n if b is None else min(n, b - pos)
            if lo < hi:
                if lo % 2 or hi % 2: raise Fail('hex text is cut in the middle of a byte')
                out.append(('hexb', p[1][lo // 2:hi // 2], None))
        pos += n
    return mkstr(out)
def str_prop(w, s, n, node):
    def m(f): return nat(lambda this, a: f(a), n)
    if n == 'length': return mknum(slen(s))
    if isinstance(n, int):
        if isinstance(s, str): return s[n] if 0 <= n < len(s) else UNDEF
        return cut(s, n, n + 1)
    if n in ('slice', 'substring', 'substr'):
        def f(a):
            lo, hi = cint(arg(a, 0, 0)), arg(a, 1)
            hi = None if hi is UNDEF else cint(hi)
            if n == 'substr' and hi is not None: hi = lo + hi
            if lo < 0 or hi is not None and hi < 0:
                c = pconst(slen(s))
                if c is None: undecided('position from the end of text', node)
                lo = max(0, lo + c) if lo < 0 else lo
                hi = hi + c if hi is not None and hi < 0 else hi
            return cut(s, lo, hi)
        return m(f)
    if n in ('padStart', 'padEnd'):
        def f(a):
            k, ch = cint(a[0]), arg(a, 1, ' ')
            if isinstance(s, str): return s.rjust(k, ch) if n == 'padStart' else s.ljust(k, ch)
            c = None
            try: c = pconst(slen(s))
            except Fail: pass
            if c is not None:
                if c >= k: return s
                return mkstr([ch * (k - c)] + list(s.ps)) if n == 'padStart' else mkstr(list(s.ps) + [ch * (k - c)])
            if n == 'padStart' and ch == '0' and len(s.ps) == 1 and s.ps[0][0] == 'hex':
                wd = width(dict(s.ps[0][1]))
                if wd is not None and k < 2 * wd: raise Fail('a value of up to %d hex digits is padded to %d: its encoding does not have a fixed width' % (2 * wd, k))
                return Str([('hexpad', s.ps[0][1], k)])
            raise Fail('padding of a value yields text whose length or digits depend on the value')
        return m(f)
    if n == 'toString': return m(lambda a: s)
    if n == 'concat': return m(lambda a: mkstr(list(Str([s] if isinstance(s, str) else s.ps).ps) + [q for v in a for q in (lambda t: [t] if isinstance(t, str) else list(t.ps))(w.tostr(v))]))
    if n == 'startsWith':
        def f(a):
            if isinstance(s, str): return s.startswith(a[0])
            p = s.ps[0]
            if isinstance(p, str) and len(p) >= len(a[0]): return p.startswith(a[0])
            if isinstance(p, tuple) and p[0] in ('hexb', 'hex', 'hexpad', 'dec') and any(c not in '0123456789abcdef' for c in a[0][:1 + (p[0] != 'hex')]): return False
            return Sym('startsWith', s.ps, a[0])
        return m(f)
    if n in ('toLowerCase', 'toUpperCase', 'trim') :
        def f(a):
            if isinstance(s, str): return {'toLowerCase': s.lower, 'toUpperCase': s.upper, 'trim': s.strip}[n]()
            if n == 'toUpperCase': undecided('upper case text', node)
            return s
        return m(f)
    if n in ('match', 'replace', 'split', 'includes', 'charCodeAt', 'indexOf', 'endsWith', 'repeat'):
        if isinstance(s, str):
            if n == 'repeat': return m(lambda a: s * cint(a[0]))
            if n == 'includes': return m(lambda a: a[0] in s)
            if n == 'endsWith': return m(lambda a: s.endswith(a[0]))
            if n == 'indexOf': return m(lambda a: s.find(a[0]))
            if n == 'split': return m(lambda a: Arr(s.split(a[0]) if a[0] else list(s)))
        undecided('%s on text' % n, node)
    if n in ('constructor', 'toJSON'): return UNDEF
    return UNDEF

def bigint_of(w, v):
    if isinstance(v, Big): return v
    if isinstance(v, bool): return Big(pc(int(v)))
    if isinstance(v, int): return Big(pc(v))
    if isinstance(v, float): raise err('RangeError', 'BigInt')
    if isinstance(v, Num): return Big(v.p)
    if isinstance(v, Sym): return Big(pc(int(w.truthy(v))))
    if v is UNDEF or v is None: raise err('TypeError', 'BigInt')
    if isinstance(v, BN): v = bn_text(v, 10)
    if isinstance(v, str):
        t = v.strip()
        try: return Big(pc(0 if t == '' else int(t, 0 if t[:2].lower() in ('0x', '0b', '0o') else 10)))
        except ValueError: raise err('SyntaxError', 'BigInt')
    if isinstance(v, Str):
        ps = v.ps
        if len(ps) == 1 and ps[0][0] == 'dec': return Big(dict(ps[0][1]))
        if isinstance(ps[0], str) and ps[0].lower() == '0x' and len(ps) == 2:
            p = ps[1]
            if p[0] == 'hexb':
                if not p[1]: w.maythrow('empty', p)
                return Big(int_of(p[1], p[2]))
            if p[0] in ('hex', 'hexpad'): return Big(dict(p[1]))
        if isinstance(ps[0], str) and ps[0][:2].lower() == '0x' and all(isinstance(p, str) and len(p) % 2 == 0 or isinstance(p, tuple) and p[0] == 'hexb' for p in ps):
            bs, t = [], None
            for i, p in enumerate(ps):
                if t is not None: undecided('number text')
                if isinstance(p, str): bs += list(bytes.fromhex(p[2:] if i == 0 else p))
                else: bs += p[1]; t = p[2]
            return Big(int_of(bs, t))
        # text that is not known to be a numeral of that form
        w.maythrow('numeral', ps)
        return Big(pa('parsed', ps))
    undecided('BigInt of %s' % type(v).__name__)

# ---- numbers ---------------------------------------------------------------------------------------------
def big_prop(w, v, n, node):
    if n == 'toString':
        def f(this, a):
            r = cint(arg(a, 0, 10)); c = pconst(v.p)
            if c is not None:
                if r == 10: return str(c)
                if r == 16: return ('-' if c < 0 else '') + '%x' % abs(c)
                undecided('radix', node)
            if r in (10, 16): return Str([('dec' if r == 10 else 'hex', pk(v.p))])
            undecided('radix', node)
        return nat(f, n)
    if n == 'valueOf': return nat(lambda this, a: v)
    return UNDEF
def num_prop(w, v, n, node):
    if n == 'toString':
        def f(this, a):
            r = cint(arg(a, 0, 10))
            if isinstance(v, Num): return Str([('dec' if r == 10 else 'hex', pk(v.p))]) if r in (10, 16) else undecided('radix', node)
            return w.tostr(v) if r == 10 else '%x' % v if r == 16 and isinstance(v, int) and v >= 0 else undecided('radix', node)
        return nat(f, n)
    return UNDEF
def to_number(w, v):
    if isinstance(v, bool): return int(v)
    if isinstance(v, (int, float, Num)): return v
    if isinstance(v, Big):
        c = pconst(v.p)
        if c is not None: return c if abs(c) < 2 ** 53 else undecided('number of a large integer')
        wd = width(canon(v.p))
        if wd is not None and wd <= 6: return Num(v.p)
        undecided('a value of unknown size is turned into a number')
    if isinstance(v, str):
        try: return int(v, 0) if v else 0
        except ValueError: undecided('number of text')
    undecided('number of %s' % type(v).__name__)

# ---- arrays, objects, functions --------------------------------------------------------------------------
def arr_prop(w, o, n, node):
    if isinstance(n, int): return o.xs[n] if 0 <= n < len(o.xs) else UNDEF
    if n == 'length': return len(o.xs)
    def m(f): return nat(lambda this, a: f(a), n)
    C = lambda f, *a: w.call(f, list(a))
    xs = o.xs
    E = lambda: list(enumerate(list(xs)))
    if n == 'map': return m(lambda a: Arr([C(a[0], x, i, o) for i, x in E()]))
    if n == 'forEach': return m(lambda a: ([C(a[0], x, i, o) for i, x in E()], UNDEF)[1])
    if n == 'filter': return m(lambda a: Arr([x for i, x in E() if w.truthy(C(a[0], x, i, o))]))
    if n == 'every':
        def f(a):
            for i, x in E():
                if not w.truthy(C(a[0], x, i, o)): return False
            return True
        return m(f)
    if n == 'some':
        def f(a):
            for i, x in E():
                if w.truthy(C(a[0], x, i, o)): return True
            return False
        return m(f)
    if n == 'find':
        def f(a):
            for i, x in E():
                if w.truthy(C(a[0], x, i, o)): return x
            return UNDEF
        return m(f)
    if n in ('reduce', 'reduceRight'):
        def f(a):
            ys = E()
            if n == 'reduceRight': ys.reverse()
            if len(a) > 1: acc = a[1]
            else:
                if not ys: raise err('TypeError', 'reduce')
                acc = ys.pop(0)[1]
            for i, x in ys: acc = C(a[0], acc, x, i, o)
            return acc
        return m(f)
    if n == 'push': return m(lambda a: (xs.extend(a), len(xs))[1])
    if n == 'pop': return m(lambda a: xs.pop() if xs else UNDEF)
    if n == 'shift': return m(lambda a: xs.pop(0) if xs else UNDEF)
    if n == 'unshift': return m(lambda a: (xs.__setitem__(slice(0, 0), a), len(xs))[1])
    if n == 'slice':
        return m(lambda a: Arr(xs[cint(arg(a, 0, 0)):None if arg(a, 1) is UNDEF else cint(a[1])]))
    if n == 'concat': return m(lambda a: Arr(list(xs) + [y for v in a for y in (v.xs if isinstance(v, Arr) else [v])]))
    if n in ('reverse', 'toReversed'):
        def f(a):
            if n == 'toReversed': return Arr(xs[::-1])
            xs.reverse(); return o
        return m(f)
    if n == 'fill':
        def f(a):
            for i in range(cint(arg(a, 1, 0)), cint(arg(a, 2, len(xs)))): xs[i] = a[0]
            return o
        return m(f)
    if n == 'flat':
        return m(lambda a: Arr([y for x in xs for y in (x.xs if isinstance(x, Arr) else [x])]))
    if n == 'flatMap': return m(lambda a: Arr([y for i, x in E() for q in [C(a[0], x, i, o)] for y in (q.xs if isinstance(q, Arr) else [q])]))
    if n == 'at': return m(lambda a: xs[cint(a[0])] if -len(xs) <= cint(a[0]) < len(xs) else UNDEF)
    if n == 'entries': return m(lambda a: Arr([Arr([i, x]) for i, x in E()]))
    if n == 'keys': return m(lambda a: Arr(range(len(xs))))
    if n == 'values': return m(lambda a: Arr(xs))
    if n in ('includes', 'indexOf'):
        def f(a):
            for i, x in E():
                if w.truthy(w.eq(x, a[0])): return True if n == 'includes' else i
            return False if n == 'includes' else -1
        return m(f)
    if n == 'join':
        def f(a):
            sep = arg(a, 0, ','); ps = []
            for i, x in E():
                if i: ps.append(sep)
                s = '' if x is UNDEF or x is None else w.tostr(x); ps += [s] if isinstance(s, str) else list(s.ps)
            return mkstr(ps)
        return m(f)
    undecided('member %s of an array' % n, node)

def objprop(w, o, n):
    if o.tag in ('Map', 'Set') and hasattr(o, 'kv'): return map_prop(w, o, n, None)
    if o.cls is None and o.tag is None and n == 'hasOwnProperty': return nat(lambda this, a: a[0] in o.props)
    return None

def promise_prop(w, v, n):
    def then(this, a):
        ok, bad = arg(a, 0), arg(a, 1)
        f = ok if v.ok else bad
        if f is UNDEF or f is None: return v
        try: r = w.call(f, [v.v])
        except Throw as t: return Promise(False, t.v)
        return r if isinstance(r, Promise) else Promise(True, r)
    if n == 'then': return nat(then)
    if n == 'catch': return nat(lambda this, a: then(this, [UNDEF] + a))
    if n == 'finally':
        def fin(this, a):
            try: w.call(a[0], [])
            except Throw as t: return Promise(False, t.v)
            return v
        return nat(fin)
    return UNDEF

def prop(w, o, n, node):
    if isinstance(o, Bytes): return bytes_prop(w, o, n, node)
    if isinstance(o, (str, Str)): return str_prop(w, o, n, node)
    if isinstance(o, Arr): return arr_prop(w, o, n, node)
    if isinstance(o, Big): return big_prop(w, o, n, node)
    if isinstance(o, (int, float, Num)) and not isinstance(o, bool): return num_prop(w, o, n, node)
    if isinstance(o, Promise): return promise_prop(w, o, n)
    if isinstance(o, BN): return bn_prop(w, o, n, node)
    if isinstance(o, Pt): return pt_prop(w, o, n, node)
    if isinstance(o, (Func, Native, Bound)):
        if n in getattr(o, 'props', {}): return o.props[n]
        if n == 'bind': return nat(lambda this, a: Bound(o, a[0]) if len(a) == 1 else undecided('bind with arguments', node))
        if n == 'call': return nat(lambda this, a: w.call(o, a[1:], arg(a, 0)))
        if n == 'apply': return nat(lambda this, a: w.call(o, a[1].xs, arg(a, 0)))
        return UNDEF
    if isinstance(o, (bool, Sym)): return UNDEF
    if isinstance(o, Opaque):
        if n == 'then': return UNDEF
        return Opaque('member', o.t, n)
    undecided('property %s of %s' % (n, type(o).__name__), node)

# ---- elliptic and bn.js ----------------------------------------------------------------------------------
def cancel(p):
    """r * r^-1 = 1 modulo the group order"""
    out = {}
    for m, c in p.items():
        ch = True
        m = list(m)
        while ch:
            ch = False
            for x in m:
                a = tsint._atoms[x]
                if a[0] == 'inv':
                    q = dict(a[1]); o = None
                    if len(q) == 1:
                        (k, d), = q.items()
                        if d == 1 and len(k) == 1: o = k[0]
                    if o is not None and o in m: m.remove(x); m.remove(o); ch = True; break
        m = tuple(m); v = (out.get(m, 0) + c) % N
        if v: out[m] = v
        else: out.pop(m, None)
    return out
def scal(b): return cancel(pmod(canon(b.p), N))
def mkbn(w, v, base=UNDEF, endian=UNDEF):
    if isinstance(v, BN): return v
    if isinstance(v, Bytes):
        if base == 'le' or endian == 'le':
            if v.tail is not None: undecided('little-endian integer of unknown length')
            return BN(int_of(v.b[::-1]))
        return BN(int_of(v.b, v.tail))
    if isinstance(v, Arr): return mkbn(w, from_items(w, v.xs), base, endian)
    if isinstance(v, bool): undecided('BN of a truth value')
    if isinstance(v, int):
        if abs(v) >= 2 ** 53: raise err('Error', 'BN of a large number')
        return BN(pc(v), nonneg=v >= 0)
    if isinstance(v, Num): return BN(v.p)
    if isinstance(v, Big): v = w.tostr(v) if pconst(v.p) is None or True else v
    b = 16 if base in ('hex', 16) else 10 if base is UNDEF or base == 10 else undecided('BN base')
    if isinstance(v, str):
        try: c = int(v.replace(' ', '') or '0', b)
        except ValueError: undecided('BN of a text that is not a numeral')
        return BN(pc(c), nonneg=c >= 0)
    if isinstance(v, Str) and len(v.ps) == 1:
        p = v.ps[0]
        if p[0] == 'dec' and b == 10: return BN(dict(p[1]))
        if p[0] in ('hex', 'hexpad') and b == 16: return BN(dict(p[1]))
        if p[0] == 'hexb' and b == 16: return BN(int_of(p[1], p[2]))
        if p[0] in ('dec', 'hex', 'hexpad', 'hexb'): raise Fail('a numeral in one base is read in another')
    if isinstance(v, Str) and b == 16 and all(isinstance(p, str) and len(p) % 2 == 0 or p[0] == 'hexb' for p in v.ps):
        d = decode_hex(w, v, True)
        return BN(int_of(d.b, d.tail))
    undecided('BN of %s' % type(v).__name__)
def exact(b):
    """the value of b as a polynomial"""
    if not b.modn: return b.p
    p = cancel(pmod(b.p, N))
    return p if pconst(p) is not None else pa('modn', pk(p))
def bn_text(b, radix, pad=0):
    if b.modn == 'loose': undecided('value known modulo the order only')
    p = canon(exact(b)); c = pconst(p)
    if c is not None: return (str(c) if radix == 10 else '%x' % c) if c >= 0 else undecided('negative')
    if radix == 10: return Str([('dec', pk(p))])
    if pad: return Str([('hexpad', pk(p), pad)]) if width(p) and 2 * width(p) <= pad else undecided('padded numeral')
    return Str([('hex', pk(p))])
def isN(b): return pconst(b.p) == N and not b.modn
def bn_prop(w, o, n, node):
    def m(f): return nat(lambda this, a: f(a), n)
    A = lambda a: a[0] if isinstance(a[0], BN) else undecided('%s with something that is not a BN' % n, node)
    loose = lambda x, y=None: 'loose' if x.modn or y is not None and y.modn else False
    if n in ('mul', 'imul'): return m(lambda a: BN(pmul(canon(o.p), canon(A(a).p)), loose(o, A(a)), o.nonneg and A(a).nonneg))
    if n in ('add', 'iadd'): return m(lambda a: BN(padd(canon(o.p), canon(A(a).p)), loose(o, A(a)), o.nonneg and A(a).nonneg))
    if n in ('sub', 'isub'):
        def f(a):
            b = A(a)
            nn = isN(o) and b.modn is True
            return BN(padd(canon(o.p), canon(b.p), -1), loose(o, b), nn)
        return m(f)
    if n in ('neg', 'ineg'): return m(lambda a: BN(padd({}, canon(o.p), -1), loose(o), not o.p))
    if n in ('umod', 'mod', 'modn', 'modrn'):
        def f(a):
            b = a[0]
            if not isinstance(b, BN) or not isN(b):
                # reduction modulo something else is a different value
                c, d = pconst(o.p), pconst(b.p) if isinstance(b, BN) else b if isinstance(b, int) else None
                if c is not None and d: return BN(pc(c % d)) if isinstance(b, BN) else c % d
                if o.modn == 'loose': undecided('modulus', node)
                r = pa('rem', pk(canon(exact(o))), d if d is not None else pk(b.p))
                return BN(r) if isinstance(b, BN) else Num(r)
            if n == 'mod' and not o.nonneg: return BN(pmod(o.p, N), 'loose', False)
            return BN(pmod(o.p, N), True, True)
        return m(f)
    if n in ('invm', '_invmp'):
        def f(a):
            if not isN(A(a)): return BN(pa('invmod', pk(exact(o)), pk(A(a).p)))
            s = scal(o)
            c = pconst(s)
            if c is not None: return BN(pc(pow(c, -1, N)) if c else {}, True)
            t = one(s)
            if t and t[0] == 'inv': return BN(dict(t[1]), True)
            if len(s) == 1:
                (mm, c), = s.items()
                if len(mm) == 1: return BN({(atom('inv', pk({mm: 1})),): pow(c, -1, N)}, True)
            return BN(pa('inv', pk(s)), True)
        return m(f)
    if n == 'toString':
        def f(a):
            b = arg(a, 0, 10)
            return bn_text(o, 16 if b in (16, 'hex') else 10 if b == 10 else undecided('radix', node), cint(arg(a, 1, 0)))
        return m(f)
    if n == 'toJSON': return m(lambda a: bn_text(o, 16))
    if n == 'clone': return m(lambda a: o)
    if n in ('toArray', 'toArrayLike', 'toBuffer'):
        def f(a):
            a = list(a); buf = True
            if n == 'toArrayLike': k = a.pop(0); buf = isinstance(k, Native) and k.name == 'Buffer'
            if o.modn == 'loose': undecided('bytes of a value known modulo the order only', node)
            if len(a) < 2: raise Fail('the length of an encoded value depends on the value')
            b = be(exact(o), cint(a[1]))
            if arg(a, 0, 'be') == 'le': b = b[::-1]
            return Bytes(b, None, buf) if n != 'toArray' else Arr([x if isinstance(x, int) else Num(pbyte(x)) for x in b])
        return m(f)
    if n == 'eq': return m(lambda a: w.peq(exact(o), exact(A(a))))
    if n in ('isZero', 'eqn'): return m(lambda a: w.peq(exact(o) if o.modn != 'loose' else undecided('value', node), pc(cint(arg(a, 0, 0)) if n == 'eqn' else 0)))
    if n in ('isOdd', 'isEven'):
        def f(a):
            c = pconst(o.p)
            if c is not None: return bool(c & 1) == (n == 'isOdd')
            s = Sym('odd', pk(exact(o)))
            return s if n == 'isOdd' else w.lnot(s)
        return m(f)
    if n in ('isNeg', 'cmp', 'lt', 'gt', 'gte', 'lte', 'ucmp', 'cmpn', 'ltn', 'gtn', 'gten', 'lten'):
        def f(a):
            if n == 'isNeg': return not o.nonneg if o.nonneg or pconst(o.p) is not None else Sym('neg', pk(o.p))
            b = pc(a[0]) if n.endswith('n') and n != 'isNeg' else A(a).p
            if o.modn == 'loose': undecided('comparison', node)
            x = exact(o)
            c, d = pconst(x), pconst(b)
            if c is not None and d is not None:
                return {'cmp': (c > d) - (c < d), 'cmpn': (c > d) - (c < d), 'lt': c < d, 'gt': c > d, 'gte': c >= d, 'lte': c <= d, 'ltn': c < d, 'gtn': c > d, 'gten': c >= d, 'lten': c <= d}[n]
            if n in ('cmp', 'cmpn'):
                if w.truthy(w.peq(x, b)): return 0
                return -1 if w.truthy(Sym('lt', pk(x), pk(b))) else 1
            k = n.rstrip('n') if n != 'isNeg' else n
            if k == 'lt': return Sym('lt', pk(x), pk(b))
            if k == 'gte': return w.lnot(Sym('lt', pk(x), pk(b)))
            if k == 'gt': return Sym('lt', pk(b), pk(x))
            return w.lnot(Sym('lt', pk(b), pk(x)))
        return m(f)
    if n in ('fromRed',): return m(lambda a: o)
    if n in ('bitLength', 'byteLength'): return m(lambda a: mknum(pa('bits', n, pk(exact(o)))))
    undecided('BN.%s' % n, node)

def coord(w, p, which):
    d = p.key()
    if len(d) == 1 and d[0][1] == (((), 1),) and isinstance(d[0][0], tuple) and d[0][0][0] == 'lift' and which == 'x':
        x = dict(d[0][0][1]); wd = width(x)
        # the x coordinate of the lift of x is x modulo the field characteristic
    return BN(pa('coord', which, d))
def pt_prop(w, o, n, node):
    def m(f): return nat(lambda this, a: f(a), n)
    if n == 'mul':
        def f(a):
            k = mkbn(w, a[0], 16) if not isinstance(a[0], BN) else a[0]
            if not k.nonneg: raise Fail('a point is multiplied by a scalar that may be negative')
            s = scal(k)
            return Pt({b: cancel(pmod(pmul(t, s), N)) for b, t in o.d.items()})
        return m(f)
    if n in ('add', 'mixedAdd'):
        return m(lambda a: ptadd(o, a[0]))
    if n == 'neg': return m(lambda a: Pt({b: pmod(padd({}, s, -1), N) for b, s in o.d.items()}))
    if n == 'dbl': return m(lambda a: ptadd(o, o))
    if n in ('mulAdd', 'jmulAdd'):
        def f(a):
            p = w.call(pt_prop(w, o, 'mul', node), [a[0]]); q = w.call(pt_prop(w, a[1], 'mul', node), [a[2]])
            return ptadd(p, q)
        return m(f)
    if n in ('getX', 'getY'):
        def f(a):
            if not o.d: raise err('TypeError', 'coordinate of the point at infinity')
            if not simple(o): w.maythrow('infinity', o.key())
            return coord(w, o, n[-1].lower())
        return m(f)
    if n in ('x', 'y'):
        b = coord(w, o, n); b.red = True
        return b
    if n in ('encode', 'encodeCompressed'):
        def f(a):
            if arg(a, 0) == 'hex': return Str([('enc', o.key())])
            return Opaque('enc', o.key())
        return m(f)
    if n == 'isInfinity': return m(lambda a: Sym('inf', o.key()) if o.d and not simple(o) else not o.d)
    if n in ('inf', 'infinity'): return Sym('inf', o.key()) if not simple(o) else False
    if n == 'eq': return m(lambda a: True if o.key() == a[0].key() else Sym('pteq', *sorted([o.key(), a[0].key()], key=repr)))
    if n == 'normalize': return m(lambda a: o)
    if n == 'validate': return m(lambda a: True)
    undecided('point.%s' % n, node)
def simple(o): return len(o.d) == 1 and all(s == pc(1) for s in o.d.values())
def ptadd(p, q):
    d = dict(p.d)
    for b, s in q.d.items(): d[b] = cancel(pmod(padd(d.get(b, {}), s), N))
    return Pt(d)
def frompt(w, v, enc=UNDEF):
    if isinstance(v, Pt): return v
    k = v.ps[0][1] if isinstance(v, Str) and len(v.ps) == 1 and v.ps[0][0] == 'enc' and enc == 'hex' else v.t[1] if isinstance(v, Opaque) and v.t[0] == 'enc' else None
    if k is not None: return Pt({b: dict(s) for b, s in k})
    if isinstance(v, Obj) and v.tag is None and 'x' in v.props: return bypoint(w, [mkbn(w, v.props['x'], 16), mkbn(w, v.props['y'], 16)])
    undecided('point from %s' % type(v).__name__)
def bypoint(w, a):
    """a point from its coordinates"""
    x, y = [one(canon(v.p)) if isinstance(v, BN) else None for v in (a[0], a[1])]
    if x and y and x[0] == y[0] == 'coord' and x[2] == y[2] and (x[1], y[1]) == ('x', 'y'): return Pt({b: dict(s) for b, s in x[2]})
    undecided('point from coordinates')
def curve(w):
    G = Pt({'G': pc(1)})
    n = BN(pc(N)); n.const = True
    def lift(this, a):
        x = a[0] if isinstance(a[0], BN) else mkbn(w, a[0], 16)
        odd = arg(a, 1, False)
        odd = w.truthy(odd)
        k = pk(canon(exact(x)))
        w.maythrow('no point', k)
        return Pt({('lift', k, odd): pc(1)})
    return Obj({'g': G, 'n': n, 'pointFromX': nat(lift), 'p': BN(pc(2 ** 256 - 2 ** 32 - 977)),
                'point': nat(lambda this, a: bypoint(w, a)),
                'decodePoint': nat(lambda this, a: frompt(w, a[0], arg(a, 1)))}, tag='curve')
def key(w, p):
    return Obj({'getPublic': nat(lambda this, a: p if not a else p if isinstance(a[0], bool) else w.call(pt_prop(w, p, 'encode', None), a[-1:])), 'pub': p}, tag='key')
def ec(w):
    def new(a):
        if a[0] != 'secp256k1': raise Fail('the curve is %s' % (a[0],))
        c = curve(w)
        return Obj({'curve': c, 'g': c.props['g'], 'n': c.props['n'],
                    'keyFromPublic': nat(lambda this, a: key(w, frompt(w, a[0], arg(a, 1))))}, tag='ec')
    return ctor('ec', new)

# ---- globals and packages ---------------------------------------------------------------------------------
def globalvar(w, n):
    g = w.__dict__.get('globals')
    if g is None: g = w.globals = mkglobals(w)
    if n == 'window' : return Opaque('window') if w.haswindow() else None
    return g.get(n)
def mkglobals(w):
    noop = nat(lambda this, a: UNDEF)
    class Console(Obj): pass
    g = {'undefined': UNDEF, 'NaN': float('nan'), 'Infinity': float('inf'),
         'console': Obj({k: noop for k in ('log', 'warn', 'error', 'info', 'time', 'timeEnd', 'debug', 'timeLog')}),
         'BigInt': nat(lambda this, a: bigint_of(w, a[0] if a else UNDEF), 'BigInt'),
         'Number': nat(lambda this, a: to_number(w, a[0] if a else 0), 'Number'),
         'String': nat(lambda this, a: w.tostr(a[0]) if a else '', 'String'),
         'Boolean': nat(lambda this, a: a[0] if a and isinstance(a[0], (bool, Sym)) else w.truthy(a[0]) if a else False, 'Boolean'),
         'Uint8Array': ctor('Uint8Array', new_u8(w), **{'from': lambda this, a: from_any(w, a), 'of': lambda this, a: from_items(w, a)}),
         'Buffer': ctor('Buffer', lambda a: undecided('new Buffer'), **{'from': buf_from(w), 'alloc': lambda this, a: alloc(a[0], True), 'allocUnsafe': lambda this, a: alloc(a[0], True),
                        'concat': lambda this, a: concat(w, a), 'isBuffer': lambda this, a: isinstance(a[0], Bytes) and a[0].buf, 'byteLength': lambda this, a: mknum(blen(a[0]))}),
         'Array': ctor('Array', lambda a: Arr([UNDEF] * cint(a[0])) if len(a) == 1 and isinstance(a[0], int) else Arr(a), **{'from': lambda this, a: arr_from(w, a), 'isArray': lambda this, a: isinstance(a[0], Arr), 'of': lambda this, a: Arr(a)}),
         'Object': ctor('Object', lambda a: Obj(), **{'keys': lambda this, a: Arr(It_keys(w, a[0])), 'values': lambda this, a: Arr([v for _, v in ents(w, a[0])]),
                        'entries': lambda this, a: Arr([Arr([str(k), v]) for k, v in ents(w, a[0])]), 'assign': lambda this, a: assign(w, a), 'freeze': lambda this, a: a[0],
                        'fromEntries': lambda this, a: Obj({e.xs[0]: e.xs[1] for e in a[0].xs})}),
         'Promise': ctor('Promise', lambda a: newpromise(w, a[0]), **{'resolve': lambda this, a: arg(a, 0) if isinstance(arg(a, 0), Promise) else Promise(True, arg(a, 0)), 'reject': lambda this, a: Promise(False, arg(a, 0)), 'all': lambda this, a: pall(w, a[0])}),
         'Math': Obj({'min': nat(lambda this, a: min(cint(x) for x in a)), 'max': nat(lambda this, a: max(cint(x) for x in a)), 'ceil': nat(lambda this, a: -int(-a[0] // 1)), 'floor': nat(lambda this, a: int(a[0] // 1))}),
         'fetch': nat(lambda this, a: fetch(w, a)),
         'Map': ctor('Map', lambda a: mkmap(w, 'Map', arg(a, 0))), 'Set': ctor('Set', lambda a: mkmap(w, 'Set', arg(a, 0))), 'WeakMap': ctor('WeakMap', lambda a: mkmap(w, 'Map', arg(a, 0))),
         'globalThis': Obj({}, tag='global'),
         'parseInt': nat(lambda this, a: int(a[0], cint(arg(a, 1, 10))) if isinstance(a[0], str) else undecided('parseInt of a symbolic value'))}
    for k in ('Error', 'TypeError', 'RangeError', 'SyntaxError'):
        mk = (lambda k: lambda a: Obj({'message': arg(a, 0, ''), 'name': k}, tag=k))(k)
        g[k] = ctor(k, mk, (lambda mk: lambda this, a: mk(a))(mk)); g[k].name = 'Error'
    g['BigInt'].props['asUintN'] = nat(lambda this, a: undecided('BigInt.asUintN'))
    return g
def mkmap(w, tag, init):
    o = Obj({}, tag=tag)
    o.kv = []
    if init is not UNDEF and init is not None:
        for e in tseval.It(w, None).iter(init, None): mapput(w, o, e.xs[0], e.xs[1]) if tag == 'Map' else mapput(w, o, e, e)
    return o
def mapfind(w, o, k):
    for e in o.kv:
        if e[0] is k or w.truthy(w.eq(e[0], k, True)): return e
    return None
def mapput(w, o, k, v):
    e = mapfind(w, o, k)
    if e is None: o.kv.append([k, v])
    else: e[1] = v
    return o
def map_prop(w, o, n, node):
    m = lambda f: nat(lambda this, a: f(a))
    S = o.tag == 'Set'
    item = (lambda e: e[0]) if S else (lambda e: Arr(list(e)))
    if n == 'size': return len(o.kv)
    if n == 'has': return m(lambda a: mapfind(w, o, a[0]) is not None)
    if n == 'get' and not S: return m(lambda a: (mapfind(w, o, a[0]) or [0, UNDEF])[1])
    if n == 'set' and not S: return m(lambda a: mapput(w, o, a[0], arg(a, 1)))
    if n == 'add' and S: return m(lambda a: mapput(w, o, a[0], a[0]))
    def rem(a):
        e = mapfind(w, o, a[0])
        if e is not None: o.kv.remove(e)
        return e is not None
    if n == 'delete': return m(rem)
    if n == 'clear': return m(lambda a: (o.kv.clear(), UNDEF)[1])
    if n in ('keys', 'values', 'entries'): return m(lambda a: Arr([e[0] if n == 'keys' or S and n == 'values' else e[1] if n == 'values' else Arr(list(e)) for e in o.kv]))
    if n == 'forEach': return m(lambda a: ([w.call(a[0], [e[1], e[0]]) for e in list(o.kv)], UNDEF)[1])
    undecided('%s of a %s' % (n, o.tag), node)
def from_any(w, a):
    v = a[0]
    if isinstance(v, Bytes) and len(a) == 1: return Bytes(v.b, v.tail)
    return from_items(w, arr_from(w, a).xs)
def arr_from(w, a):
    v = a[0]
    if isinstance(v, Obj) and 'length' in v.props: xs = [UNDEF] * cint(v.props['length'])
    else: xs = tseval.It(w, None).iter(v, None)
    return Arr([w.call(a[1], [x, i]) for i, x in enumerate(xs)] if len(a) > 1 else xs)
def ents(w, v): return tseval.It(w, None).entries(v, None)
def It_keys(w, v): return [str(k) for k, _ in ents(w, v)]
def assign(w, a):
    for v in a[1:]:
        for k, x in ents(w, v): w.set(a[0], k, x)
    return a[0]
def newpromise(w, f):
    box = []
    res = nat(lambda this, a: box.append(arg(a, 0) if isinstance(arg(a, 0), Promise) else Promise(True, arg(a, 0))) or UNDEF)
    rej = nat(lambda this, a: box.append(Promise(False, arg(a, 0))) or UNDEF)
    try: w.call(f, [res, rej])
    except Throw as t: box.append(Promise(False, t.v))
    if not box: undecided('a promise that is not settled')
    return box[0]
def pall(w, a):
    r = []
    for v in a.xs:
        if isinstance(v, Promise):
            if not v.ok: return v
            v = v.v
        r.append(v)
    return Promise(True, Arr(r))
def fetch(w, a):
    u = a[0]
    if w.choose(('throws', 'fetch')): return Promise(False, Obj({}, tag='TypeError'))
    def body(kind):
        def f(this, b): return Promise(True, ab(Bytes([], ('remote', u))))
        return nat(f)
    def ab(v): v.ab = True; return v
    return Promise(True, Obj({'arrayBuffer': body('ab'), 'ok': Sym('ok', repr(u)), 'status': Num(pa('status', repr(u)))}, tag='response'))

def ev(w, *t): w.events.append(t)
def wasm_api(w):
    """the module behind wasm/index.ts: the functions of the WebAssembly binary"""
    def B(v):
        if not isinstance(v, Bytes): raise err('TypeError', 'not a byte array')
        return (tuple(v.b), v.tail)
    def prove(this, a):
        k = tuple(B(x) for x in a); ev(w, 'prove', k)
        w.maythrow('wasm.prove', k)
        return Bytes([], ('proof', k))
    def verify(this, a):
        k = tuple(B(x) for x in a); ev(w, 'verify', k)
        w.maythrow('wasm.verify', k)
        return Sym('wasm.verify', k)
    def poseidon(this, a):
        k = B(a[0]); ev(w, 'poseidon', k)
        w.maythrow('wasm.poseidon', k)
        return Bytes([('in', ('poseidon', k), i) for i in range(32)])
    def init(this, a): ev(w, 'initSync', a[0] if a else None); return Promise(True, UNDEF)
    return {'prove': nat(prove), 'verify': nat(verify), 'poseidon': nat(poseidon), 'initSync': nat(init),
            'init_panic_hook': nat(lambda this, a: (ev(w, 'hook'), UNDEF)[1]), 'default': nat(init)}
def from_sig(w):
    """fromRpcSig: r and s are 32-byte buffers, v is a bigint; w.v is the recovery value under study"""
    def f(this, a):
        if not isinstance(a[0], Str) or a[0].ps != (('text', 'sig'),): undecided('fromRpcSig of something else than the signature')
        w.maythrow('fromRpcSig', 'sig')
        return Obj({'r': Bytes([('in', 'r', i) for i in range(32)], None, True), 's': Bytes([('in', 's', i) for i in range(32)], None, True), 'v': Big(pc(w.v))})
    return nat(f)
def wtns(w):
    def f(this, a):
        ev(w, 'wtns', a[0], a[1])
        if w.choose(('throws', 'wtns')): return Promise(False, Obj({}, tag='Error'))
        t = a[2] if len(a) > 2 else UNDEF
        if not isinstance(t, Obj): undecided('witness target')
        ty = t.props.get('type')
        if ty != 'mem': raise Fail('the witness is not kept in memory')
        t.props['data'] = Bytes([], ('witness',))
        return Promise(True, UNDEF)
    return Obj({'wtns': Obj({'calculate': nat(f)})}, tag=None)
def merkle(w):
    def new(a):
        o = Obj({}, tag='imt'); ev(w, 'imt', a)
        for k in ('insert', 'delete', 'update', 'verifyProof', 'indexOf', 'createProof'):
            o.props[k] = nat((lambda k: lambda this, b: (ev(w, k, o, b), result(k, b))[1])(k))
        for k in ('root', 'leaves', 'depth', 'zeroes', 'arity'): o.props[k] = Opaque('imt', k)
        return o
    def result(k, b):
        if k == 'createProof': return Obj({q: Opaque('proof', q) for q in ('root', 'leaf', 'siblings', 'pathIndices')}, tag='proof')
        if k == 'verifyProof': return Sym('verifyProof', 'imt')
        if k == 'indexOf': return Opaque('indexOf')
        return UNDEF
    return {'IncrementalMerkleTree': ctor('IncrementalMerkleTree', new)}
def readfile(w, fail=True):
    def f(this, a):
        if w.choose(('throws', 'readFile')): raise err('Error', 'ENOENT')
        return Bytes([], ('file', a[0]), True)
    return nat(f)
def install(w):
    bnc = ctor('BN', lambda a: mkbn(w, arg(a, 0, 0), arg(a, 1), arg(a, 2)), lambda this, a: mkbn(w, arg(a, 0, 0), arg(a, 1), arg(a, 2)))
    rf = readfile(w)
    fs = {'readFileSync': rf}
    fsp = {'readFile': nat(lambda this, a: Promise(True, w.call(rf, a)) if not w.choose(('throws', 'readFile')) else Promise(False, Obj({}, tag='Error')))}
    fs['promises'] = Obj(fsp)
    utils = {'fromRpcSig': from_sig(w)}
    w.natives = {'elliptic': {'ec': ec(w)}, 'bn.js': Raw(bnc), 'snarkjs': wtns(w).props, '@ethereumjs/util': utils, 'fs': fs, 'node:fs': fs,
                 'fs/promises': fsp, '@zk-kit/incremental-merkle-tree': merkle(w), 'wasm/wasm': wasm_api(w),
                 'wasm/wasmBytes': {'wasmBytes': wasmbytes()}, 'buffer': {'Buffer': Native(None)}}
    w.natives['buffer'] = {'Buffer': mkglobals(w)['Buffer']}
    w.v = 27
    w.haswindow = lambda: w.choose(('window',)) == 1 if w.window is None else w.window
def wasmbytes(): return Bytes([], ('wasmBytes',))
class Raw(dict):
    """a package whose value is a function"""
    def __init__(self, f): self.f = f; self['default'] = f; self['BN'] = f

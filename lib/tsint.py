"""Abstract interpreter for the TypeScript client.

Values are JavaScript values whose data parts are symbolic: byte strings are sequences of symbolic bytes
(with, at most, one trailing part of unknown length), big integers are polynomials over symbolic atoms,
curve points are linear combinations of base points with scalars modulo the group order.  Branches on
symbolic truth values and calls that may throw are decided by a script of choices; explore() runs a program
under every script.  Nothing is executed: the libraries behind the client are replaced by their contracts.
"""
import json, os, subprocess
import vc
from vc import Fail
HERE = os.path.dirname(os.path.abspath(__file__))
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
WIDTH = 32                                  # bytes of a coordinate, scalar or field element

class Undecided(Fail): pass
def undecided(msg, n=None): raise Undecided('%s%s' % (msg, ' (line %s)' % n['l'] if n else ''))

class Undef:
    def __repr__(self): return 'undefined'
UNDEF = Undef()

class Throw(Exception):
    def __init__(self, v): self.v = v
class Ret(Exception):
    def __init__(self, v): self.v = v
class Brk(Exception): pass
class Cont(Exception): pass

# ---- polynomials over interned atoms ---------------------------------------------------------------
_ids, _atoms = {}, []
def atom(*t):
    if t not in _ids: _ids[t] = len(_atoms); _atoms.append(t)
    return _ids[t]
def pa(*t): return {(atom(*t),): 1}
def pc(c): return {(): c} if c else {}
def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def pmul(a, b):
    r = {}
    for m, c in a.items():
        for k, d in b.items():
            x = tuple(sorted(m + k)); v = r.get(x, 0) + c * d
            if v: r[x] = v
            else: r.pop(x, None)
    return r
def pk(p): return tuple(sorted(p.items()))
def pconst(p): return 0 if not p else p[()] if len(p) == 1 and () in p else None
def pmod(p, n): return {m: c % n for m, c in p.items() if c % n}
def one(p):
    """the atom of a polynomial that is a single atom"""
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1: return _atoms[m[0]]

# bytes: int, ('in', name, i) or ('be', key, width, i): byte i of the big-endian width-byte encoding of a polynomial
def pbyte(b): return pc(b) if isinstance(b, int) else pa('byte', b)

def int_of(bs, tail=None):
    bs = tuple(bs)
    if tail is not None: return pa('int', bs, tail)
    while bs and bs[0] == 0: bs = bs[1:]
    if all(isinstance(b, int) for b in bs): return pc(int.from_bytes(bytes(bs), 'big'))
    f = bs[0]
    if f[0] == 'be' and f[3] == 0 and len(bs) == f[2] and all(b == ('be', f[1], f[2], i) for i, b in enumerate(bs)): return dict(f[1])
    return pa('int', bs, None)

def canon(p):
    """a sum of distinct powers of 256 times bytes is the integer those bytes encode"""
    d, c0 = {}, p.get((), 0)
    if pconst(p) is not None or one(p) and one(p)[0] != 'byte': return p
    if c0 < 0: return p
    for m, c in p.items():
        if m == (): continue
        if len(m) != 1 or c <= 0: return p
        a = _atoms[m[0]]
        if a[0] == 'byte': w = [a[1]]
        elif a[0] == 'int' and a[2] is None: w = a[1]
        else: return p
        e = c.bit_length() - 1
        if c != 1 << e or e % 8: return p
        for i, b in enumerate(reversed(w)):
            if isinstance(b, int): c0 += b << (e + 8 * i); continue
            if e // 8 + i in d: return p
            d[e // 8 + i] = b
    k = max(d) + 1
    cb = c0.to_bytes(max(k, (c0.bit_length() + 7) // 8), 'big')[::-1]
    bs = []
    for i in range(len(cb)):
        if i in d and cb[i]: return p
        bs.append(d.get(i, cb[i]))
    return int_of(bs[::-1])

def width(p):
    c = pconst(p)
    if c is not None: return max(1, (c.bit_length() + 7) // 8) if c >= 0 else None
    a = one(p)
    if a is None: return None
    if a[0] == 'byte': return 1
    if a[0] == 'int': return None if a[2] is not None else len(a[1])
    if a[0] in ('coord', 'field', 'modn'): return WIDTH

def be(p, size):
    """the bytes of p, most significant first"""
    p = canon(p)
    c, a = pconst(p), one(p)
    if c is not None:
        if c < 0 or c >= 256 ** size: raise Fail('%d does not fit %d bytes' % (c, size))
        return list(c.to_bytes(size, 'big'))
    w = width(p)
    if w is None: undecided('a value without a known range is encoded')
    if w > size: raise Fail('a value of %d bytes is encoded in %d: the encoding does not have a fixed width' % (w, size))
    if a[0] == 'byte': return [0] * (size - 1) + [a[1]]
    if a[0] == 'int': return [0] * (size - w) + list(a[1])
    return [0] * (size - w) + [('be', pk(p), w, i) for i in range(w)]

# ---- values --------------------------------------------------------------------------------------------
class Big:
    def __init__(self, p): self.p = canon(p)
    def __repr__(self): return 'Big(%s)' % show(self.p)
class Num:
    """number that is not a constant"""
    def __init__(self, p): self.p = p
class Sym:
    """symbolic truth value"""
    def __init__(self, *t): self.t = t
    def __repr__(self): return 'Sym%r' % (self.t,)
class Str:
    def __init__(self, ps):
        r = []
        for p in ps:
            if p == '' or isinstance(p, tuple) and p[0] == 'hexb' and not p[1] and p[2] is None: continue
            if isinstance(p, tuple) and p[0] == 'hexb' and p[2] is None and all(isinstance(b, int) for b in p[1]): p = bytes(p[1]).hex()
            if r and isinstance(p, str) and isinstance(r[-1], str): r[-1] += p
            elif r and isinstance(p, tuple) and p[0] == 'hexb' and isinstance(r[-1], tuple) and r[-1][0] == 'hexb' and r[-1][2] is None:
                r[-1] = ('hexb', r[-1][1] + p[1], p[2])
            else: r.append(p)
        self.ps = tuple(r)
def mkstr(ps):
    s = Str(ps)
    return '' if not s.ps else s.ps[0] if len(s.ps) == 1 and isinstance(s.ps[0], str) else s
class Obj:
    def __init__(self, props=None, cls=None, tag=None): self.props, self.cls, self.tag = dict(props or {}), cls, tag
class Arr:
    def __init__(self, xs): self.xs = list(xs)
class Opaque:
    def __init__(self, *t): self.t = t
    def __repr__(self): return 'Opaque%r' % (self.t,)
class Func:
    def __init__(self, node, env, this=None, name='', isasync=False, arrow=False, cls=None):
        self.node, self.env, self.this, self.name, self.isasync, self.arrow, self.cls, self.props = node, env, this, name, isasync, arrow, cls, {}
class Bound:
    def __init__(self, f, this): self.f, self.this = f, this
class Native:
    def __init__(self, fn, name=''): self.fn, self.name, self.props = fn, name, {}
class Class:
    def __init__(self, name): self.name, self.base, self.methods, self.getters, self.static, self.fields, self.ctor, self.env = name, None, {}, {}, {}, [], None, None
class Promise:
    def __init__(self, ok, v): self.ok, self.v = ok, v
class Storage:
    def __init__(self, b): self.b = b
class Bytes:
    """Uint8Array or Buffer: a window of a storage, with an optional tail of unknown length"""
    def __init__(self, b, tail=None, buf=False, store=None, off=0, n=None):
        self.s = store or Storage(list(b)); self.off = off; self.n = len(b) if n is None else n; self.tail, self.buf = tail, buf
    @property
    def b(self): return self.s.b[self.off:self.off + self.n]
    def put(self, i, v): self.s.b[self.off + i] = v
class BN:
    """integer; modn: only its residue modulo the group order is known"""
    def __init__(self, p, modn=False, nonneg=True, red=False): self.p, self.modn, self.nonneg, self.red = p, modn, nonneg, red
class Pt:
    def __init__(self, d): self.d = {b: s for b, s in d.items() if s}
    def key(self): return tuple(sorted((b, pk(s)) for b, s in self.d.items()))

def show(p, depth=0):
    def at(i):
        a = _atoms[i]
        if a[0] == 'int': return 'int(%s%s)' % (showb(a[1]), '..' if a[2] else '')
        if a[0] == 'coord': return '%s(%s)' % (a[1], ' + '.join('[%s]%s' % (show(dict(s)), b if isinstance(b, str) else b[0]) for b, s in a[2]))
        if a[0] in ('inv', 'modn'): return '%s(%s)' % (a[0], show(dict(a[1])))
        return '%s' % (a[1] if len(a) > 1 else a[0],)
    r = ' + '.join((str(c) + '*' if c != 1 or not m else '') + '*'.join(at(x) for x in m) for m, c in list(p.items())[:4])
    return (r or '0')[:200]
def showb(bs):
    if bs and isinstance(bs[0], tuple) and bs[0][0] == 'in': return '%s[%s:%s]' % (bs[0][1], bs[0][2], bs[-1][2] + 1 if isinstance(bs[-1], tuple) and bs[-1][0] == 'in' else '?')
    return '%d bytes' % len(bs)

class Env:
    def __init__(self, up=None): self.v, self.up = {}, up
    def find(self, n):
        e = self
        while e is not None:
            if n in e.v: return e
            e = e.up

class Module:
    def __init__(self, path): self.path, self.exports, self.env, self.default = path, {}, None, None

def err(kind, msg=''): return Throw(Obj({'message': msg, 'name': kind}, tag=kind))

ASTS = {}
def parse(files):
    need = [f for f in files if f not in ASTS]
    if need:
        r = subprocess.run(['node', os.path.join(HERE, 'tsdump.js')] + need, capture_output=True, text=True)
        if r.returncode: raise Fail('the TypeScript parser failed: ' + r.stderr[:300])
        ASTS.update(json.loads(r.stdout))

class World:
    def __init__(self, src, script=(), natives=None, window=None):
        self.src, self.script, self.log, self.memo, self.events = src, list(script), [], {}, []
        self.mods, self.steps, self.window = {}, 0, window
        self.natives = {}
        import tslib
        tslib.install(self)
        if natives: self.natives.update(natives)
    # choices
    def choose(self, key, n=2):
        if key in self.memo: return self.memo[key]
        i = len(self.log)
        c = self.script[i] if i < len(self.script) else 0
        self.log.append((key, c, n)); self.memo[key] = c
        if len(self.log) > 60: undecided('too many symbolic choices on one path')
        return c
    def maythrow(self, *key):
        if self.choose(('throws',) + key): raise err('Error', str(key[0]))
    # modules
    def resolve(self, frm, spec):
        if spec.startswith('@src/'): p = os.path.join(self.src, spec[5:])
        elif spec == '@src': p = self.src
        elif spec.startswith('.'): p = os.path.normpath(os.path.join(os.path.dirname(frm), spec))
        else: return spec
        if os.path.relpath(p, self.src) in self.natives: return os.path.relpath(p, self.src)
        for c in (p + '.ts', p + '.js', os.path.join(p, 'index.ts'), p):
            rel = os.path.relpath(c, self.src)
            if rel in self.natives: return rel
            if os.path.isfile(c): return c
        rel = os.path.relpath(p, self.src)
        if rel in self.natives: return rel
        raise Fail('module %s not found from %s' % (spec, os.path.relpath(frm, self.src)))
    def load(self, path):
        if path in self.mods: return self.mods[path]
        m = Module(path); self.mods[path] = m
        if path in self.natives:
            v = self.natives[path]; m.exports = v; m.native = True
            return m
        if not os.path.isabs(path): raise Undecided('no model for the package %s' % path)
        m.native = False
        parse([path])
        ast = ASTS[path]
        if isinstance(ast, dict): raise Fail('%s: %s' % (path, ast['error']))
        m.env = Env(); m.path = path
        It(self, m).module(ast)
        return m
    def export(self, m, name):
        v = m.exports.get(name)
        if v is None and name not in m.exports:
            for s in getattr(m, 'stars', []):
                try: return self.export(self.load(s), name)
                except KeyError: pass
            raise KeyError(name)
        if isinstance(v, tuple) and v[0] == 'ref':                       # local binding
            return m.env.v[v[1]]
        if isinstance(v, tuple) and v[0] == 'fwd': return self.export(self.load(v[1]), v[2])
        if isinstance(v, tuple) and v[0] == 'ns': return self.ns(self.load(v[1]))
        return v
    def ns(self, m):
        f = getattr(m.exports, 'f', None)
        return f if f is not None else Obj({}, tag=('ns', m))
    # calling
    def call(self, f, args, this=UNDEF):
        self.steps += 1
        if self.steps > 60000: undecided('too many calls')
        if isinstance(f, Bound): return self.call(f.f, args, f.this)
        if isinstance(f, Native): return f.fn(this, args)
        if isinstance(f, Class): raise err('TypeError', 'class without new')
        if not isinstance(f, Func): raise err('TypeError', 'not a function')
        it = It(self, f.env[1])
        def go():
            e = Env(f.env[0])
            if not f.arrow:
                e.v['this'] = this; e.v['arguments'] = Arr(args); e.v['%cls'] = f.cls
            it.params(f.node.get('parameters', []), args, e)
            b = f.node.get('body')
            if b is None: undecided('function without a body')
            if b['k'] == 'Block':
                try: it.block(b['statements'], e)
                except Ret as r: return r.v
                return UNDEF
            return it.ex(b, e)
        if f.isasync:
            try: v = go()
            except Throw as t: return Promise(False, t.v)
            return v if isinstance(v, Promise) else Promise(True, v)
        return go()
    def new(self, c, args):
        if isinstance(c, Native):
            if 'new' not in c.props: undecided('constructor %s has no model' % c.name)
            return c.props['new'](args)
        if isinstance(c, Bound) and isinstance(c.f, Native): return self.new(c.f, args)
        if not isinstance(c, Class): undecided('new on something that is not a class')
        o = Obj({}, cls=c)
        self.construct(c, o, args)
        return o
    def construct(self, c, o, args):
        if c.base is not None and c.ctor is None: self.construct(c.base, o, args)
        if c.base is None or c.ctor is None: self.fields(c, o)
        if c.ctor is not None:
            it = It(self, c.env[1]); e = Env(c.env[0]); e.v['this'] = o; e.v['%cls'] = c; e.v['arguments'] = Arr(args)
            it.params(c.ctor.get('parameters', []), args, e)
            for p, in [(p,) for p in c.ctor.get('parameters', []) if any(m['k'] in ('PublicKeyword', 'PrivateKeyword', 'ProtectedKeyword', 'ReadonlyKeyword') for m in p.get('modifiers', []))]:
                o.props[p['name']['escapedText']] = e.v[p['name']['escapedText']]
            try: it.block(c.ctor['body']['statements'], e)
            except Ret: pass
    def fields(self, c, o):
        for n, x in c.fields:
            it = It(self, c.env[1]); e = Env(c.env[0]); e.v['this'] = o; e.v['%cls'] = c
            if x is not None: o.props[n] = it.ex(x, e)
    def method(self, c, n):
        while c is not None:
            if n in c.methods: return c.methods[n], c
            c = c.base
        return None, None
    def getter(self, c, n):
        while c is not None:
            if n in c.getters: return c.getters[n]
            c = c.base
    # conversions
    def truthy(self, v):
        if v is UNDEF or v is None: return False
        if isinstance(v, bool): return v
        if isinstance(v, (int, float, str)): return bool(v)
        if isinstance(v, Sym):
            return self.choose(('sym',) + v.t) == 0
        if isinstance(v, Big):
            c = pconst(v.p)
            if c is not None: return c != 0
            return self.choose(('nonzero', pk(v.p))) == 0
        if isinstance(v, Num): return self.choose(('nonzero', pk(v.p))) == 0
        if isinstance(v, Str):
            if any(isinstance(p, str) for p in v.ps): return True
            return self.choose(('nonempty', v.ps)) == 0
        return True
    def tostr(self, v):
        if v is UNDEF: return 'undefined'
        if v is None: return 'null'
        if v is True: return 'true'
        if v is False: return 'false'
        if isinstance(v, (int, float)): return repr(v) if not isinstance(v, float) or v != int(v) else str(int(v))
        if isinstance(v, (str, Str)): return v
        if isinstance(v, Big): return str(pconst(v.p)) if pconst(v.p) is not None else Str([('dec', pk(v.p))])
        if isinstance(v, (Bytes,)) and v.buf: undecided('text of a byte string')
        if isinstance(v, Obj): return '[object Object]'
        undecided('text of %s' % type(v).__name__)
    def eq(self, a, b, strict=True):
        if isinstance(a, Num) or isinstance(b, Num):
            x, y = [v.p if isinstance(v, Num) else pc(v) if isinstance(v, int) and not isinstance(v, bool) else None for v in (a, b)]
            if x is None or y is None: return False
            return self.peq(x, y)
        if isinstance(a, Big) and isinstance(b, Big): return self.peq(a.p, b.p)
        if not strict and (isinstance(a, Big) or isinstance(b, Big)):
            x, y = [v.p if isinstance(v, Big) else pc(v) if isinstance(v, int) else None for v in (a, b)]
            if x is not None and y is not None: return self.peq(x, y)
        if not strict and (a is None or a is UNDEF) and (b is None or b is UNDEF): return True
        if isinstance(a, Sym) and isinstance(b, bool): return a if b else self.lnot(a)
        if isinstance(b, Sym) and isinstance(a, bool): return self.eq(b, a)
        if isinstance(a, Sym) and isinstance(b, Sym): return self.truthy(a) == self.truthy(b)
        sa, sb = isinstance(a, (str, Str)), isinstance(b, (str, Str))
        if sa and sb:
            x, y = Str([a] if isinstance(a, str) else a.ps).ps, Str([b] if isinstance(b, str) else b.ps).ps
            if x == y: return True
            if all(isinstance(p, str) for p in x + y): return False
            # equality of two digit strings of one form is equality of the values
            if len(x) == len(y) == 1 and isinstance(x[0], tuple) and isinstance(y[0], tuple) and x[0][0] == y[0][0] and x[0][0] in ('dec', 'hex'):
                return self.peq(dict(x[0][1]), dict(y[0][1]))
            return Sym('streq', *sorted([x, y], key=repr))
        if isinstance(a, (bool, int, float, str)) or isinstance(b, (bool, int, float, str)):
            if isinstance(a, Sym) or isinstance(b, Sym): return False
            return type(a) == type(b) and a == b or (isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool) and a == b)
        return a is b
    def peq(self, x, y):
        x, y = canon(x), canon(y)
        d = padd(x, y, -1)
        if not d: return True
        if pconst(d) is not None: return False
        k = [pk(x), pk(y)]
        k.sort(key=repr)
        return Sym('eq', *k)
    def lnot(self, v):
        if isinstance(v, Sym):
            return Sym(*v.t[1]) if v.t[0] == 'not' else (not self.truthy(v))
        return not self.truthy(v)
    # properties
    def get(self, o, n, node=None):
        import tslib
        if o is UNDEF or o is None: raise err('TypeError', 'property %s of %s' % (n, o))
        if isinstance(o, Obj):
            if hasattr(o, 'pget'): return o.pget(self, n, node)
            if isinstance(o.tag, tuple) and o.tag[0] == 'ns':
                try: return self.export(o.tag[1], n)
                except KeyError: return UNDEF
            if n in o.props: return o.props[n]
            if o.cls is not None:
                g = self.getter(o.cls, n)
                if g is not None: return self.call(g, [], o)
                m, c = self.method(o.cls, n)
                if m is not None: return m
            r = tslib.objprop(self, o, n)
            return UNDEF if r is None else r
        if isinstance(o, Class):
            c = o
            while c is not None:
                if n in c.static: return c.static[n]
                c = c.base
            if n == 'name': return o.name
            return UNDEF
        return tslib.prop(self, o, n, node)
    def set(self, o, n, v, node=None):
        if isinstance(o, Obj) and hasattr(o, 'pset'): return o.pset(self, n, v, node)
        if isinstance(o, Obj): o.props[n] = v; return
        if isinstance(o, Class): o.static[n] = v; return
        if isinstance(o, (Native, Func)): o.props[n] = v; return
        if isinstance(o, Arr):
            if n == 'length': o.xs[:] = (o.xs + [UNDEF] * v)[:v]; return
            if isinstance(n, int):
                while len(o.xs) <= n: o.xs.append(UNDEF)
                o.xs[n] = v; return
        if isinstance(o, Bytes) and isinstance(n, int):
            if 0 <= n < o.n:
                if isinstance(v, int): o.put(n, v & 255)
                elif isinstance(v, Num):
                    a = one(canon(v.p)); w = width(canon(v.p))
                    if w != 1: undecided('a value wider than a byte is stored in a byte', node)
                    o.put(n, be(v.p, 1)[0])
                else: undecided('store of %s in a byte' % type(v).__name__, node)
                return
            if o.tail is None: return
        undecided('assignment to a property of %s' % type(o).__name__, node)

def explore(fn, limit=4000):
    """fn(script) -> (World, result); runs every path, yields (world, outcome)"""
    script = []
    n = 0
    while True:
        w, r = fn(script)
        yield w, r
        n += 1
        if n > limit: undecided('more than %d paths' % limit)
        log = [(c, k) for _, c, k in w.log]
        while log and log[-1][0] + 1 >= log[-1][1]: log.pop()
        if not log: return
        script = [c for c, _ in log[:-1]] + [log[-1][0] + 1]

from tseval import It

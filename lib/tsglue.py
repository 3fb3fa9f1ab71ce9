"""The JavaScript glue between the client and the WebAssembly binary (packages/lib/src/wasm).

The glue is analysed with the abstract interpreter of tsint.py against a model of the binary's interface:
linear memory with an allocator (addresses are concrete, the bytes stored are symbolic), a shadow stack,
the object heap seen through the imports, and exported functions that note which bytes they were handed.
"""
import re
import tslib, tsint
from tsint import *
from tslib import nat, ctor, arg, cint
PAGE = 4096

class Buf(Obj):
    """an ArrayBuffer over the linear memory; detached when the memory grows"""
    def __init__(self, g): Obj.__init__(self, tag='ArrayBuffer'); self.g = g
    @property
    def live(self): return self.g.buf is self
    def pget(self, w, n, node):
        if n == 'byteLength': return self.g.size if self.live else 0
        undecided('%s of the memory buffer' % n, node)
class TA(Obj):
    """a typed array over the linear memory"""
    def __init__(self, g, buf, width, signed, off, n): Obj.__init__(self, tag='TA'); self.g, self.buf, self.width, self.signed, self.off, self.n = g, buf, width, signed, off, n
    def len(self): return 0 if not self.buf.live else self.n if self.n is not None else (self.g.size - self.off) // self.width
    def cells(self): return [self.g.read(self.off + i) for i in range(self.len())]
    def pget(self, w, n, node):
        g = self.g
        if n == 'byteLength': return self.len() * self.width
        if n == 'length': return self.len()
        if n == 'buffer': return self.buf
        if n == 'byteOffset': return self.off if self.buf.live else 0
        if isinstance(n, (int, float)) and not isinstance(n, bool):
            if n != int(n) or not 0 <= n < self.len(): return UNDEF
            bs = [g.read(self.off + int(n) * self.width + i) for i in range(self.width)]
            if all(isinstance(b, int) for b in bs): return int.from_bytes(bytes(bs), 'little', signed=self.signed)
            if self.width == 1: return Num(pbyte(bs[0])) if isinstance(bs[0], tuple) else g.bad(bs[0])
            undecided('a word of memory that holds symbolic bytes', node)
        if self.width != 1 and n in ('set', 'slice'): undecided('%s of a typed array of words' % n, node)
        if n == 'set': return nat(lambda this, a: g.store(self, a[0], cint(arg(a, 1, 0))))
        if n in ('subarray', 'slice'):
            def f(this, a):
                L = self.len(); i, j = cint(arg(a, 0, 0)), cint(arg(a, 1, L))
                i = max(0, i + L) if i < 0 else min(i, L); j = max(0, j + L) if j < 0 else min(j, L)
                if n == 'slice': return Bytes([g.known(g.read(self.off + k)) for k in range(i, max(i, j))])
                return TA(g, self.buf, self.width, self.signed, self.off + i * self.width, max(0, j - i))
            return nat(f)
        undecided('%s of a typed array' % n, node)
    def pset(self, w, n, v, node):
        if self.width != 1: undecided('write of a word of memory', node)
        if not isinstance(n, int) or not 0 <= n < self.len(): return
        self.g.write(self.off + n, v & 255 if isinstance(v, int) else be(v.p, 1)[0] if isinstance(v, Num) else undecided('write of %s to memory' % type(v).__name__, node))
class DV(Obj):
    def __init__(self, ta): Obj.__init__(self, tag='DataView'); self.ta = ta
    def pget(self, w, n, node):
        m = re.fullmatch(r'get(Int|Uint)(8|16|32)', n)
        if n == 'buffer': return self.ta.buf
        if n == 'byteLength': return self.ta.len()
        if not m: undecided('%s of a DataView' % n, node)
        def f(this, a):
            if not self.ta.buf.live: raise err('TypeError', 'detached')
            i, k = cint(a[0]), int(m[2]) // 8
            bs = [self.ta.g.read(self.ta.off + i + j) for j in range(k)]
            if not all(isinstance(b, int) for b in bs): undecided('a word of memory that holds symbolic bytes', node)
            return int.from_bytes(bytes(bs), 'little' if len(a) > 1 and w.truthy(a[1]) else 'big', signed=m[1] == 'Int')
        return nat(f)

class Glue:
    """one instance of the WebAssembly binary"""
    def __init__(self, w, src_wasm='wasm/wasm', grow=True):
        self.w, self.grow = w, grow
        self.mem, self.size, self.sp, self.brk = {}, PAGE, 1024, 2048
        self.blocks, self.calls, self.imports, self.plan = {}, [], None, None
        self.buf = Buf(self)
        self.memory = Obj({}, tag='memory')
        self.memory.pget = lambda w, n, node: self.buf if n == 'buffer' else undecided('%s of the memory' % n, node)
        for k in ('wasm/wasm',): w.natives.pop(k, None)
        g = w.globals = tslib.mkglobals(w)
        self.old8 = g['Uint8Array'].props['new']
        g['Uint8Array'].props['new'] = lambda a: self.view(a, 1, False) if a and isinstance(a[0], (Buf, TA)) else self.old8(a)
        for k, wd, s in (('Int32Array', 4, True), ('Uint32Array', 4, False)):
            g[k] = ctor(k, (lambda wd, s: lambda a: self.view(a, wd, s) if a and isinstance(a[0], Buf) else undecided('a typed array that is not over the memory'))(wd, s))
        g['DataView'] = ctor('DataView', lambda a: DV(self.view(a, 1, False)))
        g['TextDecoder'] = ctor('TextDecoder', lambda a: Obj({'decode': nat(self.decode)}, tag='TextDecoder'))
        g['TextEncoder'] = ctor('TextEncoder', lambda a: Obj({'encode': nat(lambda this, b: Bytes(list(b[0].encode()) if isinstance(b[0], str) else undecided('encoding of a symbolic text'))), 'encodeInto': nat(lambda this, b: undecided('encodeInto'))}, tag='TextEncoder'))
        W = Obj({}, tag='WebAssembly')
        W.props['Module'] = ctor('Module', lambda a: self.module(a[0])); W.props['Instance'] = ctor('Instance', lambda a: self.instance(a))
        W.props['compile'] = nat(lambda this, a: Promise(True, self.module(a[0])))
        W.props['instantiate'] = nat(self.instantiate)
        g['WebAssembly'] = W
    # the loader
    def module(self, b):
        if not isinstance(b, Bytes) or b.tail != ('wasmBytes',) or b.n: raise Fail('something else than the WebAssembly binary is loaded')
        return Obj({}, tag='wasmmodule')
    def instance(self, a):
        if self.imports is not None: raise Fail('the WebAssembly binary is instantiated twice')
        self.imports = a[1] if len(a) > 1 else Obj()
        self.exports = Obj({'memory': self.memory, '__wbindgen_malloc': nat(self.malloc), '__wbindgen_free': nat(self.free), '__wbindgen_realloc': nat(lambda this, a: undecided('realloc')),
                            '__wbindgen_add_to_stack_pointer': nat(self.stack), '__wbindgen_exn_store': nat(lambda this, a: self.calls.append(('exn', a[0])) or UNDEF),
                            'init_panic_hook': nat(lambda this, a: UNDEF)}, tag='exports')
        for n, k, r in (('prove', 3, 'bytes'), ('verify', 3, 'bool'), ('poseidon', 1, 'bytes')): self.exports.props[n] = nat(self.export(n, k, r))
        return Obj({'exports': self.exports}, tag='instance')
    def instantiate(self, this, a):
        if isinstance(a[0], Obj) and a[0].tag == 'wasmmodule': return Promise(True, self.instance(a))
        m = self.module(a[0])
        return Promise(True, Obj({'instance': self.instance([m] + list(a[1:])), 'module': m}))
    # memory
    def view(self, a, wd, s):
        b = a[0]
        if isinstance(b, TA): return Bytes([self.known(x) for x in b.cells()]) if b.width == 1 else undecided('a copy of words')
        off = cint(arg(a, 1, 0))
        if not b.live: raise err('TypeError', 'detached buffer')
        return TA(self, b, wd, s, off, None if arg(a, 2) is UNDEF else cint(a[2]))
    def owner(self, p):
        for q, n in self.blocks.items():
            if q <= p < q + n: return q
    def read(self, p): return self.mem.get(p, 'unset')
    def known(self, b):
        return self.bad(b) if isinstance(b, str) else b
    def bad(self, b): raise Fail('the glue reads memory that was %s' % ('released' if b == 'freed' else 'never written'))
    def write(self, p, v):
        if self.owner(p) is None: raise Fail('the glue writes to memory that it did not allocate')
        self.mem[p] = v
    def store(self, ta, v, at):
        xs = v.cells() if isinstance(v, TA) else v.b if isinstance(v, Bytes) and v.tail is None else undecided('set of %s' % type(v).__name__)
        if not ta.buf.live: raise err('TypeError', 'detached buffer')
        if at < 0 or at + len(xs) > ta.len(): raise err('RangeError', 'offset')
        for i, x in enumerate(xs): self.write(ta.off + at + i, self.known(x))
        return UNDEF
    def alloc(self, n):
        p = self.brk + 16; self.brk = p + (n + 15) // 16 * 16
        if self.brk > self.size or self.grow and self.w.choose(('grow', len(self.blocks))):
            self.size += PAGE; self.buf = Buf(self)
        self.blocks[p] = n
        return p
    def malloc(self, this, a):
        n = cint(a[0])
        if n < 0: raise Fail('allocation of a negative size')
        return self.alloc(n)
    def release(self, p, n):
        if self.blocks.get(p) != n: raise Fail('the glue releases %s' % ('memory that it does not own' if p not in self.blocks else 'a block with the wrong size'))
        del self.blocks[p]
        for i in range(n): self.mem[p + i] = 'freed'
    def free(self, this, a): self.release(cint(a[0]), cint(a[1])); return UNDEF
    def stack(self, this, a):
        self.sp += cint(a[0])
        if self.sp > 1024: raise Fail('the stack pointer is moved above its origin')
        return self.sp
    def decode(self, this, a):
        v = arg(a, 0)
        if v is UNDEF: return ''
        if not isinstance(v, TA): undecided('decoding of something else than memory')
        bs = [self.known(b) for b in v.cells()]
        if not all(isinstance(b, int) for b in bs): undecided('decoding of symbolic bytes')
        return bytes(bs).decode()
    # what the binary does
    def imp(self, prefix, arity=None):
        ns = [v for v in self.imports.props.values() if isinstance(v, Obj)]
        fs = [f for o in ns for k, f in o.props.items() if k == prefix or re.fullmatch(re.escape(prefix) + r'_[0-9a-f]{16}', k)]
        if len(fs) > 1: fs = [f for f in fs if isinstance(f, Func) and len(f.node.get('parameters', [])) == arity]
        if len(fs) != 1: raise Fail('the import %s is not provided' % prefix)
        return lambda *a: self.w.call(fs[0], list(a))
    def put(self, p, bs):
        for i, b in enumerate(bs): self.mem[p + i] = b
    def export(self, name, k, res):
        def f(this, a):
            a = [cint(x) for x in a]
            if len(a) != 1 + 2 * k: raise Fail('%s is called with %d arguments' % (name, len(a)))
            ret = a[0]
            if ret != self.sp or self.sp > 1024 - 16: raise Fail('%s is not given room for its result' % name)
            got = []
            for i in range(k):
                p, n = a[1 + 2 * i], a[2 + 2 * i]
                if self.blocks.get(p) != n: raise Fail('argument %d of %s is not the block of memory that holds it' % (i + 1, name))
                got.append(tuple(self.known(self.read(p + j)) for j in range(n)))
                self.release(p, n)                             # the callee owns its arguments
            self.calls.append((name, tuple(got)))
            what, v = self.plan
            words = lambda *ws: self.put(ret, b''.join((x & 0xffffffff).to_bytes(4, 'little') for x in ws))
            if what == 'throw':
                p = self.alloc(len(v)); self.put(p, list(v.encode()))
                h = self.imp('__wbindgen_string_new')(p, len(v)); self.release(p, len(v))
                words(0x5a5a, h, 1) if res == 'bool' else words(0x5a5a, 0x5b5b, h, 1)
            elif res == 'bool': words(int(v), 0x5a5a, 0)
            else:
                p = self.alloc(len(v)); self.put(p, v); words(p, len(v), 0x5a5a, 0)
            return UNDEF
        return f

def sym(name, n): return Bytes([('in', name, i) for i in range(n)])
ARGS = {'prove': ('circuit', 'vars', 'public_inputs'), 'verify': ('circuit', 'proof', 'public_input'), 'poseidon': ('input_bytes',)}
def start(src, script, **kw):
    w = World(src, script, window=False)
    g = Glue(w, **kw)
    m = w.load(w.resolve(src + '/_.ts', '@src/wasm'))
    r = w.call(w.export(m, 'init'), [])
    while isinstance(r, Promise):
        if not r.ok: raise Throw(r.v)
        r = r.v
    if g.imports is None: raise Fail('init does not instantiate the WebAssembly binary')
    return w, g, w.export(m, 'wasm')
def check_call(c, src, name, seqs):
    """every sequence of planned outcomes: the binary gets exactly the arguments, the caller exactly the outcome"""
    n = 0
    for seq in seqs:
        def go(script):
            w, g, api = start(src, script)
            for i, (sizes, plan) in enumerate(seq):
                g.plan = plan
                ins = [sym('%s%d' % (a, i), k) for a, k in zip(ARGS[name], sizes)]
                want = tuple(tuple(x.b) for x in ins)
                before = len(g.calls)
                try: r = ('value', w.call(w.get(api, name), ins, api))
                except Throw as t: r = ('throw', t.v)
                if [x for x in g.calls[before:] if x[0] == name] != [(name, want)]:
                    got = [x for x in g.calls[before:] if x[0] == name]
                    if not got: raise Fail('%s does not call the WebAssembly function%s' % (name, ' and throws %s' % tsmsg(r[1]) if r[0] == 'throw' else ''))
                    bad = [a for a, x, y in zip(ARGS[name], got[0][1], want) if x != y]
                    raise Fail('%s hands the WebAssembly function other bytes than it was given: %s' % (name, ', '.join(bad) or 'called twice'))
                if g.sp != 1024: raise Fail('%s does not restore the stack pointer' % name)
                if plan[0] == 'throw':
                    if r != ('throw', plan[1]): raise Fail('%s: an error of the binary is %s' % (name, 'not thrown' if r[0] == 'value' else 'thrown as something else'))
                elif r[0] == 'throw': raise Fail('%s throws %s although the binary answers' % (name, tsmsg(r[1])))
                elif name == 'verify':
                    if r[1] is not bool(plan[1]): raise Fail('verify answers %r when the binary answers %r' % (r[1], plan[1]))
                elif not isinstance(r[1], Bytes) or r[1].b != plan[1]: raise Fail('%s does not return the bytes that the binary returns' % name)
                if g.blocks: raise Fail('%s leaves memory allocated that it has to release' % name)
            return w, None
        for _ in explore(go): n += 1
    c.count('paths', n)
    return '%d call sequences, %d paths' % (len(seqs), n)
def tsmsg(v): return repr(v.props.get('message', v.tag)) if isinstance(v, Obj) else repr(v)
def check_verify(c, src):
    out = [('value', True), ('value', False), ('throw', 'bad')]
    one = [[(s, o)] for s in ((5, 7, 3), (0, 4, 1)) for o in out]
    two = [[((5, 7, 3), a), ((6, 2, 9), b)] for a in out for b in out]
    return check_call(c, src, 'verify', one + two)
def check_bytes(c, src, name):
    res = [('value', [('in', 'res', i) for i in range(5)]), ('value', [('in', 'other', i) for i in range(9)]), ('throw', 'bad')]
    s1, s2 = ((5, 7, 3), (6, 2, 9)) if name == 'prove' else ((6,), (9,))
    return check_call(c, src, name, [[(s1, o)] for o in res] + [[(s1, a), (s2, b)] for a in res for b in res])

def check_entropy(c, src):
    """what the binary asks the environment for when it draws random bytes: the array it passes is filled by
    the platform generator and its bytes reach the address the binary named"""
    n = 0
    for kind in ('getRandomValues', 'randomFillSync'):
        def go(script):
            w, g, api = start(src, script)
            W = w
            arr = Bytes([0] * 8)
            filled = []
            def fill(this, a):
                if not isinstance(a[0], (Bytes, TA)): raise Fail('%s is given something else than the array' % kind)
                filled.append(a[0])
                for i in range(8):
                    if isinstance(a[0], Bytes): a[0].put(i, ('in', 'rand', i))
                    else: a[0].g.mem[a[0].off + i] = ('in', 'rand', i)
                return a[0]
            src_obj = Obj({kind: nat(fill)}, tag='platform')
            # handles of objects, as the binary holds them
            add = handle(g)
            h = add(src_obj)
            buf = g.imp('__wbindgen_memory')(); b2 = g.imp('__wbg_buffer')(buf)
            if kind == 'getRandomValues':
                view = g.imp('__wbg_newwithlength')(8)
                g.imp('__wbg_getRandomValues')(h, view)
                sub = g.imp('__wbg_subarray')(view, 0, 8)
                p = g.alloc(8)
                m2 = g.imp('__wbindgen_memory')(); b3 = g.imp('__wbg_buffer')(m2); whole = g.imp('__wbg_new', 1)(b3)
                g.imp('__wbg_set')(whole, sub, p)
            else:
                p = g.alloc(8)
                m2 = g.imp('__wbindgen_memory')(); b3 = g.imp('__wbg_buffer')(m2)
                view = g.imp('__wbg_newwithbyteoffsetandlength')(b3, p, 8)
                g.imp('__wbg_randomFillSync')(h, view)
            if not filled: raise Fail('the import %s does not ask the platform for random bytes' % kind)
            if [g.read(p + i) for i in range(8)] != [('in', 'rand', i) for i in range(8)]:
                raise Fail('the random bytes of the platform do not reach the memory of the binary')
            return w, None
        for _ in explore(go): n += 1
    c.count('paths', n)
    return '2 sources, %d paths' % n
def handle(g):
    """puts an object on the heap the imports use: string_new gives handles, object_clone_ref copies them"""
    def add(o):
        f = g.w.mods[g.w.resolve(g.w.src + '/_.ts', '@src/wasm/wasm')].env.v.get('addHeapObject')
        if f is None: undecided('the glue has no addHeapObject')
        return cint(g.w.call(f, [o]))
    return add

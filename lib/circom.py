"""Circom front end: parse the circuit sources and elaborate a template instance into its constraint system
(named signals, ordered definitions, constraints, unconstrained hints and sub-component instances)."""
import os, re
from vc import REPO, Fail, ROOT
P = 2**256 - 2**32 - 977      # the circuits are compiled with --prime secq256k1, whose scalar field this is

# ---------------------------------------------------------------- lexer / parser
TOK = re.compile(r'''\s+|//[^\n]*|/\*.*?\*/|(?P<num>0[xX][0-9a-fA-F]+|\d+)|(?P<id>[A-Za-z_$][A-Za-z0-9_$]*)|(?P<str>"[^"]*")|'''
                 r'''(?P<op><==|==>|===|<--|-->|\*\*=|<<=|>>=|\*\*|<<|>>|<=|>=|==|!=|&&|\|\||\+\+|--|\+=|-=|\*=|/=|\\=|%=|&=|\|=|\^=|[-+*/\\%<>=!&|^~?:;,.(){}\[\]])''', re.S)
def lex(src, name):
    i, out, ln = 0, [], 1
    while i < len(src):
        m = TOK.match(src, i)
        if not m: raise Fail('%s:%d: unexpected character %r' % (name, ln, src[i]))
        k = m.lastgroup
        if k: out.append((k, m.group(), ln))
        ln += m.group().count('\n'); i = m.end()
    out.append(('eof', '', ln))
    return out

BIN = {'||': 1, '&&': 2, '==': 3, '!=': 3, '<': 3, '>': 3, '<=': 3, '>=': 3, '|': 4, '^': 5, '&': 6, '<<': 7, '>>': 7, '+': 8, '-': 8, '*': 9, '/': 9, '\\': 9, '%': 9, '**': 10}
ASG = {'=', '+=', '-=', '*=', '**=', '/=', '\\=', '%=', '<<=', '>>=', '&=', '|=', '^=', '<==', '<--'}

class Parser:
    def __init__(self, src, name):
        self.t, self.i, self.name = lex(src, name), 0, name
    @property
    def v(self): return self.t[self.i][1]
    @property
    def k(self): return self.t[self.i][0]
    def err(self, what): raise Fail('%s:%d: cannot parse: %s at %r' % (self.name, self.t[self.i][2], what, self.v))
    def acc(self, v):
        if self.v == v and self.k != 'str': self.i += 1; return True
        return False
    def exp(self, v):
        if not self.acc(v): self.err('expected %r' % v)
    def ident(self):
        if self.k != 'id': self.err('expected a name')
        self.i += 1; return self.t[self.i-1][1]
    def file(self):
        inc, defs, main = [], {}, None
        while self.k != 'eof':
            if self.acc('pragma'):
                while not self.acc(';'): self.i += 1
            elif self.acc('include'): inc.append(self.v[1:-1]); self.i += 1; self.exp(';')
            elif self.v in ('template', 'function'):
                kind = self.v; self.i += 1
                while self.v in ('parallel', 'custom'): self.i += 1
                n = self.ident(); self.exp('('); ps = []
                while not self.acc(')'): ps.append(self.ident()); self.acc(',')
                defs[n] = (kind, ps, self.block(), self.name)
            elif self.acc('component'):
                if self.ident() != 'main': self.err('main component')
                pub = []
                if self.acc('{'):
                    self.exp('public'); self.exp('[')
                    while not self.acc(']'): pub.append(self.ident()); self.acc(',')
                    self.exp('}')
                self.exp('='); e = self.expr(); self.exp(';'); main = (pub, e)
            else: self.err('top level')
        return inc, defs, main
    def block(self):
        self.exp('{'); b = []
        while not self.acc('}'): b.append(self.stmt())
        return ('block', b)
    def stmt(self):
        ln = self.t[self.i][2]
        s = self.stmt_()
        return s + (('@', ln),) if isinstance(s, tuple) else s
    def stmt_(self):
        if self.v == '{': return self.block()
        if self.acc(';'): return ('block', [])
        if self.v == 'if':
            self.i += 1; self.exp('('); c = self.expr(); self.exp(')'); a = self.stmt()
            b = self.stmt() if self.acc('else') else None
            return ('if', c, a, b)
        if self.v == 'while':
            self.i += 1; self.exp('('); c = self.expr(); self.exp(')'); return ('for', None, c, None, self.stmt())
        if self.v == 'for':
            self.i += 1; self.exp('(')
            a = None if self.v == ';' else self.simple(); self.exp(';')
            c = self.expr(); self.exp(';')
            st = None if self.v == ')' else self.simple(); self.exp(')')
            return ('for', a, c, st, self.stmt())
        if self.v == 'return': self.i += 1; e = self.expr(); self.exp(';'); return ('return', e)
        if self.v == 'assert': self.i += 1; self.exp('('); e = self.expr(); self.exp(')'); self.exp(';'); return ('assert', e)
        if self.v == 'log':
            self.i += 1; self.exp('(')
            d = 1
            while d:
                d += (self.v == '(') - (self.v == ')'); self.i += 1
            self.exp(';'); return ('block', [])
        s = self.simple(); self.exp(';'); return s
    def simple(self):
        if self.v in ('var', 'signal', 'component'):
            kind = self.v; self.i += 1; sk = 'inter'
            if kind == 'signal':
                if self.v in ('input', 'output'): sk = self.v; self.i += 1
                if self.acc('{'):
                    while not self.acc('}'): self.i += 1
            decl = []
            if self.acc('('):
                ns = []
                while not self.acc(')'): ns.append((self.ident(), [], None, None)); self.acc(',')
                for n in ns: decl.append(n)
                if self.v in ASG:
                    op = self.v; self.i += 1; e = self.expr()
                    return ('block', [('decl', kind, sk, decl), ('assign', ('tuple', [('name', n[0], []) for n in ns]), op, e)])
                return ('decl', kind, sk, decl)
            while True:
                n = self.ident(); dims = []
                while self.acc('['): dims.append(self.expr()); self.exp(']')
                op = e = None
                if self.v in ('=', '<==', '<--'): op = self.v; self.i += 1; e = self.expr()
                decl.append((n, dims, op, e))
                if not self.acc(','): break
            return ('decl', kind, sk, decl)
        e = self.expr()
        if self.v in ('++', '--'):
            op = self.v; self.i += 1; return ('assign', e, op[0] + '=', ('num', 1))
        if self.v in ASG: op = self.v; self.i += 1; return ('assign', e, op, self.expr())
        if self.v in ('==>', '-->'):
            op = self.v; self.i += 1; r = self.expr()
            return ('assign', r, '<==' if op == '==>' else '<--', e)
        if self.acc('==='): return ('constrain', e, self.expr())
        return ('expr', e)
    def expr(self):
        c = self.bin(1)
        if self.acc('?'):
            a = self.expr(); self.exp(':'); b = self.expr(); return ('cond', c, a, b)
        return c
    def bin(self, p):
        a = self.unary()
        while self.k == 'op' and BIN.get(self.v, 0) >= p:
            op = self.v; self.i += 1; b = self.bin(BIN[op] + 1); a = ('bin', op, a, b)
        return a
    def unary(self):
        if self.v in ('-', '!', '~') and self.k == 'op':
            # circom: unary minus binds tighter than *, and ** tighter than unary minus is not used here
            op = self.v; self.i += 1; return ('un', op, self.unary())
        if self.v == 'parallel': self.i += 1
        return self.prim()
    def prim(self):
        if self.k == 'num': self.i += 1; return ('num', int(self.t[self.i-1][1], 0))
        if self.acc('('):
            es = [self.expr()]
            while self.acc(','): es.append(self.expr())
            self.exp(')'); return es[0] if len(es) == 1 else ('tuple', es)
        if self.acc('['):
            es = []
            while not self.acc(']'): es.append(self.expr()); self.acc(',')
            return ('array', es)
        n = self.ident()
        if self.acc('('):
            args = []
            while not self.acc(')'): args.append(self.expr()); self.acc(',')
            if self.v == '(':
                self.i += 1; ins = []
                while not self.acc(')'):
                    nm = None
                    if self.k == 'id' and self.t[self.i+1][1] in ('<==', '<--'): nm = self.ident(); self.i += 1
                    ins.append((nm, self.expr())); self.acc(',')
                return ('anon', n, args, ins)
            return ('call', n, args)
        path = []
        while True:
            if self.acc('['): path.append(('idx', self.expr())); self.exp(']')
            elif self.acc('.'): path.append(('fld', self.ident()))
            else: break
        return ('name', n, path)

_files = {}
def parse(path):
    path = os.path.normpath(path)
    if path not in _files:
        if not os.path.isfile(path): raise Fail('circuit file missing: %s' % path)
        _files[path] = Parser(open(path).read(), os.path.relpath(path, REPO)).file()
    return _files[path]

def load(path):
    """(definitions, main, files) of a circuit file with everything it includes."""
    defs, seen, todo, main = {}, [], [os.path.normpath(path)], None
    while todo:
        f = todo.pop()
        if f in seen: continue
        seen.append(f)
        inc, d, m = parse(f)
        if f == os.path.normpath(path): main = m
        for k, v in d.items():
            if k in defs and defs[k] is not v: raise Fail('%s is defined in two included files' % k)
            defs[k] = v
        for i in inc:
            if 'circomlib/circuits/' in i:
                todo.append(os.path.join(ROOT, 'lib', 'circomlib', i.split('circomlib/circuits/')[1]))
            else: todo.append(os.path.normpath(os.path.join(os.path.dirname(f), i)))
    return defs, main, seen

# ---------------------------------------------------------------- polynomials over signals
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = (r.get(m, 0) + k * c) % P
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n)); v = (r.get(k, 0) + c * d) % P
            if v: r[k] = v
            else: r.pop(k, None)
    return r
class Poly:
    __slots__ = ('d',)
    def __init__(self, d): self.d = d
class Hint:
    """An expression that is no polynomial (only usable on the right of <--)."""
    __slots__ = ('op', 'a')
    def __init__(self, op, *a): self.op, self.a = op, a

class Comp:
    __slots__ = ('name', 'inst', 'ports', 'anon', 'nested')

class Inst:
    """ops: ('def', sig, poly) for <==, ('con', poly) for ===, ('hint', sig, tree) for <--"""
    def __init__(self, name, args):
        self.name, self.args = name, args
        self.sigs, self.kind, self.ops, self.comps, self.where = [], [], [], [], []
        self.names = {}          # declared name -> (kind, nested list of ids | id), in declaration order
        self.assigned = {}
    def new(self, label, kind):
        self.sigs.append(label); self.kind.append(kind); return len(self.sigs) - 1
    def flat(self, n):
        r = []
        def go(x):
            if isinstance(x, list):
                for y in x: go(y)
            else: r.append(x)
        go(self.names[n][1]); return r
    def ids(self, kind):
        return [i for n, (k, _) in self.names.items() if k == kind for i in self.flat(n)]
    def title(self): return '%s(%s)' % (self.name, ', '.join(map(str, self.args)))

class Ret(Exception):
    def __init__(self, v): self.v = v

def signed(x): return x - P if x > P // 2 else x
def c_bin(op, a, b):
    if op == '+': return (a + b) % P
    if op == '-': return (a - b) % P
    if op == '*': return a * b % P
    if op == '/':
        if b % P == 0: raise Fail('division by zero in a constant expression')
        return a * pow(b, -1, P) % P
    if op == '\\': return a // b
    if op == '%': return a % b
    if op == '**': return pow(a, b, P)
    if op == '<<': return (a << b) % P if b <= 256 else c_bin('>>', a, P - b)
    if op == '>>': return a >> b if b <= P // 2 else c_bin('<<', a, P - b)
    if op == '&': return a & b
    if op == '|': return (a | b) % P
    if op == '^': return (a ^ b) % P
    sa, sb = signed(a), signed(b)
    if op == '<': return int(sa < sb)
    if op == '>': return int(sa > sb)
    if op == '<=': return int(sa <= sb)
    if op == '>=': return int(sa >= sb)
    if op == '==': return int(a == b)
    if op == '!=': return int(a != b)
    if op == '&&': return int(bool(a) and bool(b))
    if op == '||': return int(bool(a) or bool(b))
    raise Fail('operator ' + op)

class Elab:
    def __init__(self, defs): self.defs, self.cache = defs, {}
    def inst(self, name, args):
        key = (name, repr(args))
        if key not in self.cache:
            d = self.defs.get(name)
            if d is None or d[0] != 'template': raise Fail('unknown template ' + name)
            _, ps, body, f = d
            if len(ps) != len(args): raise Fail('%s takes %d parameters' % (name, len(ps)))
            I = Inst(name, args); I.file = f
            self.cache[key] = None
            Frame(self, I, f, dict(zip(ps, args))).run(body)
            self.cache[key] = I
        if self.cache[key] is None: raise Fail('recursive template ' + name)
        return self.cache[key]
    def call(self, name, args):
        d = self.defs.get(name)
        if d is None: raise Fail('unknown function ' + name)
        if d[0] == 'template': return ('templ', name, args)
        _, ps, body, f = d
        try: Frame(self, None, f, dict(zip(ps, args))).run(body)
        except Ret as r: return r.v
        raise Fail('function %s returns nothing' % name)

class Frame:
    def __init__(self, el, I, f, env):
        self.el, self.I, self.f, self.ln = el, I, f, 0
        self.scopes = [dict((k, ['var', v]) for k, v in env.items())]
    def err(self, m): raise Fail('%s:%s: %s' % (self.f, self.I.name if self.I else 'function', m))
    def find(self, n):
        for s in reversed(self.scopes):
            if n in s: return s[n]
        self.err('unknown name ' + n)
    def run(self, s):
        k = s[0]
        if isinstance(s[-1], tuple) and s[-1][:1] == ('@',): self.ln = s[-1][1]
        if k == 'block':
            self.scopes.append({})
            # a tuple declaration is a block for the parser only
            if len(s[1]) == 2 and s[1][0][0] == 'decl' and s[1][1][0] == 'assign' and s[1][1][1][0] == 'tuple' and len(s[1][0]) == 4: self.scopes.pop(); sc = False
            else: sc = True
            for x in s[1]: self.run(x)
            if sc: self.scopes.pop()
        elif k == 'if':
            c = self.const(s[1])
            if c: self.run(s[2])
            elif s[3] is not None: self.run(s[3])
        elif k == 'for':
            self.scopes.append({})
            if s[1]: self.run(s[1])
            n = 0
            while self.const(s[2]):
                self.run(s[4])
                if s[3]: self.run(s[3])
                n += 1
                if n > 200000: self.err('loop does not end')
            self.scopes.pop()
        elif k == 'return': raise Ret(self.ev(s[1]))
        elif k == 'assert':
            v = self.ev(s[1])
            if isinstance(v, int) and not v: self.err('assert fails')
        elif k == 'decl': self.decl(s)
        elif k == 'assign': self.assign(s[1], s[2], s[3])
        elif k == 'constrain':
            self.con(padd(self.poly(self.ev(s[1])), self.poly(self.ev(s[2])), -1))
        elif k == 'expr':
            if s[1][0] == 'anon': self.anon(s[1])
            else: self.ev(s[1])
        else: self.err('statement ' + k)
    def con(self, p): self.I.ops.append(('con', p)); self.I.where.append(self.ln)
    def const(self, e):
        v = self.ev(e)
        if isinstance(v, Poly) and set(v.d) <= {()}: v = v.d.get((), 0)
        if not isinstance(v, int): self.err('not a compile-time constant')
        return v
    def poly(self, v):
        if isinstance(v, Poly): return v.d
        if isinstance(v, int): return {(): v % P} if v % P else {}
        self.err('not a polynomial: cannot be used in a constraint')
    def nest(self, dims, mk, pre=''):
        if not dims: return mk(pre)
        return [self.nest(dims[1:], mk, pre + '[%d]' % i) for i in range(dims[0])]
    def decl(self, s):
        _, kind, sk, decl = s[:4]
        for n, dims, op, e in decl:
            ds = [self.const(d) for d in dims]
            if kind == 'var':
                v = self.nest(ds, lambda p: 0)
                self.scopes[-1][n] = ['var', v]
                if e is not None: self.scopes[-1][n][1] = self.copy(self.ev(e))
            elif kind == 'signal':
                ids = self.nest(ds, lambda p: self.I.new(n + p, sk))
                self.scopes[-1][n] = ['sig', ids]
                key = n
                if key in self.I.names:
                    k = 2
                    while '%s#%d' % (n, k) in self.I.names: k += 1
                    key = '%s#%d' % (n, k)
                self.I.names[key] = (sk, ids)
                if e is not None:
                    if e[0] == 'anon': self.store(ids, op, self.anon(e))
                    else: self.store(ids, op, self.ev(e))
            else:
                if op not in (None, '='): self.err('component initialised with ' + op)
                self.scopes[-1][n] = ['comp', self.nest(ds, lambda p: [None, n + p]) if ds else [None, n]]
                if e is not None: self.bind(self.scopes[-1][n][1], self.ev(e))
    def copy(self, v): return [self.copy(x) for x in v] if isinstance(v, list) else v
    def bind(self, cell, t):
        if not (isinstance(t, tuple) and t[0] == 'templ'): self.err('component is not initialised with a template')
        if cell[0] is not None: self.err('component %s is initialised twice' % cell[1])
        cell[0] = self.comp(cell[1], t)
    def comp(self, label, t, anon=False):
        sub = self.el.inst(t[1], t[2])
        c = Comp(); c.name, c.inst, c.ports, c.anon, c.nested = label, sub, {}, anon, {}
        for nm, (k, ids) in sub.names.items():
            if k in ('input', 'output'):
                for i in sub.flat(nm): c.ports[i] = self.I.new('%s.%s' % (label, sub.sigs[i]), ('port-in' if k == 'input' else 'port-out', len(self.I.comps)))
        self.I.comps.append(c)
        return c
    def port(self, c, nm):
        if nm not in c.inst.names or c.inst.names[nm][0] == 'inter': self.err('%s has no signal %s' % (c.inst.name, nm))
        r = c.nested.get(nm)
        if r is None:
            def go(x): return [go(y) for y in x] if isinstance(x, list) else c.ports[x]
            r = c.nested[nm] = go(c.inst.names[nm][1])
        return r
    def anon(self, e):
        _, n, args, ins = e
        c = self.comp('%s#%d' % (n, len(self.I.comps)), ('templ', n, [self.ev(a) for a in args]), True)
        inn = [k for k, (kk, _) in c.inst.names.items() if kk == 'input']
        outn = [k for k, (kk, _) in c.inst.names.items() if kk == 'output']
        if len(ins) != len(inn): self.err('%s takes %d inputs' % (n, len(inn)))
        for i, (nm, x) in enumerate(ins):
            self.store(self.port(c, nm or inn[i]), '<==', self.ev(x))
        outs = [self.wrap(self.port(c, o)) for o in outn]
        return outs[0] if len(outs) == 1 else ('tuple', outs)
    def wrap(self, ids): return [self.wrap(x) for x in ids] if isinstance(ids, list) else Poly({(ids,): 1})
    def store(self, ids, op, v):
        if isinstance(ids, list):
            if not isinstance(v, list) or len(v) != len(ids): self.err('array sizes differ in an assignment')
            for i, x in zip(ids, v): self.store(i, op, x)
            return
        if isinstance(v, list): self.err('array assigned to a signal')
        if ids in self.I.assigned: self.err('signal %s is assigned twice' % self.I.sigs[ids])
        k = self.I.kind[ids]
        if k == 'input' or (isinstance(k, tuple) and k[0] == 'port-out'): self.err('signal %s cannot be assigned here' % self.I.sigs[ids])
        self.I.assigned[ids] = op
        if op == '<==': self.I.ops.append(('def', ids, self.poly(v)))
        else: self.I.ops.append(('hint', ids, v))
        self.I.where.append(self.ln)
    # lvalues
    def assign(self, l, op, e):
        if l[0] == 'tuple':
            v = self.anon(e) if e[0] == 'anon' else self.ev(e)
            vs = v[1] if isinstance(v, tuple) and v[0] == 'tuple' else v
            if len(vs) != len(l[1]): self.err('tuple sizes differ')
            for x, y in zip(l[1], vs):
                if x == ('name', '_', []): continue
                self.assign_v(x, op, y)
            return
        if l == ('name', '_', []): 
            self.anon(e) if e[0] == 'anon' else self.ev(e); return
        self.assign_v(l, op, self.anon(e) if e[0] == 'anon' else self.ev(e))
    def assign_v(self, l, op, v):
        if l[0] != 'name': self.err('cannot assign to this expression')
        _, n, path = l
        b = self.find(n)
        if b[0] == 'var':
            if op in ('<==', '<--'): self.err('variable %s assigned as a signal' % n)
            if op != '=':
                v = self.bin(op[:-1], self.ev(l), v)
            v = self.copy(v)
            if not path: b[1] = v; return
            x = b[1]
            for p in path[:-1]: x = x[self.index(p, x)]
            x[self.index(path[-1], x)] = v
            return
        if b[0] == 'comp' and op == '=':
            x = b[1]
            for p in path: x = x[self.index(p, x)]
            return self.bind(x, v)
        if op not in ('<==', '<--'): self.err('signal %s assigned with %s' % (n, op))
        self.store(self.sigref(b, path), op, v)
    def index(self, p, x):
        if p[0] != 'idx': self.err('field access')
        i = self.const(p[1])
        if not isinstance(x, list) or i >= len(x): self.err('index %d out of range' % signed(i))
        return i
    def sigref(self, b, path):
        x, i = b[1], 0
        if b[0] == 'comp':
            while i < len(path) and path[i][0] == 'idx': x = x[self.index(path[i], x)]; i += 1
            if i >= len(path): self.err('component used as a value')
            if x[0] is None: self.err('component %s is used before it is initialised' % x[1])
            x = self.port(x[0], path[i][1]); i += 1
        for p in path[i:]: x = x[self.index(p, x)]
        return x
    # expressions
    def ev(self, e):
        k = e[0]
        if k == 'num': return e[1] % P
        if k == 'name':
            b = self.find(e[1])
            if b[0] == 'var':
                x = b[1]
                for p in e[2]: x = x[self.index(p, x)]
                return x
            return self.wrap(self.sigref(b, e[2]))
        if k == 'bin': return self.bin(e[1], self.ev(e[2]), self.ev(e[3]))
        if k == 'un':
            v = self.ev(e[2])
            if e[1] == '-': return self.bin('-', 0, v)
            if isinstance(v, int): return int(not v) if e[1] == '!' else (~v) & (2**256 - 1) % P
            return Hint(e[1], v)
        if k == 'cond':
            c = self.ev(e[1])
            if isinstance(c, int): return self.ev(e[2]) if c else self.ev(e[3])
            return Hint('?', c, self.ev(e[2]), self.ev(e[3]))
        if k == 'array': return [self.ev(x) for x in e[1]]
        if k == 'tuple': return ('tuple', [self.ev(x) for x in e[1]])
        if k == 'call': return self.el.call(e[1], [self.ev(a) for a in e[2]])
        if k == 'anon': return self.anon(e)
        self.err('expression ' + k)
    def bin(self, op, a, b):
        if isinstance(a, Poly) and set(a.d) <= {()}: a = a.d.get((), 0)
        if isinstance(b, Poly) and set(b.d) <= {()}: b = b.d.get((), 0)
        if isinstance(a, int) and isinstance(b, int): return c_bin(op, a, b)
        if isinstance(a, list) or isinstance(b, list): self.err('arithmetic on arrays')
        if not isinstance(a, Hint) and not isinstance(b, Hint):
            if op in '+-' : return Poly(padd(self.poly(a), self.poly(b), 1 if op == '+' else -1))
            if op == '*': return Poly(pmul(self.poly(a), self.poly(b)))
            if op == '/' and isinstance(b, int): return Poly(pmul(self.poly(a), {(): c_bin('/', 1, b)}))
            if op == '**' and isinstance(b, int) and b <= 8:
                r = {(): 1}
                for _ in range(b): r = pmul(r, self.poly(a))
                return Poly(r)
        return Hint(op, a, b)

CIRC = os.path.join(REPO, 'packages', 'circuits')
_el = {}
def elab(rel):
    """Elaborator for a circuit file given relative to packages/circuits."""
    if rel not in _el:
        defs, main, files = load(os.path.join(CIRC, rel))
        e = Elab(defs); e.main, e.files = main, files
        _el[rel] = e
    return _el[rel]

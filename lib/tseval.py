"""Expressions and statements of the TypeScript interpreter."""
import tsint
from tsint import *

BIN = {}
def num(x): return isinstance(x, (int, float)) and not isinstance(x, bool)

class It:
    def __init__(self, w, m): self.w, self.m = w, m
    # modules
    def module(self, stmts):
        m, w, e = self.m, self.w, self.m.env
        e.v['%imports'] = self.imports = {}
        m.imports = self.imports; m.stars = []
        for s in stmts:
            if s['k'] == 'ImportDeclaration': self.imp(s)
        for s in stmts:
            if s['k'] == 'FunctionDeclaration' and 'body' in s: self.fdecl(s, e)
        for s in stmts:
            k = s['k']
            mods = [x['k'] for x in s.get('modifiers', [])]
            if k in ('ImportDeclaration', 'InterfaceDeclaration', 'TypeAliasDeclaration', 'EmptyStatement'): continue
            if k == 'ExportDeclaration':
                c = s.get('exportClause'); sp = s.get('moduleSpecifier', {}).get('text')
                if s.get('isTypeOnly'): continue
                if c is None: m.stars.append(w.resolve(m.path, sp)); continue
                for x in c['elements']:
                    if x.get('isTypeOnly'): continue
                    n = x['name'].get('escapedText') or x['name'].get('text')
                    src = x.get('propertyName', x['name']).get('escapedText')
                    if sp: m.exports[n] = ('fwd', w.resolve(m.path, sp), src)
                    elif src in self.imports:
                        i = self.imports[src]
                        m.exports[n] = ('ns', i[0]) if i[1] == '*' else ('fwd', i[0], i[1])
                    else: m.exports[n] = ('ref', src)
                continue
            if k == 'ExportAssignment':
                m.exports['default'] = self.ex(s['expression'], e); continue
            if k != 'FunctionDeclaration': self.st(s, e)
            if 'ExportKeyword' in mods:
                if 'DefaultKeyword' in mods: m.exports['default'] = ('ref', s['name']['escapedText'])
                elif k == 'VariableStatement':
                    for d in s['declarationList']['declarations']:
                        for n in self.names(d['name']): m.exports[n] = ('ref', n)
                else: m.exports[s['name']['escapedText']] = ('ref', s['name']['escapedText'])
    def names(self, p):
        if p['k'] == 'Identifier': return [p['escapedText']]
        return [n for x in p['elements'] if x['k'] == 'BindingElement' for n in self.names(x['name'])]
    def imp(self, s):
        c = s.get('importClause')
        if c is None or c.get('isTypeOnly'): return
        spec = s['moduleSpecifier']['text']
        nb = c.get('namedBindings')
        tgt = None
        def path():
            return self.w.resolve(self.m.path, spec)
        try: p = path()
        except Fail: p = None
        if c.get('name'): self.imports[c['name']['escapedText']] = (p, 'default', spec)
        if nb is not None:
            if nb['k'] == 'NamespaceImport': self.imports[nb['name']['escapedText']] = (p, '*', spec)
            else:
                for x in nb['elements']:
                    if not x.get('isTypeOnly'):
                        self.imports[x['name']['escapedText']] = (p, x.get('propertyName', x['name']).get('escapedText'), spec)
    # statements
    def block(self, ss, up):
        e = Env(up)
        for s in ss:
            if s['k'] == 'FunctionDeclaration' and 'body' in s: self.fdecl(s, e)
        for s in ss: self.st(s, e)
    def fdecl(self, s, e):
        e.v[s['name']['escapedText']] = self.fn(s, e, s['name']['escapedText'])
    def fn(self, s, e, name='', cls=None):
        return Func(s, (e, self.m), name=name, isasync=any(m['k'] == 'AsyncKeyword' for m in s.get('modifiers', [])), arrow=s['k'] == 'ArrowFunction', cls=cls)
    def st(self, s, e):
        k = s['k']; w = self.w
        w.steps += 1
        if w.steps > 200000: undecided('too many steps', s)
        if k == 'ExpressionStatement': self.ex(s['expression'], e)
        elif k == 'VariableStatement':
            for d in s['declarationList']['declarations']: self.decl(d, e)
        elif k == 'VariableDeclarationList':
            for d in s['declarations']: self.decl(d, e)
        elif k == 'ReturnStatement':
            raise Ret(self.ex(s['expression'], e) if 'expression' in s else UNDEF)
        elif k == 'IfStatement':
            if w.truthy(self.ex(s['expression'], e)): self.st(s['thenStatement'], e)
            elif 'elseStatement' in s: self.st(s['elseStatement'], e)
        elif k == 'Block': self.block(s['statements'], e)
        elif k == 'ThrowStatement': raise Throw(self.ex(s['expression'], e))
        elif k == 'TryStatement':
            def body():
                try: self.st(s['tryBlock'], e)
                except Throw as t:
                    c = s.get('catchClause')
                    if c is None: raise
                    x = Env(e)
                    if 'variableDeclaration' in c: self.bind(c['variableDeclaration']['name'], t.v, x)
                    self.st(c['block'], x)
            f = s.get('finallyBlock')
            if f is None: body()
            else:
                try: body()
                finally:
                    import sys
                    if not isinstance(sys.exc_info()[1], Fail): self.st(f, e)
        elif k == 'ForStatement':
            x = Env(e)
            i = s.get('initializer')
            if i is not None: self.st(i, x) if i['k'] == 'VariableDeclarationList' else self.ex(i, x)
            n = 0
            while 'condition' not in s or w.truthy(self.ex(s['condition'], x)):
                n += 1
                if n > 5000: undecided('loop without a known bound', s)
                y = Env(e); y.v = dict(x.v)
                try: self.st(s['statement'], y)
                except Brk: break
                except Cont: pass
                for q in x.v: x.v[q] = y.v[q]
                if 'incrementor' in s: self.ex(s['incrementor'], x)
        elif k in ('WhileStatement', 'DoStatement'):
            n, first = 0, k == 'DoStatement'
            while first or w.truthy(self.ex(s['expression'], e)):
                first = False; n += 1
                if n > 5000: undecided('loop without a known bound', s)
                try: self.st(s['statement'], e)
                except Brk: break
                except Cont: pass
        elif k in ('ForOfStatement', 'ForInStatement'):
            v = self.ex(s['expression'], e)
            xs = self.iter(v, s) if k == 'ForOfStatement' else self.keys(v, s)
            for q in xs:
                x = Env(e); i = s['initializer']
                if i['k'] == 'VariableDeclarationList': self.bind(i['declarations'][0]['name'], q, x)
                else: self.assign(i, q, x)
                try: self.st(s['statement'], x)
                except Brk: break
                except Cont: continue
        elif k == 'BreakStatement': raise Brk()
        elif k == 'ContinueStatement': raise Cont()
        elif k == 'SwitchStatement':
            v = self.ex(s['expression'], e); x = Env(e); on = False
            cl = s['caseBlock']['clauses']
            start = None
            for i, c in enumerate(cl):
                if c['k'] == 'CaseClause' and w.truthy(w.eq(v, self.ex(c['expression'], x))): start = i; break
            if start is None: start = next((i for i, c in enumerate(cl) if c['k'] == 'DefaultClause'), None)
            if start is not None:
                try:
                    for c in cl[start:]:
                        for q in c['statements']: self.st(q, x)
                except Brk: pass
        elif k == 'ClassDeclaration': e.v[s['name']['escapedText']] = self.cls(s, e)
        elif k in ('FunctionDeclaration', 'InterfaceDeclaration', 'TypeAliasDeclaration', 'EmptyStatement'): pass
        else: undecided('statement %s' % k, s)
    def decl(self, d, e):
        self.bind(d['name'], self.ex(d['initializer'], e) if 'initializer' in d else UNDEF, e, named=True)
    def bind(self, p, v, e, named=False):
        if p['k'] == 'Identifier':
            if named and isinstance(v, (Func,)) and not v.name: v.name = p['escapedText']
            e.v[p['escapedText']] = v
        elif p['k'] == 'ObjectBindingPattern':
            if v is UNDEF or v is None: raise err('TypeError', 'destructuring')
            used = []
            for x in p['elements']:
                if 'dotDotDotToken' in x:
                    o = Obj({a: b for a, b in self.entries(v, x) if a not in used})
                    self.bind(x['name'], o, e); continue
                n = self.pname(x.get('propertyName', x['name']), e); used.append(n)
                q = self.w.get(v, n, x)
                if q is UNDEF and 'initializer' in x: q = self.ex(x['initializer'], e)
                self.bind(x['name'], q, e)
        elif p['k'] == 'ArrayBindingPattern':
            xs = self.iter(v, p)
            for i, x in enumerate(p['elements']):
                if x['k'] == 'OmittedExpression': continue
                if 'dotDotDotToken' in x: self.bind(x['name'], Arr(xs[i:]), e); continue
                q = xs[i] if i < len(xs) else UNDEF
                if q is UNDEF and 'initializer' in x: q = self.ex(x['initializer'], e)
                self.bind(x['name'], q, e)
        else: undecided('pattern %s' % p['k'], p)
    def params(self, ps, args, e):
        i = 0
        for p in ps:
            if p['name'].get('escapedText') == 'this': continue
            if 'dotDotDotToken' in p: self.bind(p['name'], Arr(args[i:]), e); return
            v = args[i] if i < len(args) else UNDEF
            if v is UNDEF and 'initializer' in p: v = self.ex(p['initializer'], e)
            self.bind(p['name'], v, e); i += 1
    def pname(self, n, e):
        if n['k'] in ('Identifier', 'PrivateIdentifier'): return n['escapedText']
        if n['k'] == 'StringLiteral': return n['text']
        if n['k'] == 'NumericLiteral': return int(n['text'])
        if n['k'] == 'ComputedPropertyName': return self.ex(n['expression'], e)
        undecided('property name', n)
    def cls(self, s, e):
        c = Class(s.get('name', {}).get('escapedText', '')); x = Env(e); c.env = (x, self.m); x.v[c.name] = c
        for h in s.get('heritageClauses', []):
            if h['token'] == 96:                                 # extends
                for t in h['types']:
                    b = self.ex(t['expression'], e)
                    if isinstance(b, Class): c.base = b
                    elif isinstance(b, Native): undecided('class extends a library class', s)
        for m in s['members']:
            st = any(q['k'] == 'StaticKeyword' for q in m.get('modifiers', []))
            k = m['k']
            if k == 'Constructor':
                if 'body' in m: c.ctor = m
            elif k == 'MethodDeclaration':
                if 'body' not in m: continue
                n = self.pname(m['name'], x)
                (c.static if st else c.methods)[n] = self.fn(m, x, n, c)
            elif k == 'GetAccessor':
                if st: undecided('static accessor', m)
                c.getters[self.pname(m['name'], x)] = self.fn(m, x, '', c)
            elif k == 'PropertyDeclaration':
                n = self.pname(m['name'], x)
                if st:
                    y = Env(x); y.v['this'] = c
                    c.static[n] = self.ex(m['initializer'], y) if 'initializer' in m else UNDEF
                else: c.fields.append((n, m.get('initializer')))
            elif k in ('SemicolonClassElement', 'IndexSignature'): pass
            else: undecided('class member %s' % k, m)
        return c
    def iter(self, v, n):
        if isinstance(v, Arr): return list(v.xs)
        if isinstance(v, str): return list(v)
        if isinstance(v, Bytes):
            if v.tail is not None: undecided('iteration over a byte string of unknown length', n)
            return [self.num(b) for b in v.b]
        if isinstance(v, Obj) and v.tag in ('Set', 'Map') and hasattr(v, 'kv'): return [e[0] if v.tag == 'Set' else Arr(list(e)) for e in v.kv]
        if hasattr(v, 'cells') and v.width == 1: return [self.num(v.g.known(b)) for b in v.cells()]
        if v is UNDEF or v is None: raise err('TypeError', 'not iterable')
        undecided('iteration over %s' % type(v).__name__, n)
    def num(self, b): return b if isinstance(b, int) else Num(pbyte(b))
    def entries(self, v, n):
        if isinstance(v, Obj) and v.tag in (None, 'proof') or isinstance(v, Obj) and v.cls is not None: return list(v.props.items())
        if isinstance(v, Arr): return list(enumerate(v.xs))
        if v is UNDEF or v is None: return []
        undecided('properties of %s' % type(v).__name__, n)
    def keys(self, v, n): return [str(a) for a, _ in self.entries(v, n)]
    # expressions
    def ex(self, x, e):
        m = getattr(self, 'x_' + x['k'], None)
        if m is None: undecided('expression %s' % x['k'], x)
        return m(x, e)
    def x_Identifier(self, x, e):
        n = x['escapedText']
        s = e.find(n)
        if s is not None: return s.v[n]
        i = self.m.imports.get(n)
        if i is not None:
            if i[0] is None: raise Fail('module %s not found' % i[2])
            mod = self.w.load(i[0])
            if i[1] == '*': return self.w.ns(mod)
            if i[1] == 'default' and getattr(mod, 'native', False) and 'default' not in mod.exports: return self.w.ns(mod)
            try: return self.w.export(mod, i[1])
            except KeyError: raise Undecided('%s is not exported by %s' % (i[1], i[2]))
        import tslib
        v = tslib.globalvar(self.w, n)
        if v is None and n == 'window': raise err('ReferenceError', n)
        if v is None: undecided('the name %s' % n)
        return v
    def x_ThisKeyword(self, x, e):
        s = e.find('this')
        return s.v['this'] if s else UNDEF
    def x_SuperKeyword(self, x, e): undecided('super', x)
    def x_NumericLiteral(self, x, e):
        t = x['text']
        return int(t, 0) if not any(c in t for c in '.eE') or t.lower().startswith('0x') else float(t)
    def x_BigIntLiteral(self, x, e): return Big(pc(int(x['text'].rstrip('n').replace('_', ''), 0)))
    def x_StringLiteral(self, x, e): return x['text']
    def x_NoSubstitutionTemplateLiteral(self, x, e): return x['text']
    def x_TrueKeyword(self, x, e): return True
    def x_FalseKeyword(self, x, e): return False
    def x_NullKeyword(self, x, e): return None
    def x_ParenthesizedExpression(self, x, e): return self.ex(x['expression'], e)
    x_AsExpression = x_NonNullExpression = x_TypeAssertionExpression = x_SatisfiesExpression = x_ParenthesizedExpression
    def x_VoidExpression(self, x, e): self.ex(x['expression'], e); return UNDEF
    def x_ArrowFunction(self, x, e): return self.fn(x, e)
    def x_FunctionExpression(self, x, e):
        f = self.fn(x, e, x.get('name', {}).get('escapedText', ''))
        if f.name:
            y = Env(e); y.v[f.name] = f; f.env = (y, self.m)
        return f
    def x_ClassExpression(self, x, e): return self.cls(x, e)
    def x_TemplateExpression(self, x, e):
        ps = [x['head']['text']]
        for t in x['templateSpans']:
            v = self.w.tostr(self.ex(t['expression'], e))
            ps += [v] if isinstance(v, str) else list(v.ps)
            ps.append(t['literal']['text'])
        return mkstr(ps)
    def x_ArrayLiteralExpression(self, x, e): return Arr(self.args(x['elements'], e))
    def args(self, xs, e):
        r = []
        for a in xs:
            if a['k'] == 'SpreadElement': r += self.iter(self.ex(a['expression'], e), a)
            elif a['k'] == 'OmittedExpression': r.append(UNDEF)
            else: r.append(self.ex(a, e))
        return r
    def x_ObjectLiteralExpression(self, x, e):
        o = Obj()
        for p in x['properties']:
            k = p['k']
            if k == 'PropertyAssignment': o.props[self.pname(p['name'], e)] = self.ex(p['initializer'], e)
            elif k == 'ShorthandPropertyAssignment': o.props[p['name']['escapedText']] = self.x_Identifier(p['name'], e)
            elif k == 'SpreadAssignment':
                for a, b in self.entries(self.ex(p['expression'], e), p): o.props[a] = b
            elif k == 'MethodDeclaration':
                n = self.pname(p['name'], e); o.props[n] = self.fn(p, e, n)
            else: undecided('object member %s' % k, p)
        return o
    def x_AwaitExpression(self, x, e):
        v = self.ex(x['expression'], e)
        n = 0
        while isinstance(v, Promise):
            if not v.ok: raise Throw(v.v)
            v = v.v
        return v
    def x_TypeOfExpression(self, x, e):
        i = x['expression']
        if i['k'] == 'Identifier' and i['escapedText'] == 'window' and not e.find('window'):
            return 'object' if self.w.haswindow() else 'undefined'
        try: v = self.ex(i, e)
        except Throw: return 'undefined'
        if v is UNDEF: return 'undefined'
        if isinstance(v, (bool, Sym)): return 'boolean'
        if isinstance(v, (int, float, Num)): return 'number'
        if isinstance(v, (str, Str)): return 'string'
        if isinstance(v, Big): return 'bigint'
        if isinstance(v, (Func, Native, Class, Bound)): return 'function'
        return 'object'
    def x_ConditionalExpression(self, x, e):
        return self.ex(x['whenTrue' if self.w.truthy(self.ex(x['condition'], e)) else 'whenFalse'], e)
    def x_DeleteExpression(self, x, e):
        t = x['expression']
        o = self.ex(t['expression'], e)
        n = t['name']['escapedText'] if t['k'] == 'PropertyAccessExpression' else self.ex(t['argumentExpression'], e)
        if not isinstance(o, Obj): undecided('delete', x)
        o.props.pop(n, None)
        return True
    def x_PropertyAccessExpression(self, x, e):
        if x['expression']['k'] == 'SuperKeyword': return self.superm(x, e)
        o = self.ex(x['expression'], e)
        if o is SHORT or 'questionDotToken' in x and (o is UNDEF or o is None): return SHORT if self.chain(x) else UNDEF
        return self.w.get(o, x['name']['escapedText'], x)
    def chain(self, x): return False
    def superm(self, x, e):
        c = e.find('%cls').v['%cls']
        m, _ = self.w.method(c.base, x['name']['escapedText'])
        if m is None: return UNDEF
        return Bound(m, e.find('this').v['this'])
    def index(self, x, e):
        i = self.ex(x['argumentExpression'], e)
        if isinstance(i, (int, str)) and not isinstance(i, bool):
            return int(i) if isinstance(i, str) and i.isdigit() else i
        if isinstance(i, Big) and pconst(i.p) is not None: return pconst(i.p)
        undecided('index is not a constant', x)
    def x_ElementAccessExpression(self, x, e):
        o = self.ex(x['expression'], e)
        if 'questionDotToken' in x and (o is UNDEF or o is None): return UNDEF
        return self.w.get(o, self.index(x, e), x)
    def x_CallExpression(self, x, e):
        c, w = x['expression'], self.w
        while c['k'] in ('ParenthesizedExpression', 'NonNullExpression'): c = c['expression']
        if c['k'] == 'SuperKeyword':
            cl = e.find('%cls').v['%cls']; o = e.find('this').v['this']
            w.construct(cl.base, o, self.args(x['arguments'], e)); w.fields(cl, o)
            return UNDEF
        if c['k'] == 'ImportKeyword': undecided('dynamic import', x)
        this = UNDEF
        if c['k'] == 'Identifier' and c['escapedText'] == 'require' and not e.find('require'):
            return w.ns(w.load(w.resolve(self.m.path, self.args(x['arguments'], e)[0])))
        if c['k'] in ('PropertyAccessExpression', 'ElementAccessExpression'):
            if c['expression']['k'] == 'SuperKeyword': f = self.superm(c, e); this = f.this; f = f.f
            else:
                this = self.ex(c['expression'], e)
                if 'questionDotToken' in c and (this is UNDEF or this is None): return UNDEF
                f = w.get(this, c['name']['escapedText'] if c['k'] == 'PropertyAccessExpression' else self.index(c, e), c)
        else: f = self.ex(c, e)
        if 'questionDotToken' in x and (f is UNDEF or f is None): return UNDEF
        a = self.args(x['arguments'], e)
        if f is UNDEF or f is None: raise err('TypeError', 'not a function')
        return w.call(f, a, this)
    def x_NewExpression(self, x, e):
        return self.w.new(self.ex(x['expression'], e), self.args(x.get('arguments', []), e))
    # operators
    def x_PrefixUnaryExpression(self, x, e):
        op = x['operator']
        name = OPS[op]
        if name in ('++', '--'):
            v = self.ex(x['operand'], e); r = self.bin('+' if name == '++' else '-', v, Big(pc(1)) if isinstance(v, Big) else 1, x)
            self.assign(x['operand'], r, e); return r
        v = self.ex(x['operand'], e)
        if name == '!': return self.w.lnot(v)
        if name == '-':
            if isinstance(v, Big): return Big(padd({}, v.p, -1))
            if isinstance(v, Num): return Num(padd({}, v.p, -1))
            return -v
        if name == '+':
            if num(v) or isinstance(v, Num): return v
            if isinstance(v, bool): return int(v)
            if isinstance(v, Sym): return 1 if self.w.truthy(v) else 0
            if isinstance(v, Big): raise err('TypeError')
        if name == '~' and isinstance(v, int): return ~v
        undecided('operator %s' % name, x)
    def x_PostfixUnaryExpression(self, x, e):
        v = self.ex(x['operand'], e)
        self.assign(x['operand'], self.bin('+' if OPS[x['operator']] == '++' else '-', v, Big(pc(1)) if isinstance(v, Big) else 1, x), e)
        return v
    def assign(self, t, v, e):
        while t['k'] in ('ParenthesizedExpression', 'AsExpression', 'NonNullExpression'): t = t['expression']
        k = t['k']
        if k == 'Identifier':
            s = e.find(t['escapedText'])
            if s is None: undecided('assignment to a global', t)
            s.v[t['escapedText']] = v
        elif k == 'PropertyAccessExpression': self.w.set(self.ex(t['expression'], e), t['name']['escapedText'], v, t)
        elif k == 'ElementAccessExpression': self.w.set(self.ex(t['expression'], e), self.index(t, e), v, t)
        elif k == 'ArrayLiteralExpression':
            xs = self.iter(v, t)
            for i, q in enumerate(t['elements']): self.assign(q, xs[i] if i < len(xs) else UNDEF, e)
        elif k == 'ObjectLiteralExpression':
            for p in t['properties']:
                if p['k'] == 'ShorthandPropertyAssignment': self.assign(p['name'], self.w.get(v, p['name']['escapedText'], p), e)
                elif p['k'] == 'PropertyAssignment': self.assign(p['initializer'], self.w.get(v, self.pname(p['name'], e), p), e)
                else: undecided('assignment pattern', t)
        else: undecided('assignment to %s' % k, t)
    def x_BinaryExpression(self, x, e):
        op = x['operatorToken']['k']; w = self.w
        L, R = x['left'], x['right']
        if op == 'EqualsToken':
            v = self.ex(R, e); self.assign(L, v, e); return v
        if op == 'AmpersandAmpersandToken':
            v = self.ex(L, e); return self.ex(R, e) if w.truthy(v) else (False if isinstance(v, Sym) else v)
        if op == 'BarBarToken':
            v = self.ex(L, e)
            return (True if isinstance(v, Sym) else v) if w.truthy(v) else self.ex(R, e)
        if op == 'QuestionQuestionToken':
            v = self.ex(L, e); return self.ex(R, e) if v is UNDEF or v is None else v
        if op == 'CommaToken': self.ex(L, e); return self.ex(R, e)
        if op in ('AmpersandAmpersandEqualsToken', 'BarBarEqualsToken', 'QuestionQuestionEqualsToken'):
            v = self.ex(L, e)
            c = w.truthy(v) if op[0] == 'A' else not w.truthy(v) if op[0] == 'B' else v is UNDEF or v is None
            if not c: return v
            v = self.ex(R, e); self.assign(L, v, e); return v
        if op in TOK and TOK[op].endswith('=') and TOK[op] not in ('==', '===', '!=', '!==', '<=', '>='):
            v = self.bin(TOK[op][:-1], self.ex(L, e), self.ex(R, e), x); self.assign(L, v, e); return v
        if op == 'InstanceOfKeyword':
            a, b = self.ex(L, e), self.ex(R, e)
            if isinstance(b, Class):
                c = a.cls if isinstance(a, Obj) else None
                while c is not None:
                    if c is b: return True
                    c = c.base
                return False
            if isinstance(b, Native) and b.name in ('Uint8Array', 'Buffer'): return isinstance(a, Bytes) and (b.name == 'Uint8Array' or a.buf)
            if isinstance(b, Native) and b.name == 'Error': return isinstance(a, Obj) and isinstance(a.tag, str) and a.tag.endswith('Error')
            undecided('instanceof', x)
        if op == 'InKeyword':
            a, b = self.ex(L, e), self.ex(R, e)
            if isinstance(b, Obj) and b.tag is None: return a in b.props
            undecided('in', x)
        if op not in TOK: undecided('operator %s' % op, x)
        return self.bin(TOK[op], self.ex(L, e), self.ex(R, e), x)
    def bin(self, op, a, b, x):
        w = self.w
        if op in ('===', '=='): return w.eq(a, b, op == '===')
        if op in ('!==', '!='): return w.lnot(w.eq(a, b, op == '!=='))
        for v in (a, b):
            if isinstance(v, Sym): undecided('arithmetic on a truth value', x)
        if op == '+' and (isinstance(a, (str, Str)) or isinstance(b, (str, Str))):
            ps = []
            for v in (a, b):
                s = w.tostr(v); ps += [s] if isinstance(s, str) else list(s.ps)
            return mkstr(ps)
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if isinstance(a, Big) != isinstance(b, Big):
            if op in ('<', '>', '<=', '>='):
                a, b = [v if isinstance(v, Big) else Big(pc(v)) if isinstance(v, int) else Big(v.p) if isinstance(v, Num) else undecided('comparison', x) for v in (a, b)]
            else: raise err('TypeError', 'mix of bigint and number')
        if isinstance(a, Big): return self.big(op, a.p, b.p, x)
        if num(a) and num(b):
            try:
                if op == '+': return a + b
                if op == '-': return a - b
                if op == '*': return a * b
                if op == '/':
                    if b == 0: undecided('division by zero', x)
                    return a // b if isinstance(a, int) and isinstance(b, int) and a % b == 0 else a / b
                if op == '%': return a - b * int(a / b)
                if op == '**': return a ** b
                if op == '<': return a < b
                if op == '>': return a > b
                if op == '<=': return a <= b
                if op == '>=': return a >= b
                s = lambda v: (v & 0xffffffff) - (1 << 32 if v & 0x80000000 else 0)
                if op == '<<': return s(a << (b & 31))
                if op == '>>': return s(a) >> (b & 31)
                if op == '>>>': return (a & 0xffffffff) >> (b & 31)
                if op == '&': return s(a & b)
                if op == '|': return s(a | b)
                if op == '^': return s(a ^ b)
            except TypeError: pass
            undecided('operator %s' % op, x)
        if isinstance(a, (Num, int)) and isinstance(b, (Num, int)):
            p, q = [v.p if isinstance(v, Num) else pc(v) for v in (a, b)]
            if op in '+-*':
                r = padd(p, q, 1 if op == '+' else -1) if op in '+-' else pmul(p, q)
                return Num(r) if pconst(r) is None else pconst(r)
            if op in ('<', '>', '<=', '>='): return self.cmp(op, p, q)
            if op == '&' and pconst(q) == 255 and width(canon(p)) == 1: return a
            c = pconst(q)
            if op == '|' and self.disjoint(p, q): return Num(padd(p, q))
            if op == '<<' and c is not None and c <= 16: return Num(pmul(p, pc(1 << c)))
            if op == '%' and c: return Num(pa('rem', pk(canon(p)), c))
            if op == '&' and c is not None: return Num(pa('and', pk(canon(p)), c))
        if (a is UNDEF or b is UNDEF) and op in ('<', '>', '<=', '>='): return False
        undecided('operator %s on %s and %s' % (op, type(a).__name__, type(b).__name__), x)
    def disjoint(self, p, q):
        return canon(padd(p, q)) != padd(p, q) or not p or not q
    def cmp(self, op, p, q):
        if op in ('>', '<='): return self.cmp({'>': '<', '<=': '>='}[op], q, p)
        # op is < or >=
        d = padd(canon(p), canon(q), -1); c = pconst(d)
        if c is not None: return (c < 0) == (op == '<')
        w1, c2 = width(canon(p)), pconst(q)
        if c2 is not None and w1 is not None:
            if c2 >= 256 ** w1: return op == '<'
            if c2 <= 0: return op != '<'
        c1, w2 = pconst(p), width(canon(q))
        if c1 is not None and w2 is not None:
            if c1 >= 256 ** w2 - 1: return op != '<'
            if c1 < 0: return op == '<'
        # lengths are never negative
        if all(len(m) == 1 and tsint._atoms[m[0]][0] == 'len' for m in d if m):
            if all(v >= 0 for m, v in d.items()): return op != '<'
            if d.get((), 0) < 0 and all(v < 0 for v in d.values()): return op == '<'
        s = Sym('lt', pk(canon(p)), pk(canon(q)))
        return s if op == '<' else not self.w.truthy(s)
    def big(self, op, p, q, x):
        c, d = pconst(p), pconst(q)
        if op == '+': return Big(padd(p, q))
        if op == '-': return Big(padd(p, q, -1))
        if op == '*': return Big(pmul(p, q))
        if op in ('<', '>', '<=', '>='): return self.cmp(op, p, q)
        if op == '|':
            if c is not None and d is not None: return Big(pc(c | d))
            if self.disjoint(p, q): return Big(padd(p, q))
            undecided('| of overlapping values', x)
        if c is not None and d is not None:
            if op == '&': return Big(pc(c & d))
            if op == '^': return Big(pc(c ^ d))
            if op == '<<': return Big(pc(c << d if d >= 0 else c >> -d))
            if op == '>>': return Big(pc(c >> d))
            if op == '**': return Big(pc(c ** d))
            if op in '/%':
                if d == 0: raise err('RangeError', 'division by zero')
                t = abs(c) // abs(d); t = -t if (c < 0) != (d < 0) else t
                return Big(pc(t if op == '/' else c - d * t))
        if d is not None:
            if op == '<<': return Big(pmul(p, pc(1 << d)))
            k = None
            if op == '>>' and d % 8 == 0: k, lo = d // 8, False
            elif op in '/%' and d > 0 and d & (d - 1) == 0 and (d.bit_length() - 1) % 8 == 0: k, lo = (d.bit_length() - 1) // 8, op == '%'
            elif op == '&' and (d + 1) & d == 0 and d.bit_length() % 8 == 0: k, lo = d.bit_length() // 8, True
            p = canon(p)
            wd = width(p)
            if k is not None and wd is not None:
                bs = be(p, wd)
                if k == 0: return Big({}) if lo else Big(p)
                return Big(int_of(bs[-k:] if lo else bs[:-k]))
            if op == '%': return Big(pa('rem', pk(p), d))
            if op == '/': return Big(pa('quo', pk(p), d))
            if op == '&': return Big(pa('and', pk(p), d))
            if op == '>>': return Big(pa('shr', pk(p), d))
        if op == '%': return Big(pa('rem', pk(p), pk(q)))
        undecided('operator %s on integers' % op, x)

class Short: pass
SHORT = Short()
TOK = {'PlusToken': '+', 'MinusToken': '-', 'AsteriskToken': '*', 'SlashToken': '/', 'PercentToken': '%', 'AsteriskAsteriskToken': '**',
       'LessThanToken': '<', 'GreaterThanToken': '>', 'LessThanEqualsToken': '<=', 'GreaterThanEqualsToken': '>=',
       'EqualsEqualsToken': '==', 'EqualsEqualsEqualsToken': '===', 'ExclamationEqualsToken': '!=', 'ExclamationEqualsEqualsToken': '!==',
       'AmpersandToken': '&', 'BarToken': '|', 'CaretToken': '^', 'LessThanLessThanToken': '<<', 'GreaterThanGreaterThanToken': '>>',
       'GreaterThanGreaterThanGreaterThanToken': '>>>', 'PlusEqualsToken': '+=', 'MinusEqualsToken': '-=', 'AsteriskEqualsToken': '*=',
       'SlashEqualsToken': '/=', 'PercentEqualsToken': '%=', 'AmpersandEqualsToken': '&=', 'BarEqualsToken': '|=', 'CaretEqualsToken': '^=',
       'LessThanLessThanEqualsToken': '<<=', 'GreaterThanGreaterThanEqualsToken': '>>='}
class _Ops(dict):
    def __missing__(self, k): undecided('unary operator %s' % k)
OPS = _Ops({46: '++', 47: '--', 54: '!', 41: '-', 40: '+', 55: '~'})

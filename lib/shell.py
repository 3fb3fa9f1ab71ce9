"""Evaluation of the build scripts: a small POSIX-shell evaluator that runs no command.  Variables, positional parameters,
quoting, `cd`, `&&`/`;`, `for`, functions, `export`, `set`, `shift`, `${x:-d}` and calls of other scripts of the tree are evaluated; every other
command is recorded with its working directory and its evaluated words, and is assumed to succeed."""
import os, posixpath, re
from vc import Fail, REPO

OPS = ('&&', '||', ';;', ';', '|', '&', '\n', '(', ')', '{', '}')
def close(s, i):
    d, j = 0, i + 1
    while True:
        d += (s[j] == '(') - (s[j] == ')'); j += 1
        if d == 0: return j
def tokens(s):
    """list of ('op', x) or ('word', [(quoted, text), ..])"""
    s = s.replace('\\\n', '')
    i, out = 0, []
    while i < len(s):
        ch = s[i]
        if ch in ' \t\r': i += 1; continue
        if ch == '#':
            while i < len(s) and s[i] != '\n': i += 1
            continue
        op = next((o for o in OPS if s.startswith(o, i)), None)
        if op and not (op in '{}' and i + 1 < len(s) and s[i + 1] not in ' \t\n;&'):
            out.append(('op', op)); i += len(op); continue
        if ch in '<>': raise Fail('redirection in a build script')
        w = []
        while i < len(s) and s[i] not in ' \t\r\n;&|()<>':
            ch = s[i]
            if ch == "'":
                j = s.index("'", i + 1); w.append(('lit', s[i + 1:j])); i = j + 1
            elif ch == '"':
                j, b = i + 1, ''
                while s[j] != '"':
                    if s[j] == '\\' and s[j + 1] in '"\\$`': b += '\0' + s[j + 1] if s[j + 1] == '$' else s[j + 1]; j += 2
                    elif s.startswith('$(', j):
                        if b: w.append(('dq', b)); b = ''
                        e = close(s, j); w.append(('sub', s[j + 2:e - 1])); j = e
                    else: b += s[j]; j += 1
                w.append(('dq', b)); i = j + 1
            elif ch == '\\': w.append(('lit', s[i + 1])); i += 2
            elif s.startswith('${', i):
                j = s.index('}', i); w.append(('raw', s[i:j + 1])); i = j + 1
            elif ch == '`' or s.startswith('$(', i):
                if ch == '`': raise Fail('command substitution in a build script')
                e = close(s, i); w.append(('sub', s[i + 2:e - 1])); i = e
            else: w.append(('raw', ch)); i += 1
        m = []
        for k, t in w:
            if m and m[-1][0] == k == 'raw': m[-1] = (k, m[-1][1] + t)
            else: m.append((k, t))
        out.append(('word', m))
    return out

class Stop(Exception): pass
class Shell:
    def __init__(self, args=(), cwd='.', env=None, name='sh', log=None, funs=None, depth=0):
        self.args, self.cwd, self.env, self.name = list(args), cwd, dict(env or {}), name
        self.log = [] if log is None else log
        self.funs, self.depth = dict(funs or {}), depth
        if depth > 12: raise Fail('build scripts call one another without end')
    def subst(self, t):
        def f(m):
            x = m.group(1) or m.group(2)
            q = re.match(r'(\w+|[@*#])(?::?-(.*))?$', x)
            if not q: raise Fail('parameter expansion ${%s}' % x)
            n, d = q.groups()
            if n == '0': v = self.name
            elif n.isdigit(): v = self.args[int(n) - 1] if int(n) <= len(self.args) else ''
            elif n in '@*': v = ' '.join(self.args)
            elif n == '#': v = str(len(self.args))
            else: v = self.env.get(n)
            if v is None and d is None and n not in self.env: v = '' 
            if not v and d is not None: v = self.subst(d)
            return v
        t = re.sub(r'(?<!\0)\$(?:\{([^}]*)\}|(\w+|[@*#]))', f, t)
        return t.replace('\0', '')
    def word(self, w):
        """the fields a word expands to"""
        out, cur, any_ = [], '', False
        for k, t in w:
            if k == 'lit': cur += t; any_ = True
            elif k == 'dq':
                if t == '$@' or t == '${@}':
                    out += self.args[:-1] if not cur else [cur + self.args[0]] + self.args[1:-1]
                    cur = self.args[-1] if self.args else ''; any_ = bool(self.args)
                else: cur += self.subst(t); any_ = True
            elif k == 'sub':
                cur += self.output(t); any_ = True
            else:
                if '$' in t:
                    parts = re.split(r'(\s+)', self.subst(t))
                    for p in parts:
                        if p.isspace():
                            if cur or any_: out.append(cur)
                            cur, any_ = '', False
                        else: cur += p
                else: cur += t
        if cur or any_: out.append(cur)
        return out
    def output(self, t):
        """command substitutions whose output is known"""
        sub = Shell(self.args, self.cwd, self.env, self.name, [], self.funs, self.depth + 1)
        toks = tokens(t); cut = [k for k, x in enumerate(toks) if x in (('op', '&&'), ('op', ';'))]
        last = toks[cut[-1] + 1:] if cut else toks
        if cut: sub.run(toks[:cut[-1]])
        a = [x for _, w in last for x in sub.word(w)]
        if a[:1] == ['dirname'] and len(a) == 2: return posixpath.dirname(a[1]) or '.'
        if a[:1] == ['basename'] and len(a) in (2, 3):
            r = posixpath.basename(a[1])
            return r[:-len(a[2])] if len(a) == 3 and r.endswith(a[2]) else r
        if a in (['pwd'], ['git', 'rev-parse', '--show-toplevel']): return '/repo-root' if a[0] == 'git' else posixpath.join('/repo-root', sub.cwd) if sub.cwd != '.' else '/repo-root'
        if a[:1] == ['echo']: return ' '.join(a[1:])
        raise Fail('command substitution $(%s) in a build script' % t)
    def path(self, x):
        r = posixpath.normpath(posixpath.join(self.cwd, x))
        return posixpath.relpath(r, '/repo-root') if r == '/repo-root' or r.startswith('/repo-root/') else r
    def run(self, toks):
        i = 0
        n = len(toks)
        def kw(j): return j < n and toks[j][0] == 'word' and len(toks[j][1]) == 1 and toks[j][1][0][0] == 'raw' and toks[j][1][0][1]
        while i < n:
            k, v = toks[i]
            if k == 'op':
                if v in ('&&', ';', '\n'): i += 1; continue
                if v in ('(', '{'):
                    d, j = 0, i
                    close = {'(': ')', '{': '}'}[v]
                    while True:
                        if toks[j] == ('op', v): d += 1
                        if toks[j] == ('op', close): d -= 1
                        if d == 0: break
                        j += 1
                    old = self.cwd, dict(self.env)
                    self.run(toks[i + 1:j])
                    if v == '(': self.cwd, self.env = old
                    i = j + 1; continue
                raise Fail('the operator %s in a build script' % v)
            if kw(i) in ('for', 'while', 'until', 'if', 'case'):
                if kw(i) != 'for': raise Fail('%s in a build script' % kw(i))
                name = kw(i + 1); j = i + 2; vals = list(self.args)
                while toks[j] in (('op', '\n'),): j += 1
                if kw(j) == 'in':
                    vals = []; j += 1
                    while toks[j][0] == 'word': vals += self.word(toks[j][1]); j += 1
                while not kw(j) == 'do': j += 1
                d, e = 1, j + 1
                while True:
                    if kw(e) == 'for': d += 1
                    if kw(e) == 'done': d -= 1
                    if d == 0: break
                    e += 1
                for x in vals:
                    if any(ch in x for ch in '*?['): raise Fail('loop over a file pattern')
                    self.env[name] = x
                    self.run(toks[j + 1:e])
                i = e + 1; continue
            if i + 2 < n and toks[i + 1] == ('op', '(') and toks[i + 2] == ('op', ')'):
                j = i + 3
                while toks[j] == ('op', '\n'): j += 1
                if toks[j] != ('op', '{'): raise Fail('function form in a build script')
                d, e = 0, j
                while True:
                    d += (toks[e] == ('op', '{')) - (toks[e] == ('op', '}'))
                    if d == 0: break
                    e += 1
                self.funs[kw(i)] = toks[j + 1:e]; i = e + 1; continue
            j = i
            while j < n and toks[j][0] == 'word': j += 1
            self.command(toks[i:j])
            if j < n and toks[j] in (('op', '|'), ('op', '&')): raise Fail('the operator %s in a build script' % toks[j][1])
            if j < n and toks[j] == ('op', '||'):            # the left side is assumed to succeed
                j += 1
                if j < n and toks[j] in (('op', '{'), ('op', '(')):
                    o = toks[j][1]; d = 0
                    while True:
                        d += (toks[j] == ('op', o)) - (toks[j] == ('op', {'{': '}', '(': ')'}[o]))
                        j += 1
                        if d == 0: break
                else:
                    while j < n and toks[j][0] == 'word': j += 1
            i = j
    def command(self, ws):
        ws = [w for _, w in ws]
        k = 0
        while k < len(ws) and ws[k][0][0] == 'raw' and re.match(r'[A-Za-z_]\w*=', ws[k][0][1]):
            k += 1
        if k == len(ws):
            for w in ws: self.assign(w)
            return
        argv = [x for w in ws[k:] for x in self.word(w)]
        if not argv: return
        c, a = argv[0], argv[1:]
        if c in ('export', 'local', 'readonly', 'declare'):
            for w in ws[k + 1:]:
                if w[0][0] == 'raw' and re.match(r'\w+=', w[0][1]): self.assign(w)
            return
        if c == 'shift': self.args = self.args[int(a[0]) if a else 1:]; return
        if c in ('set', 'echo', ':', 'true', 'printf', '[', 'test', 'exit', 'return', 'trap'):
            return
        if c == 'cd': self.cwd = self.path(a[0]) if a else '.'; return
        if c == 'pushd': self.stack = getattr(self, 'stack', []) + [self.cwd]; self.cwd = self.path(a[0]); return
        if c == 'popd': self.cwd = self.stack.pop(); return
        if c in ('time', 'exec', 'command', 'env'): c, a = a[0], a[1:]
        if c in self.funs:
            old = self.args; self.args = a; self.run(self.funs[c]); self.args = old; return
        if c in ('sh', 'bash', '/bin/sh', '/bin/bash', 'source', '.') or c.endswith('.sh'):
            src = c in ('source', '.')
            if not c.endswith('.sh'):
                while a and a[0].startswith('-'): a = a[1:]
                c, a = a[0], a[1:]
            p = self.path(c)
            f = os.path.join(REPO, p)
            if not os.path.isfile(f): raise Fail('a build script calls %s, which does not exist' % p)
            if src: sub = self
            else: sub = Shell(a, self.cwd, self.env, c, self.log, {}, self.depth + 1)
            sub.run(tokens(open(f).read())); return
        if c in ('yarn', 'npm', 'pnpm', 'npx') and a and a[0] in ('run', 'exec'): a = a[1:]
        self.log.append((self.cwd, c, a))
    def assign(self, w):
        n, rest = w[0][1].split('=', 1)
        fields = [('raw', rest)] + list(w[1:])
        self.env[n] = ' '.join(self.word(fields))

def script(rel, args=()):
    sh = Shell(args, '.', {}, rel)
    sh.run(tokens(open(os.path.join(REPO, rel)).read()))
    return sh.log

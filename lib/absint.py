"""Abstract interpreter over the dumped (monomorphised) MIR.

Values are immutable; memory maps cells to values.  Integers are polynomials (poly.py); control that is
constant is followed; at a branch on an unknown condition both arms are analysed from the same state
and the states are joined at the immediate post-dominator (no path enumeration, no solver).
A block from which the function exit is unreachable (a panic) is cut, and the negated branch condition
is recorded as an obligation in `self.panics`.
"""
import sys, re, os, json
import poly
from poly import P, Unsupported
sys.setrecursionlimit(100000)

class Diverge(Exception):
    pass

class S:
    """struct / tuple / array / vector / closure: an ordered tuple of fields"""
    __slots__ = ('t', 'f')
    def __init__(self, t, f):
        self.t = t
        self.f = f
    def __repr__(self):
        return '%s%r' % (self.t if isinstance(self.t, str) else '', self.f)

class E:
    """enum: alternatives (variant, condition, fields)"""
    __slots__ = ('t', 'alts')
    def __init__(self, t, alts):
        self.t = t
        self.alts = alts
    def __repr__(self):
        return 'E%r' % (self.alts,)

class R:
    """reference: cell, path into it, and for slices a range"""
    __slots__ = ('cell', 'path', 'rng')
    def __init__(self, cell, path=(), rng=None):
        self.cell = cell
        self.path = path
        self.rng = rng
    def __repr__(self):
        return '&%r%r%r' % (self.cell, self.path, self.rng or '')

class Str:
    __slots__ = ('s',)
    def __init__(self, s):
        self.s = s
    def __repr__(self):
        return 'Str(%r)' % (self.s,)

class Poison:
    __slots__ = ('why',)
    def __init__(self, why):
        self.why = why
    def __repr__(self):
        return 'Poison(%s)' % self.why

class FnV:
    __slots__ = ('key', 'name')
    def __init__(self, key, name):
        self.key = key
        self.name = name

class It:
    """iterator: a finite sequence of pending items"""
    __slots__ = ('items', 'inf')
    def __init__(self, items, inf=None):
        self.items = items
        self.inf = inf

class Th:
    """pending application of a closure (held in a cell) to an item"""
    __slots__ = ('fcell', 'item', 'kind')
    def __init__(self, fcell, item, kind='map'):
        self.fcell = fcell
        self.item = item
        self.kind = kind

class Dom:
    """base class for check-specific abstract values"""
    def merge(self, it, c, o):
        raise Unsupported('merge %s' % type(self).__name__)

UNIT = S('tup', ())
def tup(*a):
    return S('tup', tuple(a))
def vec(xs):
    return S('vec', tuple(xs))
def arr(xs):
    return S('arr', tuple(xs))
def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, int):
        return a == b
    if isinstance(a, P):
        return a == b
    if isinstance(a, S):
        return len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, R):
        return a.cell == b.cell and a.path == b.path and a.rng == b.rng
    if isinstance(a, E):
        return len(a.alts) == len(b.alts) and all(x[0] == y[0] and same(x[1], y[1]) and len(x[2]) == len(y[2]) and all(same(p, q) for p, q in zip(x[2], y[2])) for x, y in zip(a.alts, b.alts))
    if isinstance(a, Str):
        return a.s == b.s
    if isinstance(a, Poison):
        return True
    if isinstance(a, FnV):
        return a.key == b.key
    if isinstance(a, It):
        return len(a.items) == len(b.items) and a.inf == b.inf and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Th):
        return a.fcell == b.fcell and same(a.item, b.item)
    if isinstance(a, Dom):
        return a == b
    return False

_SEG = re.compile(r'(?:[\w#]+::)+(?=[\w<\[&(])')
_cache = {}
def short(name):
    """Short name: paths inside angle brackets reduced to their last segment; the item to its last two."""
    r = _cache.get(name)
    if r is not None:
        return r
    n = name
    n = re.sub(r"'\w+ ", '', n)
    n = n.replace('::<impl ', '§').replace("'_", '_')
    # generic arguments written with turbofish
    depth = 0
    out = []
    i = 0
    # remove ::<...> groups
    while i < len(n):
        if n.startswith('::<', i) :
            d = 0
            j = i + 2
            while j < len(n):
                if n[j] == '<':
                    d += 1
                elif n[j] == '>' and n[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(n[i])
        i += 1
    n = ''.join(out)
    if '§' in n:
        # mod::path<impl X>::method
        k = n.index('§')
        n = '<impl ' + n[k + 1:]
    if n.startswith('<'):
        # split at matching >
        d = 0
        for j, ch in enumerate(n):
            if ch == '<':
                d += 1
            elif ch == '>' and n[j - 1] != '-':
                d -= 1
                if d == 0:
                    break
        head, tail = n[:j + 1], n[j + 1:]
        head = re.sub(r'(?:[\w#]+::)+(?=[\w])', '', head)
        r = head + tail
    else:
        parts = n.split('::')
        r = '::'.join(parts[-2:])
        k = len(parts) - 1
        # closures belong to their function
        while k > 0 and parts[k].startswith('{'):
            k -= 1
        if k < len(parts) - 1:
            r = '::'.join(parts[max(0, k - 1):])
    _cache[name] = r
    return r

# Size comparisons: every comparison of machine integers met in the repository's code, with the operand ranges and outcomes seen
# over all analysed shapes (see sizes.py).
SITES = {}
CMP = {'Lt': lambda x, y: x < y, 'Le': lambda x, y: x <= y, 'Gt': lambda x, y: x > y, 'Ge': lambda x, y: x >= y, 'Eq': lambda x, y: x == y, 'Ne': lambda x, y: x != y}
def note(k, op, x, y, harmless=(0, 0), const=(0, 0)):
    s = SITES.get(k)
    r = CMP[op](x, y)
    if s is None:
        SITES[k] = [op, {r}, x, x, y, y, harmless, const]
        return
    s[1].add(r)
    if x < s[2]: s[2] = x
    elif x > s[3]: s[3] = x
    if y < s[4]: s[4] = y
    elif y > s[5]: s[5] = y
def merge_site(k, v):
    s = SITES.get(k)
    if s is None:
        SITES[k] = v
    else:
        s[1] |= v[1]
        s[2:6] = [min(s[2], v[2]), max(s[3], v[3]), min(s[4], v[4]), max(s[5], v[5])]
def notecall(it, op, x, y, tag=''):
    """A comparison made inside a modelled library function."""
    if type(x) is int and type(y) is int and it.stack:
        b, l = it.stack[-1]
        if b.repo:
            note((b.n, 'call' + tag + op, l), op, x, y)

def _rejects(b, start):
    """Every path from the block returns an error (or does not return)."""
    seen, st = set(), [start]
    while st:
        i = st.pop()
        if i in seen or i not in b.live:
            continue
        seen.add(i)
        blk, bad = b.blocks[i], False
        for x in blk['s']:
            if x[0] != 'setd' and x[0] == [0, []]:
                bad = x[1][0] == 'adt' and x[1][2] == 1 or (x[1][0] == 'adt' and not x[1][3])
        t = blk['t']
        if t[0] == 'call' and t[3] == [0, []] and 'from_residual' in str(t[1].get('n')):
            bad = True
        if bad:
            continue
        if t[0] == 'ret':
            return False
        st.extend(b.succ[i])
    return True

def constop(b, o, depth=0):
    """The operand is a constant of the source: a literal, or a local with one assignment, of a constant."""
    if 'k' in o:
        return 1
    pl = o.get('c') or o.get('m')
    if not pl or pl[1] or depth > 4 or pl[0] <= b.nargs:
        return 0
    ds = [x for blk in b.blocks for x in blk['s'] if x[0] not in ('setd', 'intr') and x[0][0] == pl[0]]
    if len(ds) != 1 or any(blk['t'][0] == 'call' and blk['t'][3][0] == pl[0] for blk in b.blocks):
        return 0
    rv = ds[0][1]
    if rv[0] == 'use':
        return constop(b, rv[1], depth + 1)
    if rv[0] == 'cast':
        return constop(b, rv[2], depth + 1)
    if rv[0] == 'bin':
        return constop(b, rv[2], depth + 1) and constop(b, rv[3], depth + 1)
    return 0

def sites(b):
    """id of a comparison's rvalue -> (site key, (no harm if never false, no harm if never true)); None for overflow and bounds checks."""
    r = {}
    for i, blk in enumerate(b.blocks):
        for j, x in enumerate(blk['s']):
            if x[0] in ('setd', 'intr') or x[1][0] != 'bin':
                continue
            t = blk['t']
            d = {'m': x[0]}, {'c': x[0]}
            h = (0, 0)
            if t[0] == 'assert' and t[1] in d:
                continue
            if t[0] == 'switch' and t[1] in d:
                t0 = next((g for v, g in t[2] if v == 0), t[3])
                t1 = next((g for v, g in t[2] if v == 1), t[3])
                h = (_rejects(b, t0), _rejects(b, t1))
            r[id(x[1])] = ((b.n, i, j, x[2]), h, (constop(b, x[1][2]), constop(b, x[1][3])))
    return r

class Body:
    __slots__ = ('key', 'n', 'd', 'file', 'nargs', 'locals', 'blocks', 'names', 'succ', 'live', 'ipdom', 'sname', 'repo', 'sites')

def _succ(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return list(dict.fromkeys([x[1] for x in t[2]] + [t[3]]))
    if k == 'drop':
        return [t[2]]
    if k == 'assert':
        return [t[3]]
    if k == 'call':
        return [t[4]] if t[4] >= 0 else []
    return []

class Prog:
    def __init__(self, d):
        self.types = d['types']
        self.raw = d['bodies']
        self.consts = d['consts']
        self.statics = d['statics']
        self.roots = d['roots']
        self.crate = d['crate']
        self.bodies = {}
        self.byname = {}
        for k, b in self.raw.items():
            self.byname.setdefault(b['n'], []).append(k)
        self._bysname = None
    def body(self, key):
        b = self.bodies.get(key)
        if b is None:
            r = self.raw.get(key)
            if r is None:
                return None
            b = Body()
            b.key, b.n, b.d, b.file, b.nargs, b.locals, b.blocks, b.names = key, r['n'], r['d'], r['file'], r['nargs'], r['locals'], r['blocks'], r['names']
            b.sname = short(b.n)
            b.repo = '/repo' in b.file or 'packages' in b.file
            b.sites = None
            b.succ = [_succ(x['t']) for x in b.blocks]
            n = len(b.blocks)
            pred = [[] for _ in range(n)]
            for i, ss in enumerate(b.succ):
                for s in ss:
                    pred[s].append(i)
            live = set()
            st = [i for i in range(n) if b.blocks[i]['t'][0] == 'ret']
            while st:
                x = st.pop()
                if x in live:
                    continue
                live.add(x)
                st.extend(pred[x])
            b.live = live
            # immediate post-dominators over live blocks (exit = n)
            order = []
            seen = set()
            def dfs(x):
                stack = [(x, iter(rs(x)))]
                seen.add(x)
                while stack:
                    y, itr = stack[-1]
                    for z in itr:
                        if z not in seen:
                            seen.add(z)
                            stack.append((z, iter(rs(z))))
                            break
                    else:
                        order.append(y)
                        stack.pop()
            def rs(x):
                if x == n:
                    return [i for i in live if b.blocks[i]['t'][0] == 'ret']
                return [p for p in pred[x] if p in live]
            dfs(n)
            num = {x: i for i, x in enumerate(order)}
            idom = {n: n}
            ch = True
            rpo = list(reversed(order))
            while ch:
                ch = False
                for x in rpo:
                    if x == n:
                        continue
                    ss = [s for s in b.succ[x] if s in live]
                    if b.blocks[x]['t'][0] == 'ret':
                        ss = [n]
                    new = None
                    for s in ss:
                        if s in idom:
                            if new is None:
                                new = s
                            else:
                                a, c = s, new
                                while a != c:
                                    while num[a] < num[c]:
                                        a = idom[a]
                                    while num[c] < num[a]:
                                        c = idom[c]
                                new = a
                    if new is not None and idom.get(x) != new:
                        idom[x] = new
                        ch = True
            b.ipdom = idom
            self.bodies[key] = b
        return b
    def find(self, name):
        """Unique body by full instance name."""
        ks = self.byname.get(name, [])
        if len(ks) == 1:
            return ks[0]
        if not ks:
            ks = self.renamed(name)
        if not ks:
            raise Missing(name)
        return ks[0]
    def sig(self, key):
        b = self.raw[key]
        return [_PATH.sub('', str(self.types[i].get('s', '?'))) for i in b['locals'][:b['nargs'] + 1]]
    def renamed(self, name):
        """A function the specification knows under another name: the only function with its owner's name (or, for a moved
        one, its own and its owner's name) and its types that the reference tree does not have."""
        ref = fnref()
        if name not in ref:
            return []
        own, last = name.split('::')[-2:]
        c = []
        for n, ks in self.byname.items():
            if n in ref or n.count('::') < 1 or len(ks) != 1 or 'packages' not in self.raw[ks[0]]['file']:
                continue
            o, l = n.split('::')[-2:]
            if o == own and self.sig(ks[0]) == ref[name]:
                c.append((l != last, ks))
        best = [ks for m, ks in c if not m] or [ks for m, ks in c]
        return best[0] if len(best) == 1 else []
    def find_short(self, sname, pred=None):
        if self._bysname is None:
            self._bysname = {}
            for k, b in self.raw.items():
                self._bysname.setdefault(short(b['n']), []).append(k)
        ks = [k for k in self._bysname.get(sname, []) if pred is None or pred(self.raw[k])]
        return ks

_PATH = re.compile(r'\b(?:\w+::)+')
_FNREF = []
def fnref():
    if not _FNREF:
        f = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fnref.json')
        _FNREF.append(json.load(open(f)) if os.path.exists(f) else {})
    return _FNREF[0]
class Missing(Exception):
    pass

class Interp:
    def __init__(self, prog, overrides=None, hooks=None):
        self.p = prog
        self.T = prog.types
        self.mem = {}
        self.ncell = 0
        self.nframe = 0
        self.guards = []          # conditions of enclosing unknown branches
        self.gsub = {}            # atoms fixed by them
        self.panics = []          # (guards, condition under which we continue, where)
        self.overrides = overrides or {}
        self.stack = []
        self.constcells = {}
        self.visited = set()      # repo functions analysed
        self.callsites = 0
        self.depthlim = 400
        self.adt_hook = None      # (typeid, S) -> value, for constants / aggregates of modelled types
        self.trace = False
        import models, models2
        if not getattr(models, 'HOOKED', False):
            models.HOOKED = True
            import sizes
            sizes.hooks((models.MODELS, models.DMODELS))
        self.models = models.MODELS
        self.dmodels = models.DMODELS

    # ---- memory -------------------------------------------------------------
    def cell(self, v):
        self.ncell += 1
        c = self.ncell
        self.mem[c] = v
        return c
    def ref(self, v):
        return R(self.cell(v))
    def step(self, v, s):
        if isinstance(v, Poison):
            raise Unsupported('read of undetermined value: %s' % v.why)
        k = s[0]
        if k == 'f':
            if isinstance(v, S):
                if s[1] >= len(v.f):
                    raise Unsupported('field %d of %r' % (s[1], v.t))
                return v.f[s[1]]
            if isinstance(v, E):
                # downcast already applied: single alternative
                if len(v.alts) == 1:
                    return v.alts[0][2][s[1]]
            if isinstance(v, Dom):
                g = getattr(v, 'getfield', None)
                if g:
                    return g(self, s[1])
            raise Unsupported('field of %r' % (type(v).__name__,))
        if k == 'i':
            if isinstance(v, S):
                if s[1] >= len(v.f) or s[1] < 0:
                    raise Diverge('index out of bounds')
                return v.f[s[1]]
            if isinstance(v, Dom):
                g = getattr(v, 'getindex', None)
                if g:
                    return g(self, s[1])
            raise Unsupported('index of %r' % (type(v).__name__,))
        if k == 'd':
            if isinstance(v, E):
                for a in v.alts:
                    if a[0] == s[1]:
                        return S('alt', a[2])
                raise Unsupported('downcast to absent variant')
            raise Unsupported('downcast of %r' % (type(v).__name__,))
        raise Unsupported('step %r' % (s,))
    def getpath(self, v, path):
        for s in path:
            v = self.step(v, s)
        return v
    def setpath(self, v, path, x):
        if not path:
            return x
        s = path[0]
        k = s[0]
        if k == 'f':
            if isinstance(v, S):
                f = list(v.f)
                while len(f) <= s[1]:
                    f.append(Poison('uninitialised field'))
                f[s[1]] = self.setpath(f[s[1]], path[1:], x)
                return S(v.t, tuple(f))
            if v is None or isinstance(v, Poison):
                f = [Poison('uninitialised field')] * (s[1] + 1)
                f[s[1]] = self.setpath(None, path[1:], x)
                return S('part', tuple(f))
            if isinstance(v, Dom) and hasattr(v, 'setfield'):
                return v.setfield(self, s[1], self.setpath(v.getfield(self, s[1]), path[1:], x))
        if k == 'i' and isinstance(v, S):
            if s[1] >= len(v.f):
                raise Diverge('index out of bounds')
            f = list(v.f)
            f[s[1]] = self.setpath(f[s[1]], path[1:], x)
            return S(v.t, tuple(f))
        if k == 'd':
            if isinstance(v, E):
                alts = []
                for a in v.alts:
                    if a[0] == s[1]:
                        inner = self.setpath(S('alt', a[2]), path[1:], x)
                        alts.append((a[0], a[1], inner.f))
                    else:
                        alts.append(a)
                return E(v.t, tuple(alts))
        raise Unsupported('write through %r of %r' % (s, type(v).__name__))
    def load(self, r):
        if isinstance(r, Str):
            return r
        if not isinstance(r, R):
            if isinstance(r, Dom) and hasattr(r, 'deref'):
                return r.deref(self)
            raise Unsupported('deref of %r' % (type(r).__name__,))
        if r.cell not in self.mem:
            raise Unsupported('dangling reference')
        v = self.getpath(self.mem[r.cell], r.path)
        if r.rng is not None:
            return S('arr', v.f[r.rng[0]:r.rng[1]])
        return v
    def store(self, r, x):
        if r.rng is not None:
            v = self.getpath(self.mem[r.cell], r.path)
            f = v.f[:r.rng[0]] + x.f + v.f[r.rng[1]:]
            x = S(v.t, f)
        self.mem[r.cell] = self.setpath(self.mem.get(r.cell), r.path, x)
    def items(self, v):
        """The elements of a vector/array/slice value or reference."""
        while isinstance(v, R):
            v = self.load(v)
        if isinstance(v, S):
            return v.f
        if isinstance(v, Dom) and hasattr(v, 'items'):
            return v.items(self)
        raise Unsupported('elements of %r' % type(v).__name__)
    def subref(self, r, i):
        """Reference to element i of the sequence r refers to."""
        if isinstance(r, Dom):
            return r.elemref(self, i)
        if r.rng is not None:
            if i >= r.rng[1] - r.rng[0]:
                raise Diverge('index out of bounds')
            return R(r.cell, r.path + (('i', r.rng[0] + i),))
        v = self.load(r)
        if isinstance(v, R):
            return self.subref(v, i)
        return R(r.cell, r.path + (('i', i),))
    def subslice(self, r, lo, hi):
        if isinstance(r, Dom):
            return r.subslice(self, lo, hi)
        n = self.length(r)
        if not (0 <= lo <= hi <= n):
            raise Diverge('slice out of range')
        if r.rng is not None:
            return R(r.cell, r.path, (r.rng[0] + lo, r.rng[0] + hi))
        v = self.load(r)
        if isinstance(v, R):
            return self.subslice(v, lo, hi)
        return R(r.cell, r.path, (lo, hi))
    def length(self, v):
        if isinstance(v, R):
            if v.rng is not None:
                return v.rng[1] - v.rng[0]
            return self.length(self.load(v))
        if isinstance(v, S):
            return len(v.f)
        if isinstance(v, Str):
            return len(v.s.encode())
        if isinstance(v, Dom) and hasattr(v, 'length'):
            return v.length(self)
        raise Unsupported('length of %r' % type(v).__name__)

    # ---- joins --------------------------------------------------------------
    def select(self, c, a, b):
        """c ? a : b"""
        if isinstance(c, int):
            return a if c else b
        if a is b or same(a, b):
            return a
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, Poison) or isinstance(b, Poison):
            return Poison('one-sided')
        if isinstance(a, (int, P)) and isinstance(b, (int, P)):
            return poly.select(c, a, b)
        if isinstance(a, S) and isinstance(b, S):
            if len(a.f) == len(b.f):
                return S(a.t, tuple(self.select(c, x, y) for x, y in zip(a.f, b.f)))
            return Poison('sequences of different length')
        if isinstance(a, E) and isinstance(b, E):
            d = {}
            for v, k, f in a.alts:
                d[v] = [poly.mul(c, k), f]
            nc = poly.bnot(c)
            for v, k, f in b.alts:
                k = poly.mul(nc, k)
                if v in d:
                    g = d[v][1]
                    d[v] = [poly.add(d[v][0], k), tuple(self.select(c, x, y) for x, y in zip(g, f))]
                else:
                    d[v] = [k, f]
            alts = tuple((v, poly.setrange(k, 0, 1), f) for v, (k, f) in sorted(d.items()) if not (isinstance(k, int) and k == 0))
            return E(a.t, alts)
        if isinstance(a, Dom):
            return a.merge(self, c, b)
        if isinstance(b, Dom):
            return b.merge(self, poly.bnot(c), a)
        if isinstance(a, R) and isinstance(b, R) and a.rng is None and b.rng is None:
            # reading through a joined reference: only safe for shared reads; make a fresh joined cell
            return R(self.cell(self.select(c, self.load(a), self.load(b))))
        return Poison('join of %s and %s' % (type(a).__name__, type(b).__name__))
    def joinmem(self, c, m1, m2):
        out = dict(m2)
        self.mem = out
        for k, v in m1.items():
            if k in m2:
                w = m2[k]
                if v is not w:
                    try:
                        x = self.select(c, v, w)
                    except Unsupported as e:
                        x = Poison(str(e))
                    out[k] = x
            else:
                out[k] = v
        return out

    # ---- types --------------------------------------------------------------
    def adtname(self, t):
        ty = self.T[t]
        return short(ty['n']).split('::')[-1] if ty['k'] == 'adt' else ty['k']
    def peel(self, t):
        while self.T[t]['k'] in ('ref', 'ptr'):
            t = self.T[t]['e']
        return t
    def place_ty(self, b, pl):
        t = b.locals[pl[0]]
        for pr in pl[1]:
            if pr == '*':
                ty = self.T[t]
                if ty['k'] == 'adt':     # Box
                    t = ty['a'][0]
                else:
                    t = ty['e']
            elif pr[0] == 'f':
                t = pr[2]
            elif pr[0] in ('i', 'c'):
                t = self.T[t]['e']
            elif pr[0] == 's':
                pass
        return t
    def op_ty(self, b, o):
        if 'k' in o:
            return o['k']['t']
        if 'rt' in o:
            return next(i for i, t in enumerate(self.T) if t['k'] == 'bool')
        return self.place_ty(b, o.get('c') or o.get('m'))

    # ---- constants ----------------------------------------------------------
    def const(self, v, t):
        if isinstance(v, int):
            ty = self.T[t]
            if ty['k'] == 'int' and v >> (ty['b'] - 1):
                v -= 1 << ty['b']
            return v
        if 'adt' in v:
            ty = self.T[v['adt']]
            vs = ty['v'][v['v']] if ty['v'] else {'f': []}
            fs = tuple(self.const(x, ft[1]) for x, ft in zip(v['f'], vs['f']))
            if ty['kind'] == 'Enum':
                return E(v['adt'], ((v['v'], 1, fs),))
            r = S(v['adt'], fs)
            if self.adt_hook:
                r = self.adt_hook(v['adt'], r)
            return r
        if 'arr' in v:
            et = self.T[t].get('e', t)
            return S('arr', tuple(self.const(x, et) for x in v['arr']))
        if 'agg' in v:
            ts = self.T[t].get('f', [])
            return S('tup', tuple(self.const(x, ts[i] if i < len(ts) else t) for i, x in enumerate(v['agg'])))
        if 'ref' in v:
            e = self.T[t].get('e', t)
            c = self.constcells.get(id(v))
            if c is None:
                et = e
                c = self.cell(None)
                self.constcells[id(v)] = c
                self.constval = None
                val = self.const(v['ref'], et)
                self.constcells[id(v)] = (c, val)
            else:
                c, val = c
            self.mem[c] = val
            r = R(c)
            if self.T[e]['k'] == 'slice':
                r = R(c, (), (0, len(val.f)))
            return r
        if 'str' in v:
            return Str(v['str'])
        if 'zst' in v:
            ty = self.T[v['zst']]
            if ty['k'] == 'fndef':
                return FnV(ty['key'], ty)
            return S(v['zst'], ())
        if 'fn' in v:
            return FnV(v['fn'], None)
        if 'static' in v:
            st = self.p.statics.get(v['static'])
            if st is None:
                raise Unsupported('static ' + v['static'])
            c = self.constcells.get(v['static'])
            if c is None:
                c = self.cell(None)
                val = self.static_val(v['static'], st)
                self.constcells[v['static']] = (c, val)
            else:
                c, val = c
            if c not in self.mem or self.mem[c] is None:
                self.mem[c] = val
            return R(c)
        if 'opaque' in v:
            return Poison('opaque constant ' + str(v['opaque']))
        raise Unsupported('constant %r' % (v,))
    def static_val(self, name, st):
        return self.const(st['v'], st['t'])

    # ---- places -------------------------------------------------------------
    def resolve(self, b, fr, pl):
        """Place -> R"""
        r = R((fr, pl[0]))
        for pr in pl[1]:
            if pr == '*':
                v = self.load(r)
                if isinstance(v, (R, Str)):
                    r = v
                    if isinstance(r, Str):
                        r = R(self.cell(v))
                elif isinstance(v, Dom):
                    r = v.asref(self) if hasattr(v, 'asref') else self.ref(v)
                elif isinstance(v, S) and v.t == 'box':
                    r = R(r.cell, r.path + (('f', 0),))
                else:
                    raise Unsupported('deref of %r' % (v if isinstance(v, Poison) else type(v).__name__,))
            elif pr[0] == 'f':
                r = R(r.cell, r.path + (('f', pr[1]),))
            elif pr[0] == 'd':
                r = R(r.cell, r.path + (('d', pr[1]),))
            elif pr[0] == 'i':
                i = self.mem[(fr, pr[1])]
                if not isinstance(i, int):
                    v = self.load(r)
                    r = self.symindex(v, i)
                    continue
                r = self.subref(r, i)
            elif pr[0] == 'c':
                i = pr[1]
                if pr[3]:
                    i = self.length(r) - i
                r = self.subref(r, i)
            elif pr[0] == 's':
                n = self.length(r)
                lo, hi = pr[1], pr[2]
                if pr[3]:
                    hi = n - hi
                r = self.subslice(r, lo, hi)
            else:
                raise Unsupported('projection %r' % (pr,))
        return r
    def symindex(self, v, i):
        # value of a lookup with an unknown index: joined over all entries (read only)
        xs = self.items(v)
        if not xs:
            raise Diverge('index')
        r = xs[-1]
        for k in range(len(xs) - 2, -1, -1):
            r = self.select(poly.eq0(poly.sub(i, k)), xs[k], r)
        return R(self.cell(r))
    def read(self, b, fr, pl):
        if not pl[1]:
            v = self.mem.get((fr, pl[0]))
            if v is None:
                return Poison('uninitialised local _%d' % pl[0])
            return v
        return self.load(self.resolve(b, fr, pl))
    def write(self, b, fr, pl, v):
        if not pl[1]:
            self.mem[(fr, pl[0])] = v
        else:
            self.store(self.resolve(b, fr, pl), v)
    def operand(self, b, fr, o):
        if 'c' in o:
            return self.read(b, fr, o['c'])
        if 'm' in o:
            return self.read(b, fr, o['m'])
        if 'k' in o:
            return self.const(o['k']['v'], o['k']['t'])
        if 'rt' in o:
            return 0      # runtime checks (UB checks, overflow checks) are off
        raise Unsupported('operand')

    # ---- arithmetic ---------------------------------------------------------
    def wrap(self, v, t):
        ty = self.T[t] if isinstance(t, int) else t
        k = ty['k']
        if k == 'bool':
            return v
        if k == 'char':
            return v
        w = ty['b']
        if k == 'uint':
            return poly.mod2k(v, w)
        if isinstance(v, int):
            v &= (1 << w) - 1
            return v - (1 << w) if v >> (w - 1) else v
        lo, hi = poly.rng(v)
        if lo is not None and hi is not None and lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
            return v
        raise Unsupported('signed wrap')
    def binop(self, op, x, y, t, rt=None):
        ty = self.T[t]
        if isinstance(x, Dom) or isinstance(y, Dom):
            d = x if isinstance(x, Dom) else y
            return d.binop(self, op, x, y)
        for v in (x, y):
            if isinstance(v, Poison):
                raise Unsupported('operand undetermined: %s' % v.why)
            if not isinstance(v, (int, P)):
                if op in ('Eq', 'Ne'):
                    e = 1 if same(x, y) else 0
                    return e if op == 'Eq' else 1 - e
                raise Unsupported('%s on %s' % (op, type(v).__name__))
        if op.endswith('Unchecked'):
            op = op[:-9]
        if op == 'Add':
            return self.wrap(poly.add(x, y), ty)
        if op == 'Sub':
            return self.wrap(poly.sub(x, y), ty)
        if op == 'Mul':
            return self.wrap(poly.mul(x, y), ty)
        if op == 'BitAnd':
            if ty['k'] == 'bool':
                return poly.band(x, y)
            if isinstance(x, int) and isinstance(y, int):
                return self.wrap(x & y, ty)
            return poly.bitand(x, y, ty['b'])
        if op == 'BitOr':
            if ty['k'] == 'bool':
                return poly.bor(x, y)
            if isinstance(x, int) and isinstance(y, int):
                return self.wrap(x | y, ty)
            return poly.bitor(x, y, ty['b'])
        if op == 'BitXor':
            if ty['k'] == 'bool':
                return poly.bxor(x, y)
            if isinstance(x, int) and isinstance(y, int):
                return self.wrap(x ^ y, ty)
            return poly.bitxor(x, y, ty['b'])
        if op in ('Shl', 'Shr'):
            if not isinstance(y, int):
                if isinstance(x, int) and x == 0:
                    return 0
                lo, hi = poly.rng(y)
                # x << y for a small unknown y: join over the values
                raise Unsupported('shift by unknown')
            y %= ty['b']
            if op == 'Shl':
                return self.wrap(poly.scale(x, 1 << y), ty)
            return poly.floordiv2k(x, y)
        if op == 'Eq':
            return poly.eq0(poly.sub(x, y))
        if op == 'Ne':
            return poly.bnot(poly.eq0(poly.sub(x, y)))
        if op == 'Lt':
            return poly.lt0(poly.sub(x, y))
        if op == 'Ge':
            return poly.bnot(poly.lt0(poly.sub(x, y)))
        if op == 'Gt':
            return poly.lt0(poly.sub(y, x))
        if op == 'Le':
            return poly.bnot(poly.lt0(poly.sub(y, x)))
        if op in ('Div', 'Rem'):
            if isinstance(y, int) and y == 0:
                raise Diverge('division by zero')
            if isinstance(x, int) and isinstance(y, int):
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return q if op == 'Div' else x - q * y
            if isinstance(y, int) and y > 0 and y & (y - 1) == 0 and (poly.rng(x)[0] or 0) >= 0:
                k = y.bit_length() - 1
                return poly.floordiv2k(x, k) if op == 'Div' else poly.mod2k(x, k)
            raise Unsupported('division of unknowns')
        if op == 'Cmp':
            lt = poly.lt0(poly.sub(x, y))
            eq = poly.eq0(poly.sub(x, y))
            return self.ordering(lt, eq, rt)
        raise Unsupported('binary operator ' + op)
    def ordering(self, lt, eq, t):
        gt = poly.bnot(poly.add(lt, eq))
        alts = tuple((v, poly.setrange(k, 0, 1), ()) for v, k in ((0, lt), (1, eq), (2, gt)) if not (isinstance(k, int) and k == 0))
        return E(t, alts)
    def discr(self, v):
        if isinstance(v, E):
            if len(v.alts) == 1:
                return self.vdiscr(v.t, v.alts[0][0])
            r = 0
            ds = [self.vdiscr(v.t, a[0]) for a in v.alts]
            for a, d in zip(v.alts, ds):
                r = poly.add(r, poly.scale(a[1], d))
            if isinstance(r, P):
                r = poly.setrange(r, min(ds), max(ds))
            return r
        if isinstance(v, Dom) and hasattr(v, 'discr'):
            return v.discr(self)
        if isinstance(v, S):
            return 0
        if isinstance(v, Poison):
            raise Unsupported('discriminant of undetermined value: %s' % v.why)
        raise Unsupported('discriminant of %r' % (type(v).__name__,))
    def vdiscr(self, t, i):
        if isinstance(t, int):
            d = self.T[t]['v'][i]['d']
            if d >> 127:
                d -= 1 << 128
            if self.T[t].get('n', '').endswith('Ordering') and d > 100:
                d -= 256
            return d
        if t == 'Ordering':
            return i - 1
        return i

    def rvalue(self, b, fr, rv, dest_ty):
        k = rv[0]
        if k == 'use':
            return self.operand(b, fr, rv[1])
        if k == 'ref':
            r = self.resolve(b, fr, rv[2])
            if r.rng is None and not r.path and isinstance(self.mem.get(r.cell), Str):
                return self.mem[r.cell]
            return r
        if k == 'bin':
            x, y = self.operand(b, fr, rv[2]), self.operand(b, fr, rv[3])
            op = rv[1]
            if type(x) is int and type(y) is int and b.repo:
                self.notebin(b, rv, op, x, y)
            if op.endswith('WithOverflow'):
                t = self.op_ty(b, rv[2])
                return self.overflowing(op[:-12], x, y, t)
            return self.binop(op, x, y, self.op_ty(b, rv[2]), dest_ty)
        if k == 'cbin':
            x, y = self.operand(b, fr, rv[2]), self.operand(b, fr, rv[3])
            return self.overflowing(rv[1], x, y, self.op_ty(b, rv[2]))
        if k == 'un':
            x = self.operand(b, fr, rv[2])
            t = self.T[self.op_ty(b, rv[2])]
            if rv[1] == 'Not':
                if t['k'] == 'bool':
                    return poly.bnot(x)
                if t['k'] == 'uint':
                    return poly.sub((1 << t['b']) - 1, x)
                return -1 - x if isinstance(x, int) else poly.sub(-1, x)
            if rv[1] == 'Neg':
                return self.wrap(poly.neg(x), t)
            if rv[1] == 'PtrMetadata':
                return self.length(x)
            raise Unsupported('unary ' + rv[1])
        if k == 'cast':
            return self.cast(b, rv[1], self.operand(b, fr, rv[2]), self.op_ty(b, rv[2]), rv[3])
        if k == 'discr':
            return self.discr(self.read(b, fr, rv[1]))
        if k == 'tuple':
            return S('tup', tuple(self.operand(b, fr, o) for o in rv[1]))
        if k == 'array':
            return S('arr', tuple(self.operand(b, fr, o) for o in rv[2]))
        if k == 'rep':
            v = self.operand(b, fr, rv[1])
            return S('arr', (v,) * rv[2])
        if k == 'adt':
            t = rv[1]
            ty = self.T[t]
            fs = tuple(self.operand(b, fr, o) for o in rv[3])
            if ty['kind'] == 'Enum':
                return E(t, ((rv[2], 1, fs),))
            if ty['kind'] == 'Union':
                return S('union', fs)
            r = S(t, fs)
            if self.adt_hook:
                r = self.adt_hook(t, r)
            return r
        if k == 'closure':
            return S(rv[1], tuple(self.operand(b, fr, o) for o in rv[2]))
        if k == 'len':
            return self.length(self.resolve(b, fr, rv[1]))
        raise Unsupported('rvalue ' + k)
    def notebin(self, b, rv, op, x, y):
        if op in CMP:
            o, p, q = op, x, y
        elif op == 'Rem':
            o, p, q = 'Lt', x, y
        elif op == 'BitAnd':
            o, p, q = 'Le', x, y
        elif op == 'Shr':
            o, p, q = 'Lt', x, 1 << (y & 127)
        else:
            return
        if b.sites is None:
            b.sites = sites(b)
        k = b.sites.get(id(rv))
        if k is not None:
            note(k[0], o, p, q, k[1], (0, 1) if op == 'BitAnd' and k[2][1] else k[2])
    def overflowing(self, op, x, y, t):
        ty = self.T[t]
        w = ty['b']
        raw = {'Add': poly.add, 'Sub': poly.sub, 'Mul': poly.mul}[op](x, y)
        if ty['k'] == 'uint':
            r = poly.mod2k(raw, w)
            o = poly.bnot(poly.eq0(poly.floordiv2k(raw, w)))
            if op == 'Sub':
                o = poly.lt0(raw)
            if op == 'Add':
                o = poly.floordiv2k(raw, w)
            return tup(r, o)
        r = self.wrap(raw, ty)
        return tup(r, 0 if not isinstance(r, int) or r == raw else 1)
    def cast(self, b, kind, v, ft, tt):
        f, t = self.T[ft], self.T[tt]
        if isinstance(v, Dom) and hasattr(v, 'cast'):
            return v.cast(self, kind, f, t)
        if kind == 'IntToInt':
            if isinstance(v, E):
                v = self.discr(v)
            if t['k'] in ('uint', 'int'):
                if type(v) is int and b.repo and t['b'] < 32 and f['k'] == 'uint' and f['b'] > t['b'] and self.stack:
                    note((b.n, 'cast', self.stack[-1][1], t['b']), 'Lt', v, 1 << t['b'], const=(0, 1))
                return self.wrap(v, t)
            if t['k'] == 'char':
                return v
        if kind.startswith('PointerCoercion'):
            if 'Unsize' in kind:
                e = t['e'] if t['k'] in ('ref', 'ptr') else None
                if e is not None and self.T[e]['k'] == 'slice' and isinstance(v, R):
                    return R(v.cell, v.path, (0, len(self.load(v).f)))
                return v
            return v
        if kind in ('PtrToPtr', 'Transmute', 'Subtype', 'FnPtrToPtr'):
            return v
        if kind in ('IntToFloat', 'FloatToInt', 'FloatToFloat'):
            if isinstance(v, int):
                return v if kind == 'FloatToInt' else float(v)
            if isinstance(v, float):
                if kind == 'FloatToInt':
                    lo, hi = (0, (1 << t['b']) - 1) if t['k'] == 'uint' else (-(1 << (t['b'] - 1)), (1 << (t['b'] - 1)) - 1)
                    return max(lo, min(hi, int(v))) if v == v else 0
                return v
        raise Unsupported('cast %s %s -> %s' % (kind, f['s'], t['s']))

    # ---- execution ----------------------------------------------------------
    def where(self):
        return ' < '.join('%s' % short(x[0].n) + (':%s' % x[1] if x[1] else '') for x in reversed(self.stack[-6:]))
    def guardcond(self):
        c = 1
        for g in self.guards:
            c = poly.band(c, g)
        return c
    def assume(self, cond, why):
        if isinstance(cond, int):
            if not cond:
                raise Diverge(why)
            return
        cond2 = poly.subst(cond, self.gsub) if self.gsub else cond
        if isinstance(cond2, int):
            if not cond2:
                raise Diverge(why)
            return
        self.panics.append((self.guardcond(), cond2, why, self.where()))
        self.known(cond2)
    def known(self, cond):
        """From here on this 0/1 polynomial is 1 (used to fix single atoms)."""
        if isinstance(cond, P):
            if len(cond.c) == 1:
                (m, k), = cond.c.items()
                if k == 1 and all(e == 1 and poly.is_bool_atom(a) for a, e in m):
                    for a, e in m:
                        self.gsub[a] = 1
            elif len(cond.c) == 2 and cond.c.get(()) == 1:
                for m, k in cond.c.items():
                    if len(m) == 1 and k == -1 and poly.is_bool_atom(m[0][0]):
                        self.gsub[m[0][0]] = 0
    def run_body(self, body, args):
        if len(self.stack) > self.depthlim:
            raise Unsupported('call depth')
        self.nframe += 1
        fr = self.nframe
        n = len(body.blocks)
        for i, a in enumerate(args):
            self.mem[(fr, i + 1)] = a
        if body.nargs != len(args):
            # closure / fn-trait calls pass a tuple
            raise Unsupported('arity of %s: %d for %d' % (body.n, len(args), body.nargs))
        if '/repo/' in body.file:
            self.visited.add(body.n)
        self.stack.append([body, 0])
        try:
            if not body.live:
                raise Diverge(body.n)
            self.run(body, fr, 0, n)
            r = self.mem.get((fr, 0))
            if r is None:
                r = UNIT
        except Unsupported as e:
            if not hasattr(e, 'at'):
                e.at = self.where()
                e.args = (('%s, in %s' % (e, e.at))[:700],)
            raise
        finally:
            self.stack.pop()
            m = self.mem
            for i in range(len(body.locals)):
                m.pop((fr, i), None)
        return r
    def run(self, b, fr, bi, stop):
        n = len(b.blocks)
        while bi != stop and bi != n:
            blk = b.blocks[bi]
            if bi not in b.live:
                raise Diverge('panic in %s' % b.n)
            for st in blk['s']:
                if st[0] == 'setd':
                    pl = st[1]
                    r = self.resolve(b, fr, pl)
                    v = self.load(r)
                    self.store(r, E(self.place_ty(b, pl), ((st[2], 1, v.f if isinstance(v, S) else ()),)))
                    continue
                if st[0] == 'intr':
                    if not st[1].startswith('Assume'):
                        raise Unsupported('intrinsic ' + st[1][:40])
                    continue
                self.stack[-1][1] = st[2]
                pl, rv = st[0], st[1]
                v = self.rvalue(b, fr, rv, self.place_ty(b, pl) if rv[0] in ('bin',) else None)
                self.write(b, fr, pl, v)
            t = blk['t']
            k = t[0]
            self.stack[-1][1] = blk['l']
            if k == 'goto':
                bi = t[1]
            elif k == 'ret':
                bi = n
            elif k == 'call':
                args = [self.operand(b, fr, o) for o in t[2]]
                r = self.call(b, fr, t[1], args)
                if t[4] < 0:
                    raise Diverge('call %s' % t[1].get('n'))
                self.write(b, fr, t[3], r)
                bi = t[4]
            elif k == 'drop':
                bi = t[2]
            elif k == 'assert':
                c = self.operand(b, fr, t[1])
                if not t[2]:
                    c = poly.bnot(c)
                if t[4] in ('BoundsCheck',) and not isinstance(c, int):
                    pass
                self.assume(c, t[4])
                bi = t[3]
            elif k == 'switch':
                bi = self.switch(b, fr, bi, t)
            elif k in ('unreach',):
                raise Diverge('unreachable in %s' % b.n)
            else:
                raise Diverge('%s in %s' % (k, b.n))
    def switch(self, b, fr, bi, t):
        v = self.operand(b, fr, t[1])
        enum = isinstance(v, E)
        if enum:
            v = self.discr(v)
        if isinstance(v, Dom):
            v = v.asint(self)
        if isinstance(v, Poison):
            raise Unsupported('branch on undetermined value (%s)' % v.why)
        if isinstance(v, P) and self.gsub:
            v = poly.subst(v, self.gsub)
        if isinstance(v, int):
            ty = self.T[self.op_ty(b, t[1])]
            if v < 0:
                v &= (1 << ty['b']) - 1
            if ty['k'] == 'uint' and b.repo and not enum:
                for val, tg in t[2]:
                    k = (b.n, bi, 'match', val)
                    s = SITES.get(k)
                    note(k, 'Eq', v, val, s[6] if s else (0, _rejects(b, tg)), (0, 1))
            for val, tg in t[2]:
                if val == v:
                    return tg
            return t[3]
        # unknown condition
        conds = {}
        rest = 1
        ty = self.T[self.op_ty(b, t[1])]
        lo, hi = poly.rng(v)
        nvals = []
        for val, tg in t[2]:
            if ty['k'] == 'int' and val >> (ty['b'] - 1):
                val -= 1 << ty['b']
            if (lo is not None and val < lo) or (hi is not None and val > hi):
                continue
            if lo == 0 and hi == 1:
                c = v if val == 1 else poly.bnot(v)
            else:
                c = poly.eq0(poly.sub(v, val))
            if isinstance(c, int) and c == 0:
                continue
            conds[tg] = poly.add(conds.get(tg, 0), c)
            rest = poly.sub(rest, c)
            nvals.append(val)
        if lo is not None and hi is not None and len(nvals) == hi - lo + 1:
            rest = 0
        if not (isinstance(rest, int) and rest == 0):
            conds[t[3]] = poly.add(conds.get(t[3], 0), rest)
        arms = []
        for tg, c in conds.items():
            if isinstance(c, P):
                c = poly.setrange(c, 0, 1)
            if isinstance(c, int) and c == 0:
                continue
            arms.append((c, tg))
        if len(arms) == 1:
            return arms[0][1]
        j = b.ipdom.get(bi, len(b.blocks))
        outs = []
        dead = 0
        depth = sum(1 for g in self.guards)
        if depth > 1500:
            raise Unsupported('unbounded loop on unknown data')
        base = self.mem
        gs = self.gsub
        panics0 = self.panics
        for c, tg in arms:
            if tg not in b.live:
                dead = poly.add(dead, c)
                continue
            self.mem = dict(base)
            self.guards.append(c)
            self.gsub = dict(gs)
            self.known(c)
            try:
                self.run(b, fr, tg, j)
                outs.append((c, self.mem))
            except Diverge as e:
                dead = poly.add(dead, c)
            finally:
                self.guards.pop()
                self.gsub = gs
        if not outs:
            self.mem = base
            raise Diverge('all branches')
        if not (isinstance(dead, int) and dead == 0):
            self.mem = outs[0][1]
            self.gsub = dict(gs)
            self.assume(poly.setrange(poly.bnot(dead), 0, 1), 'panic branch')
        m = outs[-1][1]
        for c, mm in reversed(outs[:-1]):
            m = self.joinmem(c, mm, m)
        self.mem = m
        return j

    # ---- calls --------------------------------------------------------------
    def call(self, b, fr, f, args):
        self.callsites += 1
        if f['kind'] == 'ptr':
            fv = self.operand(b, fr, f['op'])
            return self.call_value(fv, args)
        return self.dispatch(f, args)
    def dispatch(self, f, args):
        sr, sd = short(f['rd'] or f['d']), short(f['d'])
        sn = short(f['n']) if f['n'] else sr
        for nm in (f['n'], sn, sr, sd):
            o = self.overrides.get(nm)
            if o is not None:
                r = o(self, args, f)
                if r is not NotImplemented:
                    return r
        body = self.p.body(f['key']) if f['key'] else None
        if body is not None and '/repo/' in body.file and not sd.endswith(('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')):
            return self.run_body(body, args)
        for nm in (sn, sr):
            m = self.models.get(nm)
            if m is not None:
                r = m(self, args, f)
                if r is not NotImplemented:
                    return r
        m = self.dmodels.get(sd)
        if m is not None:
            r = m(self, args, f)
            if r is not NotImplemented:
                return r
        if body is not None:
            return self.run_body(body, args)
        c = self.constructor(f, args)
        if c is not None:
            return c
        raise Unsupported('call to %s (%s)' % (f['n'] or f['d'], sd))
    def constructor(self, f, args):
        """A tuple struct or tuple variant used as a function."""
        d = re.sub(r'::<.*>$', '', f['n'] or f['d'])
        for i, t in enumerate(self.T):
            if t and t['k'] == 'adt':
                if t['n'] == d and t['kind'] == 'Struct' and len(t['v'][0]['f']) == len(args):
                    return S(i, tuple(args))
                if t['kind'] == 'Enum' and d.startswith(t['n'] + '::'):
                    for j, v in enumerate(t['v']):
                        if d == t['n'] + '::' + v['n'] and len(v['f']) == len(args):
                            return E(i, ((j, 1, tuple(args)),))
        return None
    def call_value(self, fv, args):
        """Call a closure value, a reference to one, or a function item, with the given arguments."""
        if isinstance(fv, R):
            cv = self.load(fv)
            if isinstance(cv, S) and isinstance(cv.t, int) and self.T[cv.t]['k'] == 'closure':
                key = self.T[cv.t]['key']
                body = self.p.body(key)
                if body is None:
                    raise Unsupported('closure body')
                return self.run_closure(body, fv, cv, args)
            return self.call_value(cv, args)
        if isinstance(fv, FnV):
            body = self.p.body(fv.key)
            ty = fv.name
            if isinstance(ty, dict):
                return self.dispatch({'n': ty['n'], 'rd': '', 'd': ty['d'], 'key': ty['key'], 'a': ty['a'], 'kind': 'item'}, args)
            if body is not None:
                return self.run_body(body, args)
            raise Unsupported('function pointer')
        if isinstance(fv, S):
            ty = self.T[fv.t]
            if ty['k'] == 'closure':
                return self.call_value(self.ref(fv), args)
            if ty['k'] == 'fndef':
                return self.dispatch({'n': ty['n'], 'rd': '', 'd': ty['d'], 'key': ty['key'], 'a': ty['a'], 'kind': 'item'}, args)
        raise Unsupported('call of %r' % (type(fv).__name__,))
    def run_closure(self, body, ref, cv, args):
        t1 = self.T[body.locals[1]] if body.nargs >= 1 else None
        env = ref if t1 and t1['k'] in ('ref', 'ptr') else cv
        if body.nargs == len(args) + 1:
            return self.run_body(body, [env] + list(args))
        raise Unsupported('closure arity %d/%d' % (body.nargs, len(args)))
    def callfn(self, name, args):
        """Entry point: analyse the repo function with this full name."""
        return self.run_body(self.p.body(self.p.find(name)), args)

    # ---- iterators ----------------------------------------------------------
    def to_iter(self, v):
        """IntoIterator"""
        if isinstance(v, It):
            return v
        if isinstance(v, R):
            x = self.load(v)
            if isinstance(x, It):
                return v
            if isinstance(x, R):
                return self.to_iter(x)
            if isinstance(x, S) and (x.t in ('vec', 'arr', 'tup') or v.rng is not None):
                return It(tuple(self.subref(v, i) for i in range(self.length(v))))
            if isinstance(x, S) and isinstance(x.t, int) and self.T[x.t]['k'] == 'adt':
                return v
            if isinstance(x, Dom) and hasattr(x, 'iter'):
                return x.iter(self, v)
        if isinstance(v, Dom) and hasattr(v, 'iter'):
            return v.iter(self, v)
        if isinstance(v, S):
            if v.t in ('vec', 'arr'):
                return It(v.f)
            if isinstance(v.t, int) and self.T[v.t]['k'] == 'adt':
                n = self.adtname(v.t)
                if n == 'Range':
                    a, b = v.f
                    if isinstance(a, int) and isinstance(b, int):
                        return It(tuple(range(a, b)))
                    raise Unsupported('range with unknown bounds %r..%r' % (a, b))
                if n == 'RangeInclusive':
                    a, b = v.f[0], v.f[1]
                    if isinstance(a, int) and isinstance(b, int):
                        return It(tuple(range(a, b + 1)))
                    raise Unsupported('range with unknown bounds')
                if n == 'RangeFrom':
                    return It((), ('from', v.f[0]))
        if isinstance(v, E):
            # Option as an iterator
            if len(v.alts) == 1:
                return It(v.alts[0][2])
        raise Unsupported('into_iter of %r' % (v if isinstance(v, (Poison, S)) else type(v).__name__,))
    def force(self, x):
        """Value of a pending item; returns (ok, value) where ok is False for a filtered-out item."""
        if isinstance(x, Th):
            ok, v = self.force(x.item)
            if not ok:
                return False, None
            if x.kind == 'map':
                return True, self.call_value(R(x.fcell), [v])
            if x.kind == 'clone':
                return True, self.clone(self.load(v))
            if x.kind == 'filter':
                c = self.call_value(R(x.fcell), [self.ref(v)])
                if isinstance(c, P):
                    c = poly.subst(c, self.gsub)
                if not isinstance(c, int):
                    raise Unsupported('filter on unknown data')
                return bool(c), v
            if x.kind == 'cell':
                return True, self.load(v)
            if x.kind == 'call':
                return True, self.call_value(R(x.fcell), [])
            if x.kind == 'pair':
                ok2, w = self.force(x.fcell)
                return ok2, tup(v, w)
            if x.kind == 'filter_map':
                o = self.call_value(R(x.fcell), [v])
                if len(o.alts) != 1:
                    raise Unsupported('filter_map on unknown data')
                return o.alts[0][0] == 1, (o.alts[0][2] or (None,))[0]
            raise Unsupported('thunk ' + x.kind)
        return True, x
    def drain(self, it):
        """All items of an iterator, evaluated in order."""
        import models2
        yield from models2.drain(self, it)
    def drain_items(self, it):
        if isinstance(it, R):
            r = it
            it = self.to_iter(self.load(it))
            if isinstance(it, R):
                raise Unsupported('iterator')
            self.store(r, It(()))
        if not isinstance(it, It):
            it = self.to_iter(it)
        if it.inf is not None:
            raise Unsupported('infinite iterator')
        for x in it.items:
            ok, v = self.force(x)
            if ok:
                yield v
    def clone(self, v):
        return v
    # option helpers
    def some(self, v, t='Option'):
        return E(t, ((1, 1, (v,)),))
    def none(self, t='Option'):
        return E(t, ((0, 1, ()),))

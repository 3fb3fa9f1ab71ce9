"""More models of the standard library: lazy iterator adaptors, collections, cells and slice operations.
Loaded after models.py; where both define a name, this file decides."""
import functools, re
import poly
from poly import P, Unsupported
import absint, models
from absint import S, E, R, Str, It, Th, Dom, FnV, Poison, UNIT, tup, vec, arr, Diverge, short
from models import model, dmodel, MODELS, DMODELS, dr, num, conc, rangeof, put, fcell, infitem, infitems, mapit, user_eq

# ---- iterators --------------------------------------------------------------------
# It(items, inf): items are pending values; inf is None or an endless tail, or ('gen', step):
# step(it) gives (value,) or None, with its state in cells of the store.
def gen(step):
    return It((), ('gen', step))
def isgen(i):
    return isinstance(i, It) and i.inf is not None and (i.inf[0] == 'gen' or i.inf[0] == 'map' and tailgen(i.inf))
def tailgen(inf):
    while inf[0] in ('map', 'step'):
        inf = inf[1]
    return inf[0] == 'gen'
def advance(inf, k):
    if inf[0] == 'from':
        return ('from', inf[1] + k)
    if inf[0] == 'repeat':
        return inf
    if inf[0] == 'map':
        return ('map', advance(inf[1], k), inf[2], inf[3])
    if inf[0] == 'step':
        return ('step', advance(inf[1], k * inf[2]), inf[2])
    raise Unsupported('infinite iterator')
def nextbody(it, v):
    """the body of the user's Iterator::next for a structure"""
    if isinstance(v, S) and isinstance(v.t, int) and it.T[v.t]['k'] == 'adt':
        s = it.T[v.t]['s']
        n = it.T[v.t]['n']
        for k, b in it.p.raw.items():
            if b['n'].endswith('Iterator>::next') and (b['n'].startswith('<' + s + ' as ') or b['n'].startswith('<' + n + ' as ') or b['n'].startswith('<' + n + '<')):
                return it.p.body(k)
    return None
RANGES = ('Range', 'RangeInclusive', 'RangeFrom')
def strip(it, v):
    """a boxed (trait object) iterator is the iterator in the box"""
    while isinstance(v, S) and v.t == 'box':
        v = v.f[0]
    return v
def nx(it, r):
    """The next item of the iterator in the place r: (value,) or None."""
    v = it.load(r)
    while isinstance(v, R):
        r, v = v, it.load(v)
    while isinstance(v, S) and v.t == 'box':
        r, v = R(r.cell, r.path + (('f', 0),)), v.f[0]
        while isinstance(v, R):
            r, v = v, it.load(v)
    if isinstance(v, S) and isinstance(v.t, int) and it.T[v.t]['k'] == 'adt':
        nm = it.adtname(v.t)
        if nm == 'Range':
            x, y = v.f
            if isinstance(x, int) and isinstance(y, int):
                if x < y:
                    it.store(r, S(v.t, (x + 1, y)))
                    return (x,)
                return None
            raise Unsupported('range with unknown bounds')
        if nm == 'RangeFrom' and isinstance(v.f[0], int):
            it.store(r, S(v.t, (v.f[0] + 1,)))
            return (v.f[0],)
        if nm not in RANGES:
            b = nextbody(it, v)
            if b is None:
                raise Unsupported('next of %s' % it.T[v.t]['s'])
            return opt(it.run_body(b, [r]))
        v = it.to_iter(v)
        it.store(r, v)
    if isinstance(v, Dom):
        return opt(v.next(it, r))
    if isinstance(v, E):
        v = it.to_iter(v)
    if not isinstance(v, It):
        raise Unsupported('next of %r' % (type(v).__name__,))
    items, inf = v.items, v.inf
    while items:
        x, items = items[0], items[1:]
        it.store(r, It(items, inf))
        good, val = it.force(x)
        if good:
            return (val,)
    if inf is None:
        return None
    if inf[0] == 'gen':
        return inf[1](it)
    while True:
        x = infitem(inf, 0)
        inf = advance(inf, 1)
        it.store(r, It((), inf))
        good, val = it.force(x)
        if good:
            return (val,)
def opt(o):
    if not isinstance(o, E) or len(o.alts) != 1:
        raise Unsupported('an iterator that ends at an undetermined point')
    return (o.alts[0][2][0],) if o.alts[0][0] == 1 else None
def toit(it, v):
    """IntoIterator, as an It or a Dom; a borrowed iterator is stepped in place"""
    v = strip(it, v)
    if isinstance(v, S) and isinstance(v.t, int) and it.T[v.t]['k'] == 'adt' and it.adtname(v.t) not in RANGES:
        if nextbody(it, v) is not None:
            c = R(it.cell(v))
            return gen(lambda it: nx(it, c))
    i = it.to_iter(v)
    if isinstance(i, R):
        x = it.load(i)
        while isinstance(x, R):
            i, x = x, it.load(x)
        if isinstance(x, Dom):
            return models.take_ref(it, i)
        r = i
        return gen(lambda it: nx(it, r))
    return i
def hasfilter(i):
    def f(x):
        return isinstance(x, Th) and (x.kind.startswith('filter') or f(x.item) or x.kind == 'pair' and f(x.fcell))
    return any(f(x) for x in i.items)
def drain(it, i):
    i = toit(it, i)
    if isinstance(i, Dom):
        yield from it.drain_items(i)
        return
    if i.inf is None:
        for x in i.items:
            good, v = it.force(x)
            if good:
                yield v
        return
    if not isgen(i):
        raise Unsupported('infinite iterator')
    r = R(it.cell(i))
    for _ in range(1 << 17):
        x = nx(it, r)
        if x is None:
            return
        yield x[0]
    raise Unsupported('an iterator without an end')
def solid(it, i):
    """an iterator whose items can be counted: filters decided"""
    if isinstance(i, It) and not isgen(i) and hasfilter(i):
        if i.inf is not None:
            raise Unsupported('infinite iterator')
        return It(tuple(drain(it, i)))
    return i
models.toit = toit

@dmodel('IntoIterator::into_iter', 'Iterator::by_ref')
def _ii(it, a, f):
    v = a[0]
    if f['d'].endswith('by_ref'):
        return v
    s = strip(it, v)
    if s is not v and not (isinstance(s, S) and s.t in ('vec', 'arr')):
        return v
    x = dr(it, v) if isinstance(v, R) else v
    if isinstance(x, S) and isinstance(x.t, int) and it.T[x.t]['k'] == 'adt' and it.adtname(x.t) not in RANGES:
        return v
    if isinstance(x, It):
        return v
    return it.to_iter(s)
@dmodel('Iterator::next')
def _next(it, a, f):
    r = a[0]
    v = it.load(r)
    while isinstance(v, R):
        r, v = v, it.load(v)
    if isinstance(v, Dom):
        return v.next(it, r)
    x = nx(it, r)
    return it.none() if x is None else it.some(x[0])
models._next = _next
@dmodel('DoubleEndedIterator::next_back')
def _nextb(it, a, f):
    x = nxb(it, a[0])
    return it.none() if x is None else it.some(x[0])
def nxb(it, r):
    v = it.load(r)
    while isinstance(v, R):
        r, v = v, it.load(v)
    if isinstance(v, S) and v.t == 'box':
        return nxb(it, R(r.cell, r.path + (('f', 0),)))
    if isinstance(v, S) and isinstance(v.t, int) and it.adtname(v.t) == 'Range' and all(isinstance(x, int) for x in v.f):
        x, y = v.f
        if x < y:
            it.store(r, S(v.t, (x, y - 1)))
            return (y - 1,)
        return None
    v = it.to_iter(v)
    if not isinstance(v, It) or v.inf is not None:
        raise Unsupported('next_back')
    items = v.items
    while items:
        x, items = items[-1], items[:-1]
        it.store(r, It(items))
        good, val = it.force(x)
        if good:
            return (val,)
    return None
def kept(it, i):
    """a cell for the iterator that an adaptor wraps"""
    return R(it.cell(i))
def gmap(it, i, c, kind):
    r = kept(it, i)
    def step(it):
        while True:
            x = nx(it, r)
            if x is None:
                return None
            good, v = it.force(Th(c, x[0], kind))
            if good:
                return (v,)
    return gen(step)
def mapit2(it, i, fn, kind='map'):
    c = fcell(it, fn) if fn is not None else None
    if isgen(i) or i.inf is not None and kind != 'map':
        return gmap(it, i, c, kind)
    if i.inf is not None:
        return It(tuple(Th(c, x, kind) for x in i.items), ('map', i.inf, c, kind))
    return It(tuple(Th(c, x, kind) for x in i.items))
@dmodel('Iterator::map')
def _map(it, a, f):
    i = toit(it, a[0])
    if isinstance(i, Dom):
        return i.map(it, a[1])
    return mapit2(it, i, a[1])
@dmodel('Iterator::filter')
def _filter(it, a, f):
    return mapit2(it, toit(it, a[0]), a[1], 'filter')
@dmodel('Iterator::filter_map')
def _filterm(it, a, f):
    return mapit2(it, toit(it, a[0]), a[1], 'filter_map')
@dmodel('Iterator::inspect')
def _insp(it, a, f):
    c = R(fcell(it, a[1]))
    r = kept(it, toit(it, a[0]))
    def step(it):
        x = nx(it, r)
        if x is not None:
            it.call_value(c, [it.ref(x[0])])
        return x
    return gen(step)
@dmodel('Iterator::cloned', 'Iterator::copied')
def _cloned(it, a, f):
    i = toit(it, a[0])
    if isinstance(i, Dom):
        return i
    return mapit2(it, i, None, 'clone')
@dmodel('Iterator::enumerate')
def _enum(it, a, f):
    i = toit(it, a[0])
    if isinstance(i, Dom):
        return i.enumerate(it)
    i = solid(it, i)
    if i.inf is None:
        return It(tuple(Th(x, n, 'pair') for n, x in enumerate(i.items)))
    r, k = kept(it, i), R(it.cell(0))
    def step(it):
        x = nx(it, r)
        if x is None:
            return None
        n = it.load(k)
        it.store(k, n + 1)
        return (tup(n, x[0]),)
    return gen(step)
@dmodel('Iterator::zip', 'Itertools::zip_eq')
@model('iter::zip')
def _zip(it, a, f):
    i, j = toit(it, a[0]), toit(it, a[1])
    if isinstance(i, Dom):
        return i.zip(it, j)
    if isinstance(j, Dom):
        return j.zip(it, i, True)
    i, j = solid(it, i), solid(it, j)
    if isgen(i) or isgen(j) or i.inf is not None and j.inf is not None:
        r, s = kept(it, i), kept(it, j)
        def step(it):
            x = nx(it, r)
            if x is None:
                return None
            y = nx(it, s)
            return None if y is None else (tup(x[0], y[0]),)
        return gen(step)
    big = 1 << 40
    n = min(big if i.inf else len(i.items), big if j.inf else len(j.items))
    if (f['d'] or '').endswith('zip_eq') and (i.inf or j.inf or len(i.items) != len(j.items)):
        raise Diverge('zip_eq')
    return It(tuple(Th(y, x, 'pair') for x, y in zip(infitems(i, n), infitems(j, n))))
@dmodel('Iterator::rev')
def _irev(it, a, f):
    i = toit(it, a[0])
    if isinstance(i, Dom):
        raise Unsupported('rev')
    if isgen(i) and isinstance(a[0], R):
        r = a[0]
        return gen(lambda it: nxb(it, r))
    if i.inf:
        raise Unsupported('rev')
    return It(tuple(reversed(i.items)))
@dmodel('Iterator::chain')
def _chain(it, a, f):
    i, j = toit(it, a[0]), toit(it, a[1])
    if isinstance(i, Dom) or isinstance(j, Dom):
        raise Unsupported('chain')
    if i.inf is None:
        return It(i.items + j.items, j.inf)
    r, s, k = kept(it, i), kept(it, j), R(it.cell(0))
    def step(it):
        if it.load(k) == 0:
            x = nx(it, r)
            if x is not None:
                return x
            it.store(k, 1)
        return nx(it, s)
    return gen(step)
@dmodel('Iterator::take')
def _take(it, a, f):
    i = solid(it, toit(it, a[0]))
    if isinstance(i, Dom):
        raise Unsupported('take')
    n = conc(a[1])
    if isgen(i):
        r, k = kept(it, i), R(it.cell(n))
        def step(it):
            m = it.load(k)
            if m == 0:
                return None
            it.store(k, m - 1)
            return nx(it, r)
        return gen(step)
    return It(tuple(infitems(i, n)))
@dmodel('Iterator::skip')
def _skip(it, a, f):
    i = solid(it, toit(it, a[0]))
    n = conc(a[1])
    if isinstance(i, Dom):
        raise Unsupported('skip')
    if i.inf is None:
        return It(i.items[n:])
    r, k = kept(it, i), R(it.cell(n))
    def step(it):
        while it.load(k):
            it.store(k, it.load(k) - 1)
            if nx(it, r) is None:
                return None
        return nx(it, r)
    return gen(step)
@dmodel('Iterator::step_by')
def _stepby(it, a, f):
    i = solid(it, toit(it, a[0]))
    n = conc(a[1])
    if n == 0:
        raise Diverge('step_by(0)')
    if isinstance(i, Dom):
        raise Unsupported('step_by')
    if isgen(i) or i.inf is not None and i.items:
        r, k = kept(it, i), R(it.cell(0))
        def step(it):
            if it.load(k):
                for _ in range(n - 1):
                    if nx(it, r) is None:
                        return None
            it.store(k, 1)
            return nx(it, r)
        return gen(step)
    return It(i.items[::n], ('step', i.inf, n) if i.inf else None)
@dmodel('Iterator::take_while', 'Iterator::map_while')
def _tw(it, a, f):
    c = R(fcell(it, a[1]))
    r, k = kept(it, toit(it, a[0])), R(it.cell(0))
    mp = f['d'].endswith('map_while')
    def step(it):
        if not mp and it.load(k):
            return None
        x = nx(it, r)
        if x is None:
            return None
        if mp:
            return opt(it.call_value(c, [x[0]]))
        if decided(it, it.call_value(c, [it.ref(x[0])])):
            return x
        it.store(k, 1)
        return None
    return gen(step)
def decided(it, v):
    if isinstance(v, P):
        v = poly.subst(v, it.gsub)
    if not isinstance(v, int):
        raise Unsupported('an iterator adaptor that depends on unknown data')
    return bool(v)
@dmodel('Iterator::skip_while')
def _sw(it, a, f):
    c = R(fcell(it, a[1]))
    r, k = kept(it, toit(it, a[0])), R(it.cell(0))
    def step(it):
        while True:
            x = nx(it, r)
            if x is None or it.load(k):
                return x
            if not decided(it, it.call_value(c, [it.ref(x[0])])):
                it.store(k, 1)
                return x
    return gen(step)
@dmodel('Iterator::scan')
def _scan(it, a, f):
    c = R(fcell(it, a[2]))
    r, st = kept(it, toit(it, a[0])), R(it.cell(a[1]))
    def step(it):
        x = nx(it, r)
        return None if x is None else opt(it.call_value(c, [st, x[0]]))
    return gen(step)
@dmodel('Iterator::fuse')
def _fuse(it, a, f):
    return toit(it, a[0])
@dmodel('Iterator::peekable')
def _peekable(it, a, f):
    return toit(it, a[0])
@model('Peekable::peek', 'Peekable::peek_mut')
def _peek(it, a, f):
    r = a[0]
    v = it.load(r)
    while isinstance(v, R):
        r, v = v, it.load(v)
    x = nx(it, r)
    if x is None:
        it.store(r, It(()))
        return it.none()
    w = it.load(r)
    if isinstance(w, It):
        c = it.cell(x[0])
        it.store(r, It((Th(None, R(c), 'cell'),) + w.items, w.inf))
        return it.some(R(c))
    raise Unsupported('peek')
@model('Peekable::next_if', 'Peekable::next_if_eq')
def _nextif(it, a, f):
    o = _peek(it, a, f)
    if o.alts[0][0] == 0:
        return it.none()
    p = o.alts[0][2][0]
    eq = (f['rd'] or f['d']).endswith('next_if_eq')
    g = user_eq(it, p, a[1], f) if eq else it.call_value(R(fcell(it, a[1])), [p])
    return _next(it, a, f) if decided(it, g) else it.none()
@dmodel('Iterator::flat_map', 'Iterator::flatten')
def _flatm(it, a, f):
    c = R(fcell(it, a[1])) if len(a) > 1 else None
    i = toit(it, a[0])
    if isinstance(i, Dom):
        raise Unsupported('flat_map')
    r, cur = kept(it, i), R(it.cell(It(())))
    def step(it):
        while True:
            x = nx(it, cur)
            if x is not None:
                return x
            y = nx(it, r)
            if y is None:
                return None
            it.store(cur, toit(it, it.call_value(c, [y[0]]) if c is not None else y[0]))
    if i.inf is not None:
        return gen(step)
    g = R(it.cell(gen(step)))
    return gen(lambda it: nx(it, g))
@dmodel('Iterator::cycle')
def _cycle(it, a, f):
    i = toit(it, a[0])
    if isinstance(i, Dom) or i.inf is not None:
        raise Unsupported('cycle')
    xs = list(drain(it, i))
    if not xs:
        return It(())
    k = R(it.cell(0))
    def step(it):
        n = it.load(k)
        it.store(k, n + 1)
        return (xs[n % len(xs)],)
    return gen(step)
@dmodel('Itertools::tuple_windows')
def _tw2(it, a, f):
    xs = list(drain(it, a[0]))
    m = re.findall(r'tuple_windows::<\((.*)\)>', f['n'] or '')
    n = m[0].count(',') + 1 if m else 2
    return It(tuple(tup(*xs[j:j + n]) for j in range(len(xs) - n + 1)))
@model('iter::from_fn', 'iter::repeat_with')
def _fromfn(it, a, f):
    c = R(fcell(it, a[0]))
    if (f['rd'] or f['d']).split('::<')[0].endswith('repeat_with'):
        return gen(lambda it: (it.call_value(c, []),))
    return gen(lambda it: opt(it.call_value(c, [])))
@model('iter::once_with')
def _oncewith(it, a, f):
    return It((Th(fcell(it, a[0]), None, 'call'),))
@model('iter::successors')
def _succ(it, a, f):
    c = R(fcell(it, a[1]))
    st = R(it.cell(a[0]))
    def step(it):
        x = opt(it.load(st))
        if x is None:
            return None
        it.store(st, it.call_value(c, [it.ref(x[0])]))
        return x
    return gen(step)
@model('iter::repeat')
def _repeat(it, a, f):
    return It((), ('repeat', a[0]))

# consumers
@dmodel('ExactSizeIterator::len', 'Iterator::count')
def _icount(it, a, f):
    if f['d'].endswith('len'):
        i = it.to_iter(it.load(a[0])) if isinstance(a[0], R) else toit(it, a[0])
        if isinstance(i, It) and i.inf is None and not hasfilter(i):
            return len(i.items)
        raise Unsupported('length of an iterator')
    return sum(1 for _ in drain(it, a[0]))
@dmodel('Iterator::size_hint')
def _hint(it, a, f):
    i = it.to_iter(it.load(a[0])) if isinstance(a[0], R) else toit(it, a[0])
    if isinstance(i, It) and i.inf is None and not hasfilter(i):
        return tup(len(i.items), it.some(len(i.items)))
    raise Unsupported('size_hint of an iterator')
def place(it, v):
    """the place of the iterator that a method with &mut self works on"""
    return v if isinstance(v, R) else R(it.cell(toit(it, v)))
def steps(it, r):
    v = it.load(r)
    while isinstance(v, R):
        r, v = v, it.load(v)
    if isinstance(v, Dom):
        yield from it.drain_items(v)
        return
    for _ in range(1 << 17):
        x = nx(it, r)
        if x is None:
            return
        yield x[0]
    raise Unsupported('an iterator without an end')
@dmodel('Iterator::all')
def _all(it, a, f):
    c, r = R(fcell(it, a[1])), 1
    for x in steps(it, place(it, a[0])):
        r = poly.band(r, it.call_value(c, [x]))
        if isinstance(r, int) and r == 0:
            break
    return r
@dmodel('Iterator::any')
def _any(it, a, f):
    c, r = R(fcell(it, a[1])), 0
    for x in steps(it, place(it, a[0])):
        r = poly.bor(r, it.call_value(c, [x]))
        if isinstance(r, int) and r == 1:
            break
    return r
@dmodel('Iterator::position')
def _pos(it, a, f):
    c = R(fcell(it, a[1]))
    for n, x in enumerate(steps(it, place(it, a[0]))):
        if decided(it, it.call_value(c, [x])):
            return it.some(n)
    return it.none()
@dmodel('Iterator::find')
def _find(it, a, f):
    c = R(fcell(it, a[1]))
    for x in steps(it, place(it, a[0])):
        if decided(it, it.call_value(c, [it.ref(x)])):
            return it.some(x)
    return it.none()
@dmodel('Iterator::find_map')
def _findm(it, a, f):
    c = R(fcell(it, a[1]))
    for x in steps(it, place(it, a[0])):
        y = opt(it.call_value(c, [x]))
        if y is not None:
            return it.some(y[0])
    return it.none()
def back(it, r):
    while True:
        x = nxb(it, r)
        if x is None:
            return
        yield x[0]
@dmodel('DoubleEndedIterator::rfind', 'Iterator::rposition', 'DoubleEndedIterator::rposition')
def _rfind(it, a, f):
    c = R(fcell(it, a[1]))
    r = place(it, a[0])
    if f['d'].endswith('rfind'):
        for x in back(it, r):
            if decided(it, it.call_value(c, [it.ref(x)])):
                return it.some(x)
        return it.none()
    n = _icount(it, [r], {'d': 'len'})
    for x in back(it, r):
        n -= 1
        if decided(it, it.call_value(c, [x])):
            return it.some(n)
    return it.none()
@dmodel('DoubleEndedIterator::rfold')
def _rfold(it, a, f):
    c, acc = R(fcell(it, a[2])), a[1]
    for x in back(it, place(it, a[0])):
        acc = it.call_value(c, [acc, x])
    return acc
@dmodel('Iterator::nth', 'DoubleEndedIterator::nth_back')
def _nth(it, a, f):
    g = nxb if f['d'].endswith('back') else nx
    x = None
    for _ in range(conc(a[1]) + 1):
        x = g(it, a[0])
        if x is None:
            return it.none()
    return it.some(x[0])
def bykey(it, xs, cmp, last):
    """the greatest element (the last of several) or, with last False, the first least"""
    best = None
    for x in xs:
        if best is None or (cmp(x, best) >= 0 if last else cmp(x, best) < 0):
            best = x
    return best
@dmodel('Iterator::max_by_key', 'Iterator::min_by_key', 'Iterator::max_by', 'Iterator::min_by')
def _mbk(it, a, f):
    c = R(fcell(it, a[1]))
    nm = f['d'].split('::')[-1]
    xs = [x for x in drain(it, a[0])]
    if nm.endswith('key'):
        ks = [(okey(it, it.call_value(c, [it.ref(x)])), x) for x in xs]
        b = bykey(it, ks, lambda x, y: (x[0] > y[0]) - (x[0] < y[0]), nm.startswith('max'))
        return it.none() if b is None else it.some(b[1])
    b = bykey(it, xs, lambda x, y: ordering(it.call_value(c, [it.ref(x), it.ref(y)])), nm.startswith('max'))
    return it.none() if b is None else it.some(b)
def ordering(o):
    if isinstance(o, int):
        return o if o < 2 else -1
    if isinstance(o, E) and len(o.alts) == 1:
        return o.alts[0][0] - 1
    raise Unsupported('a comparison of unknown data')
@functools.total_ordering
class Rev:
    def __init__(self, x):
        self.x = x
    def __eq__(self, o):
        return self.x == o.x
    def __lt__(self, o):
        return o.x < self.x
def okey(it, v):
    """an ordered value as something Python orders the same way"""
    v = dr(it, v)
    if isinstance(v, P):
        v = poly.subst(v, it.gsub)
    if isinstance(v, int):
        return v
    if isinstance(v, S):
        if isinstance(v.t, int) and it.adtname(v.t) == 'Reverse':
            return Rev(okey(it, v.f[0]))
        if v.t in ('vec', 'arr', 'tup') or isinstance(v.t, int) and it.T[v.t]['k'] in ('tuple', 'array') or v.t == 'box':
            return tuple(okey(it, x) for x in v.f)
    if isinstance(v, E) and len(v.alts) == 1:
        return (v.alts[0][0],) + tuple(okey(it, x) for x in v.alts[0][2])
    if isinstance(v, Str):
        return v.s.encode()
    raise Unsupported('a comparison of unknown data')
@dmodel('Iterator::partition')
def _part(it, a, f):
    c = R(fcell(it, a[1]))
    p, q = [], []
    for x in drain(it, a[0]):
        (p if decided(it, it.call_value(c, [it.ref(x)])) else q).append(x)
    return tup(vec(p), vec(q))
@dmodel('Iterator::try_fold', 'Iterator::try_for_each')
def _tryfold(it, a, f):
    each = f['d'].endswith('each')
    c = R(fcell(it, a[1] if each else a[2]))
    acc = UNIT if each else a[1]
    live, nm, tid, stops = 1, None, None, []
    for x in steps(it, place(it, a[0])):
        o = it.call_value(c, [x] if each else [acc, x])
        if not isinstance(o, E):
            raise Unsupported('try_fold')
        tid = o.t
        nm = (it.adtname(o.t) if isinstance(o.t, int) else o.t).split('::')[-1]
        good = 1 if nm == 'Option' else 0
        go = 0
        for v, k, fs in o.alts:
            if v == good:
                go, acc = k, (fs or (UNIT,))[0]
            else:
                stops.append((v, poly.band(live, k), fs))
        live = poly.band(live, go)
        if isinstance(live, int) and live == 0:
            break
    if tid is None:
        for x in reversed(f['a']):
            if not isinstance(x, dict) and it.T[x]['k'] == 'adt' and it.T[x]['n'].split('::')[-1] in ('Option', 'Result', 'ControlFlow'):
                nm = it.T[x]['n'].split('::')[-1]
                return E(nm, ((1 if nm == 'Option' else 0, 1, (acc,)),))
        raise Unsupported('try_fold')
    good = 1 if nm == 'Option' else 0
    alts = [] if isinstance(live, int) and live == 0 else [(good, live, (acc,))]
    stops = [s for s in stops if not (isinstance(s[1], int) and s[1] == 0)]
    if stops:
        k = 0
        for s in stops:
            if s[2] != stops[0][2]:
                raise Unsupported('try_fold that ends in several ways')
            k = poly.bor(k, s[1])
        alts.append((stops[0][0], k, stops[0][2]))
    return E(tid, tuple(sorted(alts, key=lambda t: t[0])))
@dmodel('Iterator::is_sorted')
def _isorted(it, a, f):
    xs = [okey(it, x) for x in drain(it, a[0])]
    return int(all(x <= y for x, y in zip(xs, xs[1:])))

# ---- sorting and searching --------------------------------------------------------------
@model('<impl [T]>::sort', '<impl [T]>::sort_unstable')
def _sort(it, a, f):
    put(it, a[0], tuple(sorted(it.items(a[0]), key=lambda x: okey(it, x))))
    return UNIT
@model('<impl [T]>::sort_by_key', '<impl [T]>::sort_unstable_by_key', '<impl [T]>::sort_by_cached_key')
def _sortk(it, a, f):
    c = R(fcell(it, a[1]))
    put(it, a[0], tuple(sorted(it.items(a[0]), key=lambda x: okey(it, it.call_value(c, [it.ref(x)])))))
    return UNIT
@model('<impl [T]>::sort_by', '<impl [T]>::sort_unstable_by')
def _sortb(it, a, f):
    c = R(fcell(it, a[1]))
    put(it, a[0], tuple(sorted(it.items(a[0]), key=functools.cmp_to_key(lambda x, y: ordering(it.call_value(c, [it.ref(x), it.ref(y)]))))))
    return UNIT
@model('<impl [T]>::is_sorted')
def _ssorted(it, a, f):
    xs = [okey(it, x) for x in it.items(a[0])]
    return int(all(x <= y for x, y in zip(xs, xs[1:])))
def bsearch(it, n, cmp):
    lo, hi = 0, n
    while lo < hi:
        m = (lo + hi) // 2
        o = cmp(m)
        if o == 0:
            return E('Result', ((0, 1, (m,)),))
        if o < 0:
            lo = m + 1
        else:
            hi = m
    return E('Result', ((1, 1, (lo,)),))
@model('<impl [T]>::binary_search')
def _bs(it, a, f):
    xs, k = [okey(it, x) for x in it.items(a[0])], okey(it, a[1])
    if len(set(xs)) != len(xs):
        raise Unsupported('binary_search among equal elements')
    return bsearch(it, len(xs), lambda m: (xs[m] > k) - (xs[m] < k))
@model('<impl [T]>::binary_search_by')
def _bsb(it, a, f):
    c = R(fcell(it, a[1]))
    return bsearch(it, it.length(a[0]), lambda m: ordering(it.call_value(c, [it.subref(a[0], m)])))
@model('<impl [T]>::partition_point')
def _pp(it, a, f):
    c = R(fcell(it, a[1]))
    n = 0
    for j in range(it.length(a[0])):
        if not decided(it, it.call_value(c, [it.subref(a[0], j)])):
            break
        n += 1
    return n

# ---- slices and arrays ------------------------------------------------------------------
def last_name(f):
    return re.sub(r'::<.*$', '', f['rd'] or f['d']).split('::')[-1]
@model('<impl [T]>::rotate_left', '<impl [T]>::rotate_right')
def _rot(it, a, f):
    xs, k = tuple(it.items(a[0])), conc(a[1])
    if k > len(xs):
        raise Diverge('rotate')
    if last_name(f) == 'rotate_right':
        k = len(xs) - k
    put(it, a[0], xs[k:] + xs[:k])
    return UNIT
@model('<impl [T]>::fill_with')
def _fillw(it, a, f):
    c = R(fcell(it, a[1]))
    for j in range(it.length(a[0])):
        it.store(it.subref(a[0], j), it.call_value(c, []))
    return UNIT
@model('<impl [T]>::copy_within')
def _cw(it, a, f):
    xs = list(it.items(a[0]))
    lo, hi = rangeof(it, a[1], len(xs))
    d = conc(a[2])
    if not 0 <= lo <= hi <= len(xs) or d + hi - lo > len(xs):
        raise Diverge('copy_within')
    xs[d:d + hi - lo] = xs[lo:hi]
    put(it, a[0], tuple(xs))
    return UNIT
@model('<impl [T]>::swap_with_slice')
def _sws(it, a, f):
    xs, ys = tuple(it.items(a[0])), tuple(it.items(a[1]))
    if len(xs) != len(ys):
        raise Diverge('swap_with_slice')
    put(it, a[0], ys)
    put(it, a[1], xs)
    return UNIT
@model('<impl [T]>::repeat')
def _rep(it, a, f):
    return vec(tuple(it.items(a[0])) * conc(a[1]))
@model('<impl [T]>::join')
def _join(it, a, f):
    out = []
    for n, x in enumerate(it.items(a[0])):
        if n:
            s = dr(it, a[1])
            out.extend(s.f if isinstance(s, S) and s.t in ('vec', 'arr') else [s])
        out.extend(it.items(x))
    return vec(out)
@model('<impl [T]>::starts_with', '<impl [T]>::ends_with')
def _startsw(it, a, f):
    xs, ys = it.items(a[0]), it.items(a[1])
    if len(ys) > len(xs):
        return 0
    xs = xs[:len(ys)] if last_name(f) == 'starts_with' else xs[len(xs) - len(ys):]
    r = 1
    for x, y in zip(xs, ys):
        r = poly.band(r, user_eq(it, x, y, f))
    return r
@model('<impl [T]>::rchunks', '<impl [T]>::rchunks_mut', '<impl [T]>::rchunks_exact', '<impl [T]>::rchunks_exact_mut')
def _rchunks(it, a, f):
    n, k = it.length(a[0]), conc(a[1])
    if k == 0:
        raise Diverge('rchunks')
    e = 'exact' in last_name(f)
    return It(tuple(it.subslice(a[0], max(0, hi - k), hi) for hi in range(n, 0, -k) if not e or hi >= k))
@model('<impl [T]>::split', '<impl [T]>::split_mut')
def _ssplit(it, a, f):
    c = R(fcell(it, a[1]))
    out, lo, n = [], 0, it.length(a[0])
    for j in range(n):
        if decided(it, it.call_value(c, [it.subref(a[0], j)])):
            out.append((lo, j))
            lo = j + 1
    return It(tuple(it.subslice(a[0], x, y) for x, y in out + [(lo, n)]))
@model('<impl [T]>::first_chunk', '<impl [T]>::last_chunk', '<impl [T]>::first_chunk_mut', '<impl [T]>::last_chunk_mut')
def _fchunk(it, a, f):
    n = constarg(f)
    m = it.length(a[0])
    if n > m:
        return it.none()
    return it.some(it.subslice(a[0], 0, n) if last_name(f).startswith('first') else it.subslice(a[0], m - n, m))
def constarg(f):
    n = [x['c'] for x in f['a'] if isinstance(x, dict) and isinstance(x.get('c'), int) and x['c'] >= 0]
    if not n:
        raise Unsupported('array length of ' + str(f['n']))
    return n[-1]
@model('array::from_fn', 'array::try_from_fn')
def _afromfn(it, a, f):
    c = R(fcell(it, a[0]))
    if 'try_from_fn' in (f['rd'] or f['d']):
        return NotImplemented
    return arr(it.call_value(c, [j]) for j in range(constarg(f)))
@model('<impl [T; N]>::map')
def _amap(it, a, f):
    c = R(fcell(it, a[1]))
    return arr([it.call_value(c, [x]) for x in a[0].f])
@model('<impl [T; N]>::each_ref', '<impl [T; N]>::each_mut')
def _eachref(it, a, f):
    return arr([it.subref(a[0], j) for j in range(it.length(a[0]))])
@model('<impl [T]>::last_mut', '<impl [T]>::last')
def _lastm(it, a, f):
    n = it.length(a[0])
    return it.some(it.subref(a[0], n - 1)) if n else it.none()
@model('<impl [T]>::split_first_mut')
def _sfm(it, a, f):
    return models._spf(it, a, f)
@model('<impl [T]>::split_last_mut')
def _slm(it, a, f):
    return models._spl(it, a, f)
@model('<impl [T]>::split_at_checked', '<impl [T]>::split_at_mut_checked')
def _sac(it, a, f):
    return it.some(models._split(it, a, f)) if conc(a[1]) <= it.length(a[0]) else it.none()

# ---- vectors ---------------------------------------------------------------------------
def vget(it, r):
    v = it.load(r)
    while isinstance(v, R):
        r, v = v, it.load(v)
    if not (isinstance(v, S) and v.t == 'vec'):
        raise Unsupported('vector of an unknown form')
    return r, v.f
@model('Vec::drain', 'VecDeque::drain')
def _drain(it, a, f):
    r, xs = vget(it, a[0])
    lo, hi = rangeof(it, a[1], len(xs))
    if not 0 <= lo <= hi <= len(xs):
        raise Diverge('drain')
    it.store(r, vec(xs[:lo] + xs[hi:]))
    return It(xs[lo:hi])
@model('Vec::splice')
def _splice(it, a, f):
    r, xs = vget(it, a[0])
    lo, hi = rangeof(it, a[1], len(xs))
    if not 0 <= lo <= hi <= len(xs):
        raise Diverge('splice')
    it.store(r, vec(xs[:lo] + tuple(drain(it, a[2])) + xs[hi:]))
    return It(xs[lo:hi])
@model('Vec::retain', 'Vec::retain_mut', 'VecDeque::retain')
def _retain(it, a, f):
    c = R(fcell(it, a[1]))
    r, xs = vget(it, a[0])
    out = []
    for x in xs:
        p = it.ref(x)
        if decided(it, it.call_value(c, [p])):
            out.append(it.load(p))
    it.store(r, vec(out))
    return UNIT
@model('Vec::swap_remove')
def _swrem(it, a, f):
    r, xs = vget(it, a[0])
    i = conc(a[1])
    if i >= len(xs):
        raise Diverge('swap_remove')
    ys = list(xs)
    ys[i] = ys[-1]
    it.store(r, vec(ys[:-1]))
    return xs[i]
@model('Vec::dedup')
def _dedup(it, a, f):
    r, xs = vget(it, a[0])
    out = []
    for x in xs:
        if not out or okey(it, out[-1]) != okey(it, x):
            out.append(x)
    it.store(r, vec(out))
    return UNIT
@model('Vec::extend_from_within')
def _efw(it, a, f):
    r, xs = vget(it, a[0])
    lo, hi = rangeof(it, a[1], len(xs))
    if not 0 <= lo <= hi <= len(xs):
        raise Diverge('extend_from_within')
    it.store(r, vec(xs + xs[lo:hi]))
    return UNIT
@model('Vec::resize_with', 'VecDeque::resize_with')
def _rsw(it, a, f):
    r, xs = vget(it, a[0])
    c, n = R(fcell(it, a[2])), conc(a[1])
    it.store(r, vec(xs[:n] + tuple(it.call_value(c, []) for _ in range(n - len(xs)))))
    return UNIT
@model('Vec::reserve', 'Vec::reserve_exact', 'Vec::shrink_to_fit', 'VecDeque::reserve', 'VecDeque::shrink_to_fit', 'String::reserve', 'HashMap::reserve', 'Vec::shrink_to')
def _noop(it, a, f):
    return UNIT
@model('Vec::capacity')
def _cap(it, a, f):
    raise Unsupported('capacity')
@model('Vec::into_boxed_slice')
def _ibs(it, a, f):
    return S('box', (a[0],))
@model('Vec::pop_if')
def _popif(it, a, f):
    r, xs = vget(it, a[0])
    if not xs:
        return it.none()
    p = it.ref(xs[-1])
    if decided(it, it.call_value(R(fcell(it, a[1])), [p])):
        it.store(r, vec(xs[:-1]))
        return it.some(it.load(p))
    it.store(r, vec(xs[:-1] + (it.load(p),)))
    return it.none()
# double-ended queues are vectors
@model('VecDeque::new', 'VecDeque::with_capacity', '<VecDeque<T> as Default>::default')
def _dqnew(it, a, f):
    return vec([])
for _n, _m in (('push_back', 'Vec::push'), ('pop_back', 'Vec::pop'), ('len', 'Vec::len'), ('is_empty', 'Vec::is_empty'), ('clear', 'Vec::clear'), ('append', 'Vec::append'),
               ('insert', 'Vec::insert'), ('truncate', 'Vec::truncate'), ('split_off', 'Vec::split_off'), ('resize', 'Vec::resize'),
               ('iter', '<impl [T]>::iter'), ('iter_mut', '<impl [T]>::iter_mut'), ('get', '<impl [T]>::get'), ('get_mut', '<impl [T]>::get_mut'), ('swap', '<impl [T]>::swap'),
               ('front', '<impl [T]>::first'), ('front_mut', '<impl [T]>::first'), ('back', '<impl [T]>::last'), ('back_mut', '<impl [T]>::last'),
               ('contains', '<impl [T]>::contains'), ('rotate_left', '<impl [T]>::rotate_left'), ('rotate_right', '<impl [T]>::rotate_right')):
    MODELS['VecDeque::' + _n] = MODELS[_m]
@model('VecDeque::push_front')
def _pf(it, a, f):
    r, xs = vget(it, a[0])
    it.store(r, vec((a[1],) + xs))
    return UNIT
@model('VecDeque::pop_front')
def _popf(it, a, f):
    r, xs = vget(it, a[0])
    if not xs:
        return it.none()
    it.store(r, vec(xs[1:]))
    return it.some(xs[0])
@model('VecDeque::remove')
def _dqrem(it, a, f):
    r, xs = vget(it, a[0])
    i = conc(a[1])
    if i >= len(xs):
        return it.none()
    it.store(r, vec(xs[:i] + xs[i + 1:]))
    return it.some(xs[i])
@model('VecDeque::make_contiguous')
def _mc(it, a, f):
    r, xs = vget(it, a[0])
    return R(r.cell, r.path, (0, len(xs)))
@model('VecDeque::as_slices', 'VecDeque::as_mut_slices')
def _ass(it, a, f):
    r, xs = vget(it, a[0])
    return tup(R(r.cell, r.path, (0, len(xs))), R(r.cell, r.path, (len(xs), len(xs))))
@dmodel('From::from', 'Into::into')
def _fromvec(it, a, f):
    v = a[0]
    n = short(f['n'] or '') + ' ' + short(f['rd'] or '')
    if isinstance(v, S) and v.t in ('vec', 'arr') and ('VecDeque' in n or 'Vec<' in n):
        return vec(v.f)
    return NotImplemented
@dmodel('Extend::extend')
def _extend(it, a, f):
    v = dr(it, a[0])
    if isinstance(v, HMap):
        for x in drain(it, a[1]):
            hput(it, a[0], x.f[0], x.f[1]) if not v.isset else hput(it, a[0], x, UNIT)
        return UNIT
    if isinstance(v, S) and v.t == 'tup':
        for x in drain(it, a[1]):
            for j in range(len(v.f)):
                p = it.subfield(a[0], j) if hasattr(it, 'subfield') else R(a[0].cell, a[0].path + (('f', j),))
                it.store(p, vec(it.load(p).f + (x.f[j],)))
        return UNIT
    return NotImplemented

# ---- maps and sets -----------------------------------------------------------------------
class HMap(Dom):
    """a map whose keys are known; isset: a set; ordered: a BTreeMap or BTreeSet"""
    __slots__ = ('kv', 'isset', 'ordered')
    def __init__(self, kv=(), isset=False, ordered=True):
        self.kv = tuple(kv)
        self.isset = isset
        self.ordered = ordered
    def __eq__(self, o):
        return isinstance(o, HMap) and self.kv == o.kv
    def __hash__(self):
        return hash(tuple(k for k, _, _ in self.kv))
    def step(self, it, s):
        """the place of the value of the key s"""
        for n, k, v in self.kv:
            if n == s:
                return v
        raise Unsupported('map entry')
    def length(self, it):
        return len(self.kv)
def hm(it, r):
    v = it.load(r) if isinstance(r, R) else r
    while isinstance(v, R):
        r, v = v, it.load(v)
    if not isinstance(v, HMap):
        raise Unsupported('not a map')
    return r, v
def hput(it, r, k, v):
    """values live in cells of their own, so that references to them stay valid"""
    r, m = hm(it, r)
    n = okey(it, k)
    for q, _, c in m.kv:
        if q == n:
            old = it.load(R(c))
            it.store(R(c), v)
            return (old,)
    kv = m.kv + ((n, k, it.cell(v)),)
    if m.ordered:
        kv = tuple(sorted(kv, key=lambda t: t[0]))
    it.store(r, HMap(kv, m.isset, m.ordered))
    return None
def hget(it, r, k):
    _, m = hm(it, r)
    n = okey(it, k)
    for q, kk, c in m.kv:
        if q == n:
            return kk, c
    return None
def hdel(it, r, n):
    r, m = hm(it, r)
    it.store(r, HMap(tuple(t for t in m.kv if t[0] != n), m.isset, m.ordered))
def order(m):
    if not m.ordered and len(m.kv) > 1:
        raise Unsupported('iteration over a map in an unspecified order')
    return m.kv
MAPS = ('HashMap', 'BTreeMap')
SETS = ('HashSet', 'BTreeSet')
def mm(names, kinds=MAPS):
    def d(fn):
        for k in kinds:
            for n in names.split():
                MODELS['%s::%s' % (k, n)] = fn
        return fn
    return d
def isbt(f):
    return 'BTree' in (f['n'] or f['rd'] or f['d'])
@mm('new with_capacity default')
@model('<HashMap<K, V, S> as Default>::default', '<BTreeMap<K, V> as Default>::default')
def _mnew(it, a, f):
    return HMap((), False, isbt(f))
@mm('new with_capacity default', SETS)
@model('<HashSet<T, S> as Default>::default', '<BTreeSet<T> as Default>::default')
def _snew(it, a, f):
    return HMap((), True, isbt(f))
@mm('insert')
def _mins(it, a, f):
    o = hput(it, a[0], a[1], a[2])
    return it.some(o[0]) if o else it.none()
@mm('insert', SETS)
def _sins(it, a, f):
    if hget(it, a[0], a[1]):
        return 0
    hput(it, a[0], a[1], UNIT)
    return 1
@mm('get get_mut')
def _mget(it, a, f):
    x = hget(it, a[0], a[1])
    return it.some(R(x[1])) if x else it.none()
@mm('contains_key')
@mm('contains', SETS)
def _mhas(it, a, f):
    return int(hget(it, a[0], a[1]) is not None)
@mm('remove')
def _mrem(it, a, f):
    x = hget(it, a[0], a[1])
    if not x:
        return it.none()
    v = it.load(R(x[1]))
    hdel(it, a[0], okey(it, a[1]))
    return it.some(v)
@mm('remove', SETS)
def _srem(it, a, f):
    x = hget(it, a[0], a[1])
    if x:
        hdel(it, a[0], okey(it, a[1]))
    return int(x is not None)
@mm('len', MAPS + SETS)
def _mlen(it, a, f):
    return len(hm(it, a[0])[1].kv)
@mm('is_empty', MAPS + SETS)
def _mempty(it, a, f):
    return int(not hm(it, a[0])[1].kv)
@mm('clear', MAPS + SETS)
def _mclear(it, a, f):
    r, m = hm(it, a[0])
    it.store(r, HMap((), m.isset, m.ordered))
    return UNIT
@mm('iter iter_mut', MAPS)
def _miter(it, a, f):
    return It(tuple(tup(it.ref(k), R(c)) for n, k, c in order(hm(it, a[0])[1])))
@mm('iter', SETS)
def _siter(it, a, f):
    return It(tuple(it.ref(k) for n, k, c in order(hm(it, a[0])[1])))
@mm('keys')
def _mkeys(it, a, f):
    return It(tuple(it.ref(k) for n, k, c in order(hm(it, a[0])[1])))
@mm('values values_mut')
def _mvals(it, a, f):
    return It(tuple(R(c) for n, k, c in order(hm(it, a[0])[1])))
@mm('into_values')
def _mivals(it, a, f):
    return It(tuple(it.load(R(c)) for n, k, c in order(a[0])))
@mm('into_keys')
def _mikeys(it, a, f):
    return It(tuple(k for n, k, c in order(a[0])))
@mm('first_key_value last_key_value')
def _mfirst(it, a, f):
    m = hm(it, a[0])[1]
    if not m.kv:
        return it.none()
    n, k, c = m.kv[0 if 'first' in last_name(f) else -1]
    return it.some(tup(it.ref(k), R(c)))
@mm('pop_first pop_last')
def _mpop(it, a, f):
    m = hm(it, a[0])[1]
    if not m.kv:
        return it.none()
    n, k, c = m.kv[0 if 'first' in last_name(f) else -1]
    v = it.load(R(c))
    hdel(it, a[0], n)
    return it.some(tup(k, v))
def hiter(m, it, v):
    if isinstance(v, R):
        return _siter(it, [v], None) if m.isset else _miter(it, [v], None)
    return It(tuple(k if m.isset else tup(k, it.load(R(c))) for n, k, c in order(m)))
HMap.iter = hiter
def hindex(m, it, r, k):
    x = hget(it, r, k)
    if not x:
        raise Diverge('missing map key')
    return R(x[1])
HMap.index = hindex
class MEntry(Dom):
    __slots__ = ('r', 'k')
    def __init__(self, r, k):
        self.r, self.k = r, k
    def __eq__(self, o):
        return isinstance(o, MEntry) and (self.r, self.k) == (o.r, o.k)
    def __hash__(self):
        return 1
@mm('entry')
def _mentry(it, a, f):
    return MEntry(hm(it, a[0])[0], a[1])
@model('Entry::or_insert', 'Entry::or_insert_with')
def _orins(it, a, f):
    e = a[0]
    if not isinstance(e, MEntry):
        return NotImplemented
    if not hget(it, e.r, e.k):
        hput(it, e.r, e.k, it.call_value(R(fcell(it, a[1])), []) if last_name(f).endswith('with') else a[1])
    return R(hget(it, e.r, e.k)[1])
@model('Entry::and_modify')
def _andmod(it, a, f):
    e = a[0]
    x = hget(it, e.r, e.k)
    if x:
        it.call_value(R(fcell(it, a[1])), [R(x[1])])
    return e
_oldindex = DMODELS['Index::index']
@dmodel('Index::index', 'IndexMut::index_mut')
def _index(it, a, f):
    d = dr(it, a[0])
    if isinstance(d, HMap):
        return hindex(d, it, a[0], a[1])
    return _oldindex(it, a, f)
_oldclone = DMODELS['Clone::clone']
@dmodel('Clone::clone')
def _clone(it, a, f):
    v = it.load(a[0]) if isinstance(a[0], R) else a[0]
    if isinstance(v, HMap):
        return HMap(tuple((n, k, it.cell(it.load(R(c)))) for n, k, c in v.kv), v.isset, v.ordered)
    if isinstance(v, It) and v.inf is not None and isgen(v):
        raise Unsupported('clone of an iterator with state')
    return _oldclone(it, a, f)

_oldcollect = DMODELS['Iterator::collect']
@dmodel('Iterator::collect', 'FromIterator::from_iter', 'Itertools::collect_vec')
def _collect(it, a, f):
    tgt = None
    if not f['d'].endswith('collect_vec'):
        tids = [x for x in f['a'] if not isinstance(x, dict)]
        tgt = it.T[tids[0 if f['d'].endswith('from_iter') else -1]]
        nm = tgt['n'].split('::')[-1] if tgt['k'] == 'adt' else tgt['k']
        if nm in MAPS or nm in SETS:
            r = it.ref(HMap((), nm in SETS, nm.startswith('BTree')))
            for x in drain(it, a[0]):
                if nm in SETS:
                    hget(it, r, x) or hput(it, r, x, UNIT)
                else:
                    hput(it, r, x.f[0], x.f[1])
            return it.load(r)
    i = toit(it, a[0])
    if isinstance(i, It) and i.inf is not None and i.inf[0] == 'gen':
        i = It(tuple(drain(it, i)))
    return _oldcollect(it, [i] + list(a[1:]), f)

# ---- shared ownership and interior mutability -----------------------------------------------
@model('Rc::new', 'Arc::new')
def _rcnew(it, a, f):
    return it.ref(a[0])
@model('Rc::clone', 'Arc::clone', '<Rc<T, A> as Clone>::clone', '<Arc<T, A> as Clone>::clone')
def _rcclone(it, a, f):
    return it.load(a[0])
@model('Rc::ptr_eq', 'Arc::ptr_eq')
def _ptreq(it, a, f):
    x, y = it.load(a[0]), it.load(a[1])
    return int((x.cell, x.path) == (y.cell, y.path))
@model('RefCell::new', 'Cell::new', 'Mutex::new', 'RwLock::new', 'UnsafeCell::new')
def _cellnew(it, a, f):
    return S('cell', (a[0],))
def inner(it, r):
    v = it.load(r)
    while isinstance(v, R):
        r, v = v, it.load(v)
    if not (isinstance(v, S) and v.t == 'cell'):
        raise Unsupported('a cell of an unknown form')
    return R(r.cell, r.path + (('f', 0),))
@model('RefCell::borrow', 'RefCell::borrow_mut', 'RefCell::get_mut', 'Cell::get_mut', 'Cell::as_ptr', 'Mutex::get_mut')
def _cborrow(it, a, f):
    return inner(it, a[0])
@model('Mutex::lock', 'RwLock::read', 'RwLock::write', 'RefCell::try_borrow', 'RefCell::try_borrow_mut')
def _lock(it, a, f):
    return E('Result', ((0, 1, (inner(it, a[0]),)),))
@model('Cell::get')
def _cget(it, a, f):
    return it.load(inner(it, a[0]))
@model('Cell::set')
def _cset(it, a, f):
    it.store(inner(it, a[0]), a[1])
    return UNIT
@model('Cell::replace', 'RefCell::replace')
def _crep(it, a, f):
    r = inner(it, a[0])
    x = it.load(r)
    it.store(r, a[1])
    return x
@model('RefCell::into_inner', 'Cell::into_inner')
def _cinto(it, a, f):
    return a[0].f[0] if isinstance(a[0], S) and a[0].t == 'cell' else NotImplemented
@model('Mutex::into_inner', 'RwLock::into_inner')
def _minto(it, a, f):
    return E('Result', ((0, 1, (a[0].f[0],)),))
@model('Rc::try_unwrap', 'Arc::try_unwrap')
def _rctry(it, a, f):
    raise Unsupported('Rc::try_unwrap')
@model('Rc::make_mut', 'Arc::make_mut')
def _rcmm(it, a, f):
    x = it.load(it.load(a[0]))
    n = it.ref(x)
    it.store(a[0], n)
    return n
@model('OnceCell::new', 'OnceLock::new')
def _once(it, a, f):
    return S('cell', (it.none(),))
@model('OnceCell::get_or_init', 'OnceLock::get_or_init')
def _goi(it, a, f):
    r = inner(it, a[0])
    if it.load(r).alts[0][0] == 0:
        it.store(r, it.some(it.call_value(R(fcell(it, a[1])), [])))
    o = it.load(r)
    if len(o.alts) != 1:
        raise Unsupported('OnceCell')
    return it.ref(o.alts[0][2][0])
@model('intrinsics::assert_inhabited', 'intrinsics::assert_zero_valid', 'intrinsics::assert_mem_uninitialized_valid')
def _inh(it, a, f):
    return UNIT

@dmodel('Borrow::borrow', 'AsRef::as_ref', 'BorrowMut::borrow_mut', 'AsMut::as_mut', 'Deref::deref', 'DerefMut::deref_mut')
def _deref(it, a, f):
    v = a[0]
    if isinstance(v, R) and v.rng is None:
        x = it.load(v)
        if isinstance(x, E) and (it.adtname(x.t) if isinstance(x.t, int) else x.t).split('::')[-1] == 'Cow' and len(x.alts) == 1:
            if x.alts[0][0] == 0:
                return x.alts[0][2][0]
            return it.ref(x.alts[0][2][0])
    return models._id(it, a, f)

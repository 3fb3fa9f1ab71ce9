"""Models of the standard library, subtle, and other externals that the analysed code calls."""
import poly, re
from poly import P, Unsupported
import absint
from absint import S, E, R, Str, It, Th, Dom, FnV, Poison, UNIT, tup, vec, arr, same, Diverge, short

MODELS = {}
DMODELS = {}
def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d
def dmodel(*names):
    def d(f):
        for n in names:
            DMODELS[n] = f
        return f
    return d

def dr(it, v):
    while isinstance(v, R):
        v = it.load(v)
    return v
def num(it, v):
    v = dr(it, v)
    if isinstance(v, (int, P)):
        return v
    if isinstance(v, Dom):
        return v
    raise Unsupported('number expected, got %r' % (type(v).__name__,))

# ---- integers -----------------------------------------------------------------
W = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64}
SW = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}
def _mk():
    for t, w in W.items():
        ty = {'k': 'uint', 'b': w}
        pre = '<impl %s>::' % t
        def wr(f, ty=ty):
            return lambda it, a, f_: it.wrap(f(a[0], a[1]), ty)
        MODELS[pre + 'wrapping_add'] = wr(poly.add)
        MODELS[pre + 'wrapping_sub'] = wr(poly.sub)
        MODELS[pre + 'wrapping_mul'] = wr(poly.mul)
        MODELS[pre + 'unchecked_add'] = wr(poly.add)
        MODELS[pre + 'unchecked_sub'] = wr(poly.sub)
        MODELS[pre + 'unchecked_mul'] = wr(poly.mul)
        MODELS[pre + 'wrapping_neg'] = lambda it, a, f, ty=ty: it.wrap(poly.neg(a[0]), ty)
        def ovf(op, ty=ty):
            def m(it, a, f):
                raw = {'Add': poly.add, 'Sub': poly.sub, 'Mul': poly.mul}[op](a[0], a[1])
                r = poly.mod2k(raw, ty['b'])
                if op == 'Sub':
                    o = poly.lt0(raw)
                elif op == 'Add':
                    o = poly.floordiv2k(raw, ty['b'])
                else:
                    o = poly.bnot(poly.eq0(poly.floordiv2k(raw, ty['b'])))
                return r, o
            return m
        for op, nm in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul')):
            MODELS[pre + 'overflowing_' + nm] = lambda it, a, f, m=ovf(op): tup(*m(it, a, f))
            def chk(it, a, f, m=ovf(op)):
                r, o = m(it, a, f)
                if isinstance(o, int):
                    return it.none() if o else it.some(r)
                return E('Option', ((0, o, ()), (1, poly.bnot(o), (r,))))
            MODELS[pre + 'checked_' + nm] = chk
            def sat(it, a, f, m=ovf(op), op=op, w=w):
                r, o = m(it, a, f)
                return poly.select(o, 0 if op == 'Sub' else (1 << w) - 1, r)
            MODELS[pre + 'saturating_' + nm] = sat
        def to_le(it, a, f, w=w):
            x = num(it, a[0])
            if isinstance(x, Dom):
                return x.to_bytes(it, w, 'le')
            return arr([poly.mod2k(poly.floordiv2k(x, 8 * i), 8) for i in range(w // 8)])
        MODELS[pre + 'to_le_bytes'] = to_le
        MODELS[pre + 'to_ne_bytes'] = to_le
        def to_be(it, a, f, w=w, to_le=to_le):
            r = to_le(it, a, f)
            return S(r.t, tuple(reversed(r.f))) if isinstance(r, S) else r
        MODELS[pre + 'to_be_bytes'] = to_be
        def from_le(it, a, f, w=w):
            x = dr(it, a[0])
            return frombytes(it, list(x.f), w)
        MODELS[pre + 'from_le_bytes'] = from_le
        MODELS[pre + 'from_ne_bytes'] = from_le
        def from_be(it, a, f, w=w):
            x = dr(it, a[0])
            return frombytes(it, list(reversed(x.f)), w)
        MODELS[pre + 'from_be_bytes'] = from_be
        def swap(it, a, f, w=w):
            b = [poly.mod2k(poly.floordiv2k(a[0], 8 * i), 8) for i in range(w // 8)]
            return frombytes(it, list(reversed(b)), w)
        MODELS[pre + 'swap_bytes'] = swap
        def lz(it, a, f, w=w):
            if isinstance(a[0], int):
                return w - a[0].bit_length()
            raise Unsupported('leading_zeros of unknown')
        MODELS[pre + 'leading_zeros'] = lz
        def tz(it, a, f, w=w):
            if isinstance(a[0], int):
                return w if a[0] == 0 else (a[0] & -a[0]).bit_length() - 1
            raise Unsupported('trailing_zeros of unknown')
        MODELS[pre + 'trailing_zeros'] = tz
        MODELS[pre + 'count_ones'] = lambda it, a, f: bin(conc(a[0])).count('1')
        MODELS[pre + 'is_power_of_two'] = lambda it, a, f: int(conc(a[0]) > 0 and conc(a[0]) & (conc(a[0]) - 1) == 0)
        def npot(it, a, f, w=w):
            x = conc(a[0])
            r = 1 if x <= 1 else 1 << (x - 1).bit_length()
            return r & ((1 << w) - 1)
        MODELS[pre + 'next_power_of_two'] = npot
        def powm(it, a, f, ty=ty):
            r = 1
            for _ in range(conc(a[1])):
                r = it.wrap(poly.mul(r, a[0]), ty)
            return r
        MODELS[pre + 'pow'] = powm
        MODELS[pre + 'wrapping_pow'] = powm
        def ilog2(it, a, f):
            if conc(a[0]) <= 0:
                raise Diverge('ilog2(0)')
            return conc(a[0]).bit_length() - 1
        MODELS[pre + 'ilog2'] = ilog2
        MODELS[pre + 'rotate_left'] = lambda it, a, f, w=w: rot(a[0], conc(a[1]), w)
        MODELS[pre + 'rotate_right'] = lambda it, a, f, w=w: rot(a[0], w - conc(a[1]), w)
        MODELS[pre + 'wrapping_shl'] = lambda it, a, f, ty=ty: it.wrap(poly.scale(a[0], 1 << (conc(a[1]) % ty['b'])), ty)
        MODELS[pre + 'wrapping_shr'] = lambda it, a, f, ty=ty: poly.floordiv2k(a[0], conc(a[1]) % ty['b'])
        def divceil(it, a, f):
            return -(-conc(a[0]) // conc(a[1]))
        MODELS[pre + 'div_ceil'] = divceil
        def rem(it, a, f):
            return conc(a[0]) % conc(a[1])
        MODELS[pre + 'is_multiple_of'] = lambda it, a, f: int(conc(a[0]) % conc(a[1]) == 0)
        def carrying_add(it, a, f, w=w):
            raw = poly.add(poly.add(a[0], a[1]), a[2])
            return tup(poly.mod2k(raw, w), poly.floordiv2k(raw, w))
        MODELS[pre + 'carrying_add'] = carrying_add
        MODELS[pre + 'abs_diff'] = lambda it, a, f: poly.select(poly.lt0(poly.sub(a[0], a[1])), poly.sub(a[1], a[0]), poly.sub(a[0], a[1]))
        MODELS['<%s as Ord>::max' % t] = lambda it, a, f: poly.select(poly.lt0(poly.sub(a[0], a[1])), a[1], a[0])
        MODELS['<%s as Ord>::min' % t] = lambda it, a, f: poly.select(poly.lt0(poly.sub(a[1], a[0])), a[1], a[0])
        MODELS['<impl Ord for %s>::cmp' % t] = lambda it, a, f: cmpm(it, num(it, a[0]), num(it, a[1]))
        for x in list(W) + ['bool', 'char']:
            MODELS['<impl From<%s> for %s>::from' % (x, t)] = lambda it, a, f: a[0]
            def tf(it, a, f, w=w):
                x = a[0]
                lo, hi = poly.rng(x)
                bad = poly.bnot(poly.eq0(poly.floordiv2k(x, w)))
                if isinstance(bad, int):
                    return E('Result', ((1, 1, (UNIT,)),)) if bad else E('Result', ((0, 1, (x,)),))
                return E('Result', ((0, poly.bnot(bad), (poly.setrange(x, 0, (1 << w) - 1),)), (1, bad, (UNIT,))))
            MODELS['<impl TryFrom<%s> for %s>::try_from' % (x, t)] = tf
        MODELS['<%s as ConditionallySelectable>::conditional_select' % t] = lambda it, a, f: poly.select(num(it, a[2]), num(it, a[1]), num(it, a[0]))
        MODELS['<%s as ConstantTimeEq>::ct_eq' % t] = lambda it, a, f: poly.eq0(poly.sub(num(it, a[0]), num(it, a[1])))
        MODELS['<%s as ConstantTimeLess>::ct_lt' % t] = lambda it, a, f: poly.lt0(poly.sub(num(it, a[0]), num(it, a[1])))
        MODELS['<%s as ConstantTimeGreater>::ct_gt' % t] = lambda it, a, f: poly.lt0(poly.sub(num(it, a[1]), num(it, a[0])))
        for op, nm in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul'), ('BitAnd', 'bitand'), ('BitOr', 'bitor'), ('BitXor', 'bitxor'), ('Shl', 'shl'), ('Shr', 'shr'), ('Div', 'div'), ('Rem', 'rem')):
            for form in ('<impl %s for %s>' % (op, t), '<impl %s<&%s> for %s>' % (op, t, t), '<impl %s<%s> for &%s>' % (op, t, t), '<impl %s<&%s> for &%s>' % (op, t, t), '<%s as %s>' % (t, op), '<&%s as %s>' % (t, op)):
                MODELS['%s::%s' % (form, nm)] = lambda it, a, f, op=op, ty=ty: binraw(it, op, num(it, a[0]), num(it, a[1]), ty)
            for form in ('<impl %sAssign for %s>' % (op, t), '<impl %sAssign<&%s> for %s>' % (op, t, t), '<%s as %sAssign>' % (t, op)):
                def oa(it, a, f, op=op, ty=ty):
                    it.store(a[0], binraw(it, op, num(it, a[0]), num(it, a[1]), ty))
                    return UNIT
                MODELS['%s::%s_assign' % (form, nm)] = oa
        MODELS['<%s as Default>::default' % t] = lambda it, a, f: 0
        MODELS['<%s as Sum>::sum' % t] = NOTIMPL
def NOTIMPL(it, a, f):
    return NotImplemented
def binraw(it, op, x, y, ty):
    it.T.append(ty)
    try:
        return it.binop(op, x, y, len(it.T) - 1)
    finally:
        it.T.pop()
def rot(x, k, w):
    k %= w
    if k == 0:
        return x
    return poly.add(poly.mod2k(poly.scale(x, 1 << k), w), poly.floordiv2k(x, w - k))
def conc(x):
    if isinstance(x, int):
        return x
    raise Unsupported('concrete value expected')
def frombytes(it, b, w):
    r = 0
    for i, x in enumerate(b):
        if isinstance(x, Dom):
            return x.from_bytes(it, b, w)
        r = poly.add(r, poly.scale(x, 1 << (8 * i)))
    # bytes of one value put together again
    if isinstance(r, P):
        r = poly.setrange(r, 0, (1 << w) - 1)
    return r
def cmpm(it, x, y):
    if isinstance(x, Dom):
        return x.cmp(it, y)
    lt = poly.lt0(poly.sub(x, y))
    eq = poly.eq0(poly.sub(x, y))
    gt = poly.bnot(poly.add(lt, eq))
    if isinstance(gt, P):
        gt = poly.setrange(gt, 0, 1)
    return E('Ordering', tuple((v, k, ()) for v, k in ((0, lt), (1, eq), (2, gt)) if not (isinstance(k, int) and k == 0)))
_mk()
for _t in list(W) + list(SW) + ['bool', 'char']:
    for _u in ('', '&'):
        MODELS['<impl PartialEq for %s>::eq' % _t] = lambda it, a, f: poly.eq0(poly.sub(num(it, a[0]), num(it, a[1])))
        MODELS['<impl PartialEq for %s>::ne' % _t] = lambda it, a, f: poly.bnot(poly.eq0(poly.sub(num(it, a[0]), num(it, a[1]))))
        MODELS['<impl PartialOrd for %s>::lt' % _t] = lambda it, a, f: poly.lt0(poly.sub(num(it, a[0]), num(it, a[1])))
        MODELS['<impl PartialOrd for %s>::gt' % _t] = lambda it, a, f: poly.lt0(poly.sub(num(it, a[1]), num(it, a[0])))
        MODELS['<impl PartialOrd for %s>::le' % _t] = lambda it, a, f: poly.bnot(poly.lt0(poly.sub(num(it, a[1]), num(it, a[0]))))
        MODELS['<impl PartialOrd for %s>::ge' % _t] = lambda it, a, f: poly.bnot(poly.lt0(poly.sub(num(it, a[0]), num(it, a[1]))))
    MODELS['<impl Clone for %s>::clone' % _t] = lambda it, a, f: dr(it, a[0])

@model('cmp::max', 'Ord::max')
def _max(it, a, f):
    return poly.select(poly.lt0(poly.sub(a[0], a[1])), a[1], a[0])
@model('cmp::min', 'Ord::min')
def _min(it, a, f):
    return poly.select(poly.lt0(poly.sub(a[1], a[0])), a[1], a[0])
@dmodel('Ord::max')
def _max2(it, a, f):
    if isinstance(a[0], (int, P)):
        return _max(it, a, f)
    return NotImplemented
@dmodel('Ord::min')
def _min2(it, a, f):
    if isinstance(a[0], (int, P)):
        return _min(it, a, f)
    return NotImplemented
@model('<impl f64>::sqrt')
def _fsqrt(it, a, f):
    if isinstance(a[0], float):
        return a[0] ** 0.5
    raise Unsupported('float')
@model('<impl f64>::log2')
def _flog2(it, a, f):
    import math
    if isinstance(a[0], float):
        return math.log2(a[0]) if a[0] > 0 else float('-inf')
    raise Unsupported('float')
@model('<impl f64>::floor')
def _ffl(it, a, f):
    import math
    return float(math.floor(a[0]))
@model('<impl f64>::ceil')
def _fce(it, a, f):
    import math
    return float(math.ceil(a[0]))

# ---- subtle -------------------------------------------------------------------
@model('<Choice as From<u8>>::from')
def _ch(it, a, f):
    return a[0]
@model('Choice::unwrap_u8', '<impl From<Choice> for bool>::from', '<bool as From<Choice>>::from')
def _chu(it, a, f):
    return num(it, a[0])
@model('<Choice as BitAnd>::bitand')
def _cha(it, a, f):
    return poly.band(a[0], a[1])
@model('<Choice as BitOr>::bitor')
def _cho(it, a, f):
    return poly.bor(a[0], a[1])
@model('<Choice as BitXor>::bitxor')
def _chx(it, a, f):
    return poly.bxor(a[0], a[1])
@model('<Choice as Not>::not')
def _chn(it, a, f):
    return poly.bnot(a[0])
@model('<Choice as BitAndAssign>::bitand_assign')
def _chaa(it, a, f):
    it.store(a[0], poly.band(it.load(a[0]), a[1]))
    return UNIT
@model('<Choice as BitOrAssign>::bitor_assign')
def _choa(it, a, f):
    it.store(a[0], poly.bor(it.load(a[0]), a[1]))
    return UNIT
@model('<Choice as ConstantTimeEq>::ct_eq')
def _checq(it, a, f):
    return poly.bnot(poly.bxor(num(it, a[0]), num(it, a[1])))
@model('<Choice as ConditionallySelectable>::conditional_select')
def _chcs(it, a, f):
    return poly.select(num(it, a[2]), num(it, a[1]), num(it, a[0]))
@model('<[T] as ConstantTimeEq>::ct_eq')
def _slcteq(it, a, f):
    return eqv(it, a[0], a[1])
@model('CtOption::new')
def _cto(it, a, f):
    return S('ctopt', (a[0], a[1]))
@model('CtOption::is_some')
def _ctis(it, a, f):
    return dr(it, a[0]).f[1]
@model('CtOption::is_none')
def _ctin(it, a, f):
    return poly.bnot(dr(it, a[0]).f[1])
@model('CtOption::unwrap', 'CtOption::expect')
def _ctun(it, a, f):
    it.assume(a[0].f[1], 'CtOption::unwrap')
    return a[0].f[0]
@model('CtOption::unwrap_or')
def _ctuo(it, a, f):
    return it.select(a[0].f[1], a[0].f[0], a[1])
@model('CtOption::unwrap_or_else')
def _ctuoe(it, a, f):
    return it.select(a[0].f[1], a[0].f[0], it.call_value(a[1], []))
@model('CtOption::map')
def _ctmap(it, a, f):
    return S('ctopt', (it.call_value(a[1], [a[0].f[0]]), a[0].f[1]))
@model('CtOption::and_then')
def _ctat(it, a, f):
    r = it.call_value(a[1], [a[0].f[0]])
    return S('ctopt', (r.f[0], poly.band(r.f[1], a[0].f[1])))
@model('CtOption::or_else')
def _ctoe(it, a, f):
    r = it.call_value(a[1], [])
    s = a[0].f[1]
    return S('ctopt', (it.select(s, a[0].f[0], r.f[0]), poly.bor(s, r.f[1])))
@model('<impl From<CtOption<T>> for Option<T>>::from', '<Option<T> as From<CtOption<T>>>::from')
def _ctfrom(it, a, f):
    v, s = a[0].f
    return E('Option', tuple(x for x in ((0, poly.bnot(s), ()), (1, s, (v,))) if not (isinstance(x[1], int) and x[1] == 0)))
@dmodel('ConditionallySelectable::conditional_assign')
def _cassign(it, a, f):
    t = it.T[f['a'][0]]
    # through the type's own conditional_select
    cur = it.load(a[0])
    r = cond_select(it, a[0], a[1], a[2], f)
    it.store(a[0], r)
    return UNIT
def cond_select(it, ra, rb, c, f):
    """a conditional_select b, using the repo's own implementation for the type when there is one."""
    tn = it.T[f['a'][0]].get('s', '')
    for k, b in it.p.raw.items():
        if b['d'].endswith('ConditionallySelectable>::conditional_select') and '/repo/' in b['file'] and b['d'].startswith('<' + tn + ' as'):
            return it.run_body(it.p.body(k), [ra, rb, c])
        if b['n'].endswith('ConditionallySelectable>::conditional_select') and '/repo/' in b['file'] and b['n'].startswith('<' + tn + ' as'):
            return it.run_body(it.p.body(k), [ra, rb, c])
    return it.select(num(it, c), dr(it, rb), dr(it, ra))
@dmodel('ConditionallySelectable::conditional_select')
def _cs(it, a, f):
    return it.select(num(it, a[2]), dr(it, a[1]), dr(it, a[0]))
@dmodel('ConditionallySelectable::conditional_swap')
def _csw(it, a, f):
    c = num(it, a[2])
    x, y = it.load(a[0]), it.load(a[1])
    it.store(a[0], it.select(c, y, x))
    it.store(a[1], it.select(c, x, y))
    return UNIT
@dmodel('ConstantTimeEq::ct_ne')
def _ctne(it, a, f):
    return poly.bnot(eqv(it, a[0], a[1]))
@dmodel('ConditionallyNegatable::conditional_negate')
def _cneg(it, a, f):
    return NotImplemented

# ---- equality on structural values -----------------------------------------------
def eqv(it, a, b):
    """0/1 value of structural equality (only for values without a user-defined PartialEq)."""
    a, b = dr(it, a), dr(it, b)
    if isinstance(a, (int, P)) and isinstance(b, (int, P)):
        return poly.eq0(poly.sub(a, b))
    if isinstance(a, Str) and isinstance(b, Str):
        return int(a.s == b.s)
    if isinstance(a, Dom) or isinstance(b, Dom):
        d, o = (a, b) if isinstance(a, Dom) else (b, a)
        return d.eq(it, o)
    if isinstance(a, S) and isinstance(b, S):
        if len(a.f) != len(b.f):
            return 0
        r = 1
        for x, y in zip(a.f, b.f):
            r = poly.band(r, eqv(it, x, y))
            if isinstance(r, int) and r == 0:
                return 0
        return r
    if isinstance(a, E) and isinstance(b, E):
        r = 0
        for v, c, fs in a.alts:
            for w, d, gs in b.alts:
                if v == w:
                    t = poly.band(c, d)
                    for x, y in zip(fs, gs):
                        t = poly.band(t, eqv(it, x, y))
                    r = poly.add(r, t)
        return poly.setrange(r, 0, 1) if isinstance(r, P) else r
    raise Unsupported('equality of %s and %s' % (type(a).__name__, type(b).__name__))
def elem_eq(it, f, x, y):
    """x == y using the element type's PartialEq implementation in the repo when it has one."""
    return eqv(it, x, y)
EQELEM = [None]
@dmodel('PartialEq::eq')
def _peq(it, a, f):
    return user_eq(it, a[0], a[1], f)
@dmodel('PartialEq::ne')
def _pne(it, a, f):
    return poly.bnot(user_eq(it, a[0], a[1], f))
def user_eq(it, x, y, f):
    """Structural equality, going through the repo's own PartialEq where the values are of a repo type."""
    x, y = dr(it, x), dr(it, y)
    if isinstance(x, S) and isinstance(y, S):
        if isinstance(x.t, int) and it.T[x.t]['k'] == 'adt':
            k = find_impl(it, x.t, 'PartialEq>::eq')
            if k:
                return it.run_body(it.p.body(k), [it.ref(x), it.ref(y)])
        if len(x.f) != len(y.f):
            return 0
        r = 1
        for p, q in zip(x.f, y.f):
            r = poly.band(r, user_eq(it, p, q, f))
        return r
    if isinstance(x, E) and isinstance(y, E) and isinstance(x.t, int):
        k = find_impl(it, x.t, 'PartialEq>::eq')
        if k:
            return it.run_body(it.p.body(k), [it.ref(x), it.ref(y)])
    return eqv(it, x, y)
def find_impl(it, t, tail):
    tn = it.T[t].get('s', '')
    cache = it.p.__dict__.setdefault('_impl', {})
    key = (tn, tail)
    if key not in cache:
        cache[key] = None
        for k, b in it.p.raw.items():
            if '/repo/' in b['file'] and b['n'].endswith(tail) and b['n'].startswith('<' + tn + ' as'):
                cache[key] = k
    return cache[key]

# ---- references, boxes, conversions -------------------------------------------------
@dmodel('Clone::clone')
def _clone(it, a, f):
    v = a[0]
    if isinstance(v, R):
        v = it.load(v)
    return v
@dmodel('Borrow::borrow', 'AsRef::as_ref', 'BorrowMut::borrow_mut', 'AsMut::as_mut', 'Deref::deref', 'DerefMut::deref_mut')
def _id(it, a, f):
    v = a[0]
    if isinstance(v, R) and v.rng is None:
        x = it.load(v)
        if isinstance(x, S) and x.t in ('vec', 'arr'):
            return R(v.cell, v.path, (0, len(x.f)))
        if isinstance(x, R):
            return _id(it, [x], f)
        if isinstance(x, Str):
            return x
        if isinstance(x, S) and x.t == 'zeroizing':
            return R(v.cell, v.path + (('f', 0),))
        if isinstance(x, Dom) and hasattr(x, 'sliceref'):
            return x.sliceref(it, v)
    return v
@model('Zeroizing::new')
def _zn(it, a, f):
    return S('zeroizing', (a[0],))
@model('Vec::as_slice', 'Vec::as_mut_slice', '<impl [T; N]>::as_slice', '<impl [T; N]>::as_mut_slice', 'Vec::leak')
def _asl(it, a, f):
    return _id(it, a, f)
@model('<T as From<T>>::from', 'hint::must_use', 'hint::black_box', 'convert::identity', 'mem::ManuallyDrop::new')
def _same(it, a, f):
    return a[0]
@model('<T as Into<U>>::into')
def _into(it, a, f):
    return NotImplemented
@model('mem::swap')
def _mswap(it, a, f):
    x, y = it.load(a[0]), it.load(a[1])
    it.store(a[0], y)
    it.store(a[1], x)
    return UNIT
@model('mem::replace')
def _mrep(it, a, f):
    x = it.load(a[0])
    it.store(a[0], a[1])
    return x
@model('mem::take')
def _mtake(it, a, f):
    x = it.load(a[0])
    if isinstance(x, S) and x.t == 'vec':
        it.store(a[0], vec([]))
        return x
    return NotImplemented
@model('mem::drop', 'mem::forget')
def _mdrop(it, a, f):
    return UNIT
@model('Box::new')
def _bnew(it, a, f):
    return S('box', (a[0],))
@model('Box::new_uninit')
def _bnu(it, a, f):
    c = it.cell(Poison('uninitialised box'))
    return BoxU(c)
class BoxU(Dom):
    """an uninitialised box: its (raw pointer) fields lead to the cell"""
    def __init__(self, c):
        self.c = c
    def getfield(self, it, i):
        return self
    def asref(self, it):
        return R(self.c)
    def cast(self, it, k, f, t):
        return R(self.c)
    def __eq__(self, o):
        return isinstance(o, BoxU) and o.c == self.c
    def __hash__(self):
        return hash(self.c)
    def merge(self, it, c, o):
        return Poison('box join')
@model('boxed::box_assume_init_into_vec_unsafe')
def _baiv(it, a, f):
    v = it.mem[a[0].c]
    # MaybeUninit / ManuallyDrop wrappers
    while isinstance(v, S) and v.t in ('part', 'union') or (isinstance(v, S) and isinstance(v.t, int) and it.T[v.t].get('n', '').split('::')[-1] in ('MaybeUninit', 'ManuallyDrop', 'MaybeDangling')):
        v = [x for x in v.f if not isinstance(x, Poison)][0]
    return S('vec', v.f)
@model('<impl [T]>::into_vec')
def _intov(it, a, f):
    v = a[0]
    if isinstance(v, S) and v.t == 'box':
        return vec(v.f[0].f)
    if isinstance(v, BoxU):
        return _baiv(it, a, f)
    return NotImplemented

@model('<impl TryFrom<&[T]> for [T; N]>::try_from', '<impl TryFrom<&[T]> for &[T; N]>::try_from', '<impl TryFrom<Vec<T, A>> for [T; N]>::try_from', '<[T; N] as TryFrom<Vec<T>>>::try_from')
def _tf(it, a, f):
    v = a[0]
    n = None
    for x in f['a']:
        if isinstance(x, dict):
            n = x['c']
    xs = it.items(v)
    if n is None or n < 0:
        m = re.findall(r'\[[^\[\];]*; (\d+)\]', f['n'] or '')
        if not m:
            raise Unsupported('array length of ' + str(f['n']))
        n = int(m[-1])
    if len(xs) == n:
        if 'for &[T; N]' in (short(f['rd']) or ''):
            return E('Result', ((0, 1, (R(v.cell, v.path, v.rng),)),))
        return E('Result', ((0, 1, (arr(xs),)),))
    return E('Result', ((1, 1, (UNIT,)),))

# ---- vectors and slices --------------------------------------------------------------
@model('Vec::new', 'Vec::with_capacity', '<Vec<T> as Default>::default', 'Vec::new_in')
def _vnew(it, a, f):
    return vec([])
@model('Vec::len', '<impl [T]>::len', '<impl str>::len', 'String::len')
def _len(it, a, f):
    return it.length(a[0])
@model('Vec::is_empty', '<impl [T]>::is_empty')
def _ise(it, a, f):
    n = it.length(a[0])
    return int(n == 0) if isinstance(n, int) else poly.eq0(n)
@model('Vec::push')
def _push(it, a, f):
    v = it.load(a[0])
    if isinstance(v, Dom):
        return v.push(it, a[0], a[1])
    it.store(a[0], S('vec', v.f + (a[1],)))
    return UNIT
@model('Vec::pop')
def _pop(it, a, f):
    v = it.load(a[0])
    if not v.f:
        return it.none()
    it.store(a[0], S('vec', v.f[:-1]))
    return it.some(v.f[-1])
@model('Vec::insert')
def _vins(it, a, f):
    v = it.load(a[0])
    i = conc(a[1])
    if i > len(v.f):
        raise Diverge('insert')
    it.store(a[0], S('vec', v.f[:i] + (a[2],) + v.f[i:]))
    return UNIT
@model('Vec::remove')
def _vrem(it, a, f):
    v = it.load(a[0])
    i = conc(a[1])
    if i >= len(v.f):
        raise Diverge('remove')
    it.store(a[0], S('vec', v.f[:i] + v.f[i + 1:]))
    return v.f[i]
@model('Vec::truncate')
def _vtr(it, a, f):
    v = it.load(a[0])
    it.store(a[0], S('vec', v.f[:conc(a[1])]))
    return UNIT
@model('Vec::clear')
def _vcl(it, a, f):
    it.store(a[0], vec([]))
    return UNIT
@model('Vec::resize')
def _vrs(it, a, f):
    v = it.load(a[0])
    n = conc(a[1])
    it.store(a[0], S('vec', v.f[:n] + (a[2],) * max(0, n - len(v.f))))
    return UNIT
@model('Vec::append')
def _vapp(it, a, f):
    v, w = it.load(a[0]), it.load(a[1])
    it.store(a[0], S('vec', v.f + w.f))
    it.store(a[1], vec([]))
    return UNIT
@model('Vec::split_off')
def _vso(it, a, f):
    v = it.load(a[0])
    i = conc(a[1])
    it.store(a[0], S('vec', v.f[:i]))
    return S('vec', v.f[i:])
@model('Vec::extend_from_slice', '<Vec<T, A> as Extend<&T>>::extend', '<Vec<T, A> as Extend<T>>::extend', 'Vec::extend_trusted', 'Vec::extend_desugared')
def _vext(it, a, f):
    xs = []
    for x in it.drain(it.to_iter(a[1]) if not isinstance(a[1], R) or True else a[1]):
        if isinstance(x, R) and ('&T' in short(f['rd'] or '') or 'extend_from_slice' in (f['rd'] or f['d'])):
            x = it.load(x)
        xs.append(x)
    v = it.load(a[0])
    if isinstance(v, Dom):
        return v.extend(it, a[0], xs)
    it.store(a[0], S('vec', v.f + tuple(xs)))
    return UNIT
@model('<impl [T]>::to_vec', '<impl ToOwned for [T]>::to_owned', '<Vec<T, A> as Clone>::clone', '<Vec<T> as From<&[T]>>::from', '<Vec<T> as From<[T; N]>>::from', '<[T]>::to_vec', '<Vec<T> as From<&mut [T]>>::from', '<Vec<T> as From<&[T; N]>>::from')
def _tovec(it, a, f):
    v = dr(it, a[0])
    if isinstance(v, Dom):
        return v
    return vec(it.items(a[0]))
@model('vec::from_elem')
def _fe(it, a, f):
    n = a[1]
    if not isinstance(n, int):
        raise Unsupported('vector of unknown length')
    return vec((a[0],) * n)
@model('<impl [T]>::iter', '<impl [T]>::iter_mut')
def _iter(it, a, f):
    return it.to_iter(a[0])
@model('<impl [T]>::reverse')
def _rev(it, a, f):
    xs = it.items(a[0])
    put(it, a[0], tuple(reversed(xs)))
    return UNIT
def put(it, r, xs):
    if r.rng is None:
        v = it.load(r)
        if isinstance(v, R):
            return put(it, v, xs)
        it.store(r, S(v.t, tuple(xs)))
    else:
        it.store(r, S('arr', tuple(xs)))
@model('<impl [T]>::split_at', '<impl [T]>::split_at_mut')
def _split(it, a, f):
    n = it.length(a[0])
    m = conc(a[1])
    if m > n:
        raise Diverge('split_at')
    return tup(it.subslice(a[0], 0, m), it.subslice(a[0], m, n))
@model('<impl [T]>::copy_from_slice', '<impl [T]>::clone_from_slice')
def _cfs(it, a, f):
    xs, ys = it.items(a[0]), it.items(a[1])
    if len(xs) != len(ys):
        raise Diverge('copy_from_slice')
    put(it, a[0], ys)
    return UNIT
@model('<impl [T]>::fill')
def _fill(it, a, f):
    put(it, a[0], (a[1],) * it.length(a[0]))
    return UNIT
@model('<impl [T]>::swap')
def _sswap(it, a, f):
    xs = list(it.items(a[0]))
    i, j = conc(a[1]), conc(a[2])
    if max(i, j) >= len(xs):
        raise Diverge('swap')
    xs[i], xs[j] = xs[j], xs[i]
    put(it, a[0], tuple(xs))
    return UNIT
@model('<impl [T]>::concat')
def _concat(it, a, f):
    out = []
    for x in it.items(a[0]):
        out.extend(it.items(x))
    return vec(out)
@model('<impl [T]>::first')
def _first(it, a, f):
    return it.some(it.subref(a[0], 0)) if it.length(a[0]) else it.none()
@model('<impl [T]>::last', '<impl [T]>::last_mut')
def _last(it, a, f):
    n = it.length(a[0])
    return it.some(it.subref(a[0], n - 1)) if n else it.none()
@model('<impl [T]>::first_mut')
def _first_m(it, a, f):
    return _first(it, a, f)
@model('<impl [T]>::split_first')
def _spf(it, a, f):
    n = it.length(a[0])
    return it.some(tup(it.subref(a[0], 0), it.subslice(a[0], 1, n))) if n else it.none()
@model('<impl [T]>::split_last')
def _spl(it, a, f):
    n = it.length(a[0])
    return it.some(tup(it.subref(a[0], n - 1), it.subslice(a[0], 0, n - 1))) if n else it.none()
@model('<impl [T]>::get', '<impl [T]>::get_mut')
def _get(it, a, f):
    n = it.length(a[0])
    i = a[1]
    if isinstance(i, int):
        return it.some(it.subref(a[0], i)) if 0 <= i < n else it.none()
    if isinstance(i, S):
        lo, hi = rangeof(it, i, n)
        return it.some(it.subslice(a[0], lo, hi)) if 0 <= lo <= hi <= n else it.none()
    raise Unsupported('get with unknown index')
@model('<impl [T]>::get_unchecked', '<impl [T]>::get_unchecked_mut')
def _getu(it, a, f):
    return it.subref(a[0], conc(a[1]))
@model('<impl [T]>::contains')
def _cont(it, a, f):
    r = 0
    for x in it.items(a[0]):
        r = poly.bor(r, user_eq(it, x, a[1], f))
    return r
@model('<impl [T]>::chunks', '<impl [T]>::chunks_mut')
def _chunks(it, a, f):
    n, k = it.length(a[0]), conc(a[1])
    return It(tuple(it.subslice(a[0], i, min(n, i + k)) for i in range(0, n, k)))
@model('<impl [T]>::chunks_exact', '<impl [T]>::chunks_exact_mut')
def _chunkse(it, a, f):
    n, k = it.length(a[0]), conc(a[1])
    return It(tuple(it.subslice(a[0], i, i + k) for i in range(0, n - k + 1, k)))
@model('<impl [T]>::windows')
def _wins(it, a, f):
    n, k = it.length(a[0]), conc(a[1])
    return It(tuple(it.subslice(a[0], i, i + k) for i in range(0, n - k + 1)))
def rangeof(it, i, n):
    nm = it.adtname(i.t)
    if nm == 'Range':
        return conc(i.f[0]), conc(i.f[1])
    if nm == 'RangeTo':
        return 0, conc(i.f[0])
    if nm == 'RangeFrom':
        return conc(i.f[0]), n
    if nm == 'RangeFull':
        return 0, n
    if nm == 'RangeInclusive':
        return conc(i.f[0]), conc(i.f[1]) + 1
    if nm == 'RangeToInclusive':
        return 0, conc(i.f[0]) + 1
    raise Unsupported('range ' + nm)
@dmodel('Index::index', 'IndexMut::index_mut')
def _index(it, a, f):
    i = a[1]
    if isinstance(i, R):
        return NotImplemented
    d = dr(it, a[0])
    if isinstance(d, Dom):
        return d.index(it, a[0], i)
    if isinstance(i, int):
        return it.subref(a[0], i)
    if isinstance(i, P):
        return it.symindex(a[0] if isinstance(a[0], S) else it.load(a[0]) , i)
    n = it.length(a[0])
    lo, hi = rangeof(it, i, n)
    return it.subslice(a[0], lo, hi)

# ---- iterators -----------------------------------------------------------------------
@dmodel('IntoIterator::into_iter', 'Iterator::by_ref')
def _ii(it, a, f):
    return it.to_iter(a[0])
@dmodel('Iterator::next')
def _next(it, a, f):
    r = a[0]
    v = it.load(r)
    while isinstance(v, R):
        r, v = v, it.load(v)
    if isinstance(v, S) and isinstance(v.t, int):
        nm = it.adtname(v.t)
        if nm == 'Range':
            x, y = v.f
            if isinstance(x, int) and isinstance(y, int):
                if x < y:
                    it.store(r, S(v.t, (x + 1, y)))
                    return it.some(x)
                return it.none()
            raise Unsupported('range with unknown bounds')
        v = it.to_iter(v)
    if isinstance(v, Dom):
        return v.next(it, r)
    if not isinstance(v, It):
        raise Unsupported('next of %r' % (type(v).__name__,))
    if v.inf is not None and not v.items:
        if v.inf[0] == 'from':
            it.store(r, It((), ('from', v.inf[1] + 1)))
            return it.some(v.inf[1])
        if v.inf[0] == 'repeat':
            return it.some(v.inf[1])
    items = v.items
    while items:
        x, items = items[0], items[1:]
        it.store(r, It(items, v.inf))
        ok, val = it.force(x)
        if ok:
            return it.some(val)
    return it.none()
@dmodel('DoubleEndedIterator::next_back')
def _nextb(it, a, f):
    r = a[0]
    v = it.to_iter(it.load(r))
    items = v.items
    while items:
        x, items = items[-1], items[:-1]
        it.store(r, It(items))
        ok, val = it.force(x)
        if ok:
            return it.some(val)
    return it.none()
def fcell(it, f):
    if isinstance(f, R):
        return f.cell if not f.path else it.cell(f)
    return it.cell(f)
def mapit(it, i, fn, kind='map'):
    c = fcell(it, fn)
    if i.inf is not None:
        return It(tuple(Th(c, x, kind) for x in i.items), ('map', i.inf, c, kind))
    return It(tuple(Th(c, x, kind) for x in i.items))
@dmodel('Iterator::map')
def _map(it, a, f):
    i = it.to_iter(a[0])
    if isinstance(i, Dom):
        return i.map(it, a[1])
    if isinstance(i, R):
        i = take_ref(it, i)
    return mapit(it, i, a[1])
def take_ref(it, r):
    v = it.load(r)
    while isinstance(v, R):
        r, v = v, it.load(v)
    i = it.to_iter(v)
    it.store(r, It(()))
    return i
def toit(it, v):
    i = it.to_iter(v)
    if isinstance(i, R):
        i = take_ref(it, i)
    return i
@dmodel('Iterator::filter')
def _filter(it, a, f):
    return mapit(it, toit(it, a[0]), a[1], 'filter')
@dmodel('Iterator::filter_map')
def _filterm(it, a, f):
    return mapit(it, toit(it, a[0]), a[1], 'filter_map')
@dmodel('Iterator::cloned', 'Iterator::copied')
def _cloned(it, a, f):
    i = toit(it, a[0])
    return It(tuple(Th(None, x, 'clone') for x in i.items), i.inf)
@dmodel('Iterator::enumerate')
def _enum(it, a, f):
    i = toit(it, a[0])
    if isinstance(i, Dom):
        return i.enumerate(it)
    return It(tuple(Th(x, n, 'pair') for n, x in enumerate(i.items)))
def infitems(i, n):
    """first n items of a possibly infinite iterator"""
    out = list(i.items[:n])
    k = 0
    while len(out) < n and i.inf is not None:
        out.append(infitem(i.inf, k))
        k += 1
    return out
def infitem(inf, k):
    if inf[0] == 'from':
        return inf[1] + k
    if inf[0] == 'repeat':
        return inf[1]
    if inf[0] == 'map':
        return Th(inf[2], infitem(inf[1], k), inf[3])
    if inf[0] == 'step':
        return infitem(inf[1], k * inf[2])
    raise Unsupported('infinite iterator')
@dmodel('Iterator::zip')
@model('iter::zip')
def _zip(it, a, f):
    i, j = toit(it, a[0]), toit(it, a[1])
    if isinstance(i, Dom):
        return i.zip(it, j)
    if isinstance(j, Dom):
        return j.zip(it, i, True)
    big = 1 << 40
    n = min(big if i.inf else len(i.items), big if j.inf else len(j.items))
    if n == big:
        raise Unsupported('infinite zip')
    return It(tuple(Th(y, x, 'pair') for x, y in zip(infitems(i, n), infitems(j, n))))
@dmodel('Iterator::rev')
def _irev(it, a, f):
    i = toit(it, a[0])
    if i.inf:
        raise Unsupported('rev')
    return It(tuple(reversed(i.items)))
@dmodel('Iterator::chain')
def _chain(it, a, f):
    i, j = toit(it, a[0]), toit(it, a[1])
    return It(i.items + j.items, j.inf)
@dmodel('Iterator::take')
def _take(it, a, f):
    i = toit(it, a[0])
    return It(tuple(infitems(i, conc(a[1]))))
@dmodel('Iterator::skip')
def _skip(it, a, f):
    i = toit(it, a[0])
    return It(i.items[conc(a[1]):], i.inf)
@dmodel('Iterator::step_by')
def _stepby(it, a, f):
    i = toit(it, a[0])
    if conc(a[1]) == 0:
        raise Diverge('step_by(0)')
    return It(i.items[::a[1]], ('step', i.inf, a[1]) if i.inf else None)
@dmodel('Iterator::peekable', 'Iterator::fuse')
def _fuse(it, a, f):
    return toit(it, a[0])
@dmodel('Iterator::inspect')
def _insp(it, a, f):
    return toit(it, a[0])
@dmodel('Iterator::flat_map')
def _flatm(it, a, f):
    out = []
    c = R(fcell(it, a[1]))
    for x in it.drain(toit(it, a[0])):
        out.extend(toit(it, it.call_value(c, [x])).items)
    return It(tuple(out))
@dmodel('Iterator::flatten')
def _flat(it, a, f):
    out = []
    for x in it.drain(toit(it, a[0])):
        out.extend(toit(it, x).items)
    return It(tuple(out))
@model('iter::once')
def _once(it, a, f):
    return It((a[0],))
@model('iter::repeat')
def _repeat(it, a, f):
    return It((), ('repeat', a[0]))
@model('iter::repeat_n')
def _repeatn(it, a, f):
    return It((a[0],) * conc(a[1]))
@model('iter::empty')
def _empty(it, a, f):
    return It(())
@model('iter::successors')
def _succ(it, a, f):
    out = []
    c = R(fcell(it, a[1]))
    o = a[0]
    for _ in range(4096):
        if len(o.alts) != 1:
            raise Unsupported('successors')
        if o.alts[0][0] == 0:
            return It(tuple(out))
        out.append(o.alts[0][2][0])
        if len(out) > 64:
            return It(tuple(out))
        o = it.call_value(c, [it.ref(out[-1])])
    raise Unsupported('successors')
@dmodel('ExactSizeIterator::len', 'Iterator::count')
def _icount(it, a, f):
    i = toit(it, a[0])if not isinstance(a[0], R) else it.to_iter(it.load(a[0]))
    if any(isinstance(x, Th) and x.kind.startswith('filter') for x in i.items):
        return sum(1 for _ in it.drain(i))
    return len(i.items)
def is_result_of(it, t, name):
    return it.T[t]['k'] == 'adt' and it.T[t]['n'].split('::')[-1] == name
@dmodel('Iterator::collect', 'FromIterator::from_iter', 'Itertools::collect_vec')
def _collect(it, a, f):
    i = toit(it, a[0])
    if isinstance(i, Dom):
        return i.collect(it)
    # target type: last generic argument
    tgt = None
    for x in reversed(f['a']):
        if not isinstance(x, dict):
            tgt = it.T[x]
            break
    if f['d'].endswith('collect_vec'):
        return vec(it.drain(i))
    if f['d'].endswith('from_iter'):
        tgt = it.T[f['a'][0]]
    nm = tgt['n'].split('::')[-1] if tgt['k'] == 'adt' else tgt['k']
    if nm in ('Vec', 'VecDeque', 'slice'):
        return vec(it.drain(i))
    if nm == 'Box':
        return S('box', (vec(it.drain(i)),))
    if nm in ('Result', 'Option'):
        out = []
        good, bad = (0, 1) if nm == 'Result' else (1, 0)
        okc = 1
        err = None
        for x in it.drain(i):
            g = None
            for v, c, fs in x.alts:
                if v == good:
                    g = (c, fs[0])
                elif err is None:
                    err = fs
            if g is None:
                return E(nm, ((bad, okc, x.alts[0][2]),) ) if isinstance(okc, int) else E(nm, ((bad, 1, err),))
            okc = poly.band(okc, g[0])
            out.append(g[1])
        alts = [(good, okc, (vec(out),))]
        if not isinstance(okc, int):
            alts.append((bad, poly.bnot(okc), err or ()))
        return E(nm, tuple(sorted(alts, key=lambda t: t[0])))
    if nm == 'String':
        xs = list(it.drain(i))
        return Str(''.join(x.s if isinstance(x, Str) else chr(x) for x in xs))
    if nm == 'tuple':
        return NotImplemented
    raise Unsupported('collect into ' + tgt['s'])
@dmodel('Iterator::unzip')
def _unzip(it, a, f):
    xs = list(it.drain(toit(it, a[0])))
    return tup(vec(x.f[0] for x in xs), vec(x.f[1] for x in xs))
@dmodel('Iterator::for_each')
def _fore(it, a, f):
    c = R(fcell(it, a[1]))
    for x in it.drain(toit(it, a[0])):
        it.call_value(c, [x])
    return UNIT
@dmodel('Iterator::fold')
def _fold(it, a, f):
    c = R(fcell(it, a[2]))
    acc = a[1]
    for x in it.drain(toit(it, a[0])):
        acc = it.call_value(c, [acc, x])
    return acc
@dmodel('Iterator::reduce')
def _reduce(it, a, f):
    c = R(fcell(it, a[1]))
    acc = None
    for x in it.drain(toit(it, a[0])):
        acc = x if acc is None else it.call_value(c, [acc, x])
    return it.none() if acc is None else it.some(acc)
@dmodel('Iterator::try_fold', 'Iterator::try_for_each')
def _tryfold(it, a, f):
    raise Unsupported('try_fold')
@dmodel('Iterator::all')
def _all(it, a, f):
    c = R(fcell(it, a[1]))
    r = 1
    for x in it.drain(toit(it, a[0])):
        v = it.call_value(c, [x])
        r = poly.band(r, v)
        if isinstance(r, int) and r == 0:
            break
    return r
@dmodel('Iterator::any')
def _any(it, a, f):
    c = R(fcell(it, a[1]))
    r = 0
    for x in it.drain(toit(it, a[0])):
        v = it.call_value(c, [x])
        r = poly.bor(r, v)
        if isinstance(r, int) and r == 1:
            break
    return r
@dmodel('Iterator::eq')
def _ieq(it, a, f):
    xs, ys = list(it.drain(toit(it, a[0]))), list(it.drain(toit(it, a[1])))
    if len(xs) != len(ys):
        return 0
    r = 1
    for x, y in zip(xs, ys):
        r = poly.band(r, user_eq(it, x, y, f))
    return r
@dmodel('Iterator::position')
def _pos(it, a, f):
    c = R(fcell(it, a[1]))
    for n, x in enumerate(it.drain(toit(it, a[0]))):
        v = it.call_value(c, [x])
        if not isinstance(v, int):
            raise Unsupported('position on unknown data')
        if v:
            return it.some(n)
    return it.none()
@dmodel('Iterator::find')
def _find(it, a, f):
    c = R(fcell(it, a[1]))
    for x in it.drain(toit(it, a[0])):
        v = it.call_value(c, [it.ref(x)])
        if not isinstance(v, int):
            raise Unsupported('find on unknown data')
        if v:
            return it.some(x)
    return it.none()
@dmodel('Iterator::last')
def _ilast(it, a, f):
    r = None
    for x in it.drain(toit(it, a[0])):
        r = x
    return it.none() if r is None else it.some(r)
@dmodel('Iterator::nth')
def _nth(it, a, f):
    r = None
    for _ in range(conc(a[1]) + 1):
        r = _next(it, [a[0]], f)
    return r
@dmodel('Iterator::max', 'Iterator::min')
def _imax(it, a, f):
    acc = None
    ismax = short(f['d']).endswith('max')
    for x in it.drain(toit(it, a[0])):
        if acc is None:
            acc = x
        else:
            p, q = num(it, acc), num(it, x)
            if isinstance(p, int) and isinstance(q, int):
                acc = (x if q >= p else acc) if ismax else (x if q < p else acc)
            else:
                acc = _max(it, [p, q], f) if ismax else _min(it, [p, q], f)
    return it.none() if acc is None else it.some(acc)
@dmodel('Iterator::sum', 'Iterator::product')
def _sum(it, a, f):
    i = toit(it, a[0])
    if isinstance(i, Dom):
        return i.sumprod(it, short(f['d']))
    mul = short(f['d']).endswith('product')
    t = it.T[[x for x in f['a'] if not isinstance(x, dict)][-1]]
    if t['k'] in ('uint', 'int'):
        acc = 1 if mul else 0
        for x in it.drain(i):
            acc = it.wrap((poly.mul if mul else poly.add)(acc, num(it, x)), t)
        return acc
    # a repo type: through its own Sum / Product implementation
    tid = [x for x in f['a'] if not isinstance(x, dict)][-1]
    tn = it.T[tid]['s']
    tr = 'Product' if mul else 'Sum'
    xs = list(it.drain(i))
    isref = bool(xs) and isinstance(xs[0], R)
    o = it.overrides.get(('sum', tn, mul)) or it.overrides.get('iter_sum')
    if o:
        return o(it, xs, mul, t)
    for k, b in it.p.raw.items():
        if '/repo/' in b['file'] and (b['n'].startswith('<' + tn + ' as ') or b['n'].startswith('<' + str(t.get('n')) + ' as ')) and re.search(r'%s(<.*>)?>::%s(::<.*>)?$' % (tr, tr.lower()), b['n']):
            if isref == ('<&' in b['n'].split(' as ')[1] or "<&'" in b['n'].split(' as ')[1]):
                return it.run_body(it.p.body(k), [It(tuple(xs))])
    raise Unsupported('%s of %s' % (tr, tn))

# ---- Option / Result --------------------------------------------------------------------
def alt(v, k):
    for x in v.alts:
        if x[0] == k:
            return x
    return None
@model('Option::unwrap', 'Option::expect', 'Option::unwrap_unchecked')
def _ounwrap(it, a, f):
    v = a[0]
    x = alt(v, 1)
    if x is None:
        raise Diverge('Option::unwrap on None')
    it.assume(x[1], 'Option::unwrap')
    return x[2][0]
@model('Result::unwrap', 'Result::expect')
def _runwrap(it, a, f):
    v = a[0]
    if isinstance(v, Dom):
        return v.unwrap(it)
    x = alt(v, 0)
    if x is None:
        raise Diverge('Result::unwrap on Err')
    it.assume(x[1], 'Result::unwrap')
    return x[2][0]
@model('Option::is_some')
def _ois(it, a, f):
    x = alt(dr(it, a[0]), 1)
    return 0 if x is None else x[1]
@model('Option::is_none')
def _oin(it, a, f):
    x = alt(dr(it, a[0]), 0)
    return 0 if x is None else x[1]
@model('Result::is_ok')
def _rok(it, a, f):
    x = alt(dr(it, a[0]), 0)
    return 0 if x is None else x[1]
@model('Result::is_err')
def _rerr(it, a, f):
    x = alt(dr(it, a[0]), 1)
    return 0 if x is None else x[1]
@model('Option::unwrap_or')
def _ouo(it, a, f):
    x = alt(a[0], 1)
    return a[1] if x is None else it.select(x[1], x[2][0], a[1])
@model('Option::as_ref', 'Option::as_mut', 'Result::as_ref')
def _oar(it, a, f):
    v = it.load(a[0])
    return E(v.t, tuple((k, c, tuple(R(a[0].cell, a[0].path + (('d', k), ('f', i))) for i in range(len(fs)))) for k, c, fs in v.alts))
@model('Option::cloned', 'Option::copied')
def _ocl(it, a, f):
    return E(a[0].t, tuple((k, c, tuple(it.load(x) for x in fs)) for k, c, fs in a[0].alts))
@model('Option::take')
def _otake(it, a, f):
    v = it.load(a[0])
    it.store(a[0], it.none())
    return v
@model('Result::err')
def _rerrv(it, a, f):
    x = alt(a[0], 1)
    y = alt(a[0], 0)
    alts = []
    if y is not None:
        alts.append((0, y[1], ()))
    if x is not None:
        alts.append((1, x[1], x[2]))
    return E('Option', tuple(alts))
@model('Result::ok')
def _rokv(it, a, f):
    x = alt(a[0], 0)
    y = alt(a[0], 1)
    alts = []
    if y is not None:
        alts.append((0, y[1], ()))
    if x is not None:
        alts.append((1, x[1], x[2]))
    return E('Option', tuple(alts))
@model('Option::ok_or')
def _ook(it, a, f):
    alts = []
    x, y = alt(a[0], 1), alt(a[0], 0)
    if x is not None:
        alts.append((0, x[1], x[2]))
    if y is not None:
        alts.append((1, y[1], (a[1],)))
    return E('Result', tuple(alts))
@model('<Result<T, E> as Try>::branch')
def _rbranch(it, a, f):
    v = a[0]
    alts = []
    for k, c, fs in v.alts:
        if k == 0:
            alts.append((0, c, fs))
        else:
            alts.append((1, c, (E(v.t, ((1, 1, fs),)),)))
    return E('ControlFlow', tuple(alts))
@model('<Option<T> as Try>::branch')
def _obranch(it, a, f):
    v = a[0]
    alts = []
    for k, c, fs in sorted(v.alts, key=lambda t: -t[0]):
        if k == 1:
            alts.append((0, c, fs))
        else:
            alts.append((1, c, (E(v.t, ((0, 1, ()),)),)))
    return E('ControlFlow', tuple(alts))
@model('<Result<T, F> as FromResidual<Result<!, E>>>::from_residual', '<Option<T> as FromResidual<Option<!>>>::from_residual', '<Result<T, F> as FromResidual<Result<Infallible, E>>>::from_residual', '<Option<T> as FromResidual<Option<Infallible>>>::from_residual', '<Option<T> as FromResidual>::from_residual')
def _fres(it, a, f):
    return a[0]
@dmodel('ops::FnOnce::call_once', 'FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')
def _callfn(it, a, f):
    return it.call_value(a[0], list(a[1].f))
@model('RangeInclusive::new')
def _rinew(it, a, f):
    for x in range(len(it.T)):
        pass
    return It(tuple(range(conc(a[0]), conc(a[1]) + 1)))
@model('bool::then_some', '<impl bool>::then_some')
def _thensome(it, a, f):
    c = a[0]
    if isinstance(c, int):
        return it.some(a[1]) if c else it.none()
    return E('Option', ((0, poly.bnot(c), ()), (1, c, (a[1],))))

# ---- text (never part of a result that is checked) -------------------------------------------
@model('fmt::format', 'Arguments::new', 'Arguments::from_str', 'Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex', 'Arguments::new_const', 'Arguments::new_v1')
def _fmt(it, a, f):
    return Str('<text>')
@model('io::_print', 'stdio::_print', 'io::_eprint', 'stdio::_eprint')
def _print(it, a, f):
    return UNIT
@dmodel('ToString::to_string', 'ToOwned::to_owned')
def _tos(it, a, f):
    v = a[0]
    if isinstance(v, Str):
        return v
    v = dr(it, v)
    if isinstance(v, Str):
        return v
    if isinstance(v, int):
        return Str(str(v))
    if isinstance(v, S) and v.t in ('arr', 'vec'):
        return vec(v.f)
    return Str('<text>')
@model('<impl str>::as_bytes', 'String::as_bytes')
def _asb(it, a, f):
    v = dr(it, a[0])
    if v.s == '<text>':
        raise Unsupported('formatted text used as bytes')
    r = it.ref(arr(v.s.encode()))
    return R(r.cell, (), (0, len(v.s.encode())))
@model('panicking::panic', 'panicking::panic_fmt', 'rt::panic_fmt', 'panicking::assert_failed', 'panicking::unimplemented_default_msg', 'panicking::panic_explicit', 'panicking::panic_display')
def _panic(it, a, f):
    raise Diverge('panic')
@model('intrinsics::assume', 'hint::assert_unchecked', 'hint::unreachable_unchecked')
def _assume(it, a, f):
    return UNIT
@model('mem::size_of', 'intrinsics::size_of')
def _sizeof(it, a, f):
    def sz(t):
        t = it.T[t]
        if t['k'] in ('uint', 'int'):
            return t['b'] // 8
        if t['k'] == 'array':
            return sz(t['e']) * t['n']
        if t['k'] == 'adt':
            return sum(sz(x[1]) for x in t['v'][0]['f'])
        raise Unsupported('size_of')
    return sz(f['a'][0])

# ---- generic-array: a plain array --------------------------------------------------------
def typenum(s):
    m = re.search(r'UInt<[\w:<>, ]*UTerm[\w:<>, ]*>', s)
    if not m:
        return None
    return int(''.join(re.findall(r'B([01])\b', m.group(0))) or '0', 2)
def _ga_slice(it, a, f):
    n = typenum(f['n'] or '')
    if n is not None and it.length(a[0]) != n:
        raise Diverge('GenericArray::from_slice length')
    v = a[0]
    if isinstance(v, R) and v.rng is not None:
        return it.ref(arr(it.items(v)))
    return v
model('GenericArray::from_slice', 'GenericArray::clone_from_slice')(lambda it, a, f: _ga_slice(it, a, f) if 'clone' not in f['n'] else arr(it.items(a[0])))

for _w in (16, 32, 64, 128):
    for _o in ('LittleEndian', 'BigEndian'):
        def _rd(it, a, f, w=_w, o=_o):
            xs = list(it.items(a[0]))[:w // 8]
            if len(xs) < w // 8:
                raise Diverge('short buffer')
            return frombytes(it, xs if o == 'LittleEndian' else list(reversed(xs)), w)
        def _wr(it, a, f, w=_w, o=_o):
            xs = [poly.mod2k(poly.floordiv2k(a[1], 8 * i), 8) for i in range(w // 8)]
            xs = xs if o == 'LittleEndian' else list(reversed(xs))
            ys = list(it.items(a[0]))
            if len(ys) < len(xs):
                raise Diverge('short buffer')
            put(it, a[0], xs + ys[len(xs):])
            return UNIT
        MODELS['<%s as ByteOrder>::read_u%d' % (_o, _w)] = _rd
        MODELS['<%s as ByteOrder>::write_u%d' % (_o, _w)] = _wr

@model('<ErrorKind as Into<Error>>::into', '<Error as From<ErrorKind>>::from')
def _ioerr(it, a, f):
    return S('io::Error', ())

@model('<Error as Into<Box<ErrorKind>>>::into', '<Box<ErrorKind> as From<Error>>::from')
def _binerr(it, a, f):
    return S('bincode::Error', ())

def _satint(op):
    def h(it, a, f):
        ty = it.T[f['a'][0]]
        if not (isinstance(a[0], int) and isinstance(a[1], int)) or ty['k'] not in ('int', 'uint'):
            raise Unsupported('saturating arithmetic on unknowns')
        lo, hi = (-(1 << (ty['b'] - 1)), (1 << (ty['b'] - 1)) - 1) if ty['k'] == 'int' else (0, (1 << ty['b']) - 1)
        r = a[0] + a[1] if op == 'add' else a[0] - a[1]
        return max(lo, min(hi, r))
    return h
DMODELS['intrinsics::saturating_sub'] = _satint('sub')
DMODELS['intrinsics::saturating_add'] = _satint('add')

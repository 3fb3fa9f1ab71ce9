"""Deciding what a multi-limb computation computes, from its normal forms.

The interpreter leaves a field operation's result as limbs over atoms: inputs, `lo` parts of split words,
comparison bits (`sign`), exact quotients of Montgomery steps (`hi` with relation 2^k*hi = T) and Montgomery
multipliers.  Here the carry chains are telescoped: V = sum 2^(64 i) limb_i is expanded until only inputs,
Montgomery multipliers and a few comparison bits are left, each comparison bit is rewritten to a comparison of
whole numbers, and the claim (congruence and range of V) is then read off for each consistent value of the bits.
"""
import itertools
import math
import poly
from poly import ATOMS, MONT, P, add, sub, scale, mul, neg, atoms_of, subst, of_atom, interval, coeffs

class Fail(Exception):
    pass

def unit_floor(U):
    """An atom s with U = R + floor(X/2^k) for the returned (R, X, k), or None."""
    if isinstance(U, int):
        return None
    best = None
    for m, c in U.c.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            a = ATOMS[m[0][0]]
            if a.kind in ('sign', 'hi') and not (a.kind == 'hi' and a.data[2]):
                if best is None or a.id > best[0].id:
                    best = (a, c)
    if best is None:
        return None
    a, c = best
    # any other occurrence of the atom (in a product) blocks the rewriting
    if sum(1 for m in U.c if any(x == a.id for x, _ in m)) != 1:
        return None
    R = sub(U, scale(of_atom(a), c))
    if a.kind == 'sign':
        X = a.data
        lo, hi = poly.rng(X)
        if lo is None or hi is None:
            return None
        k = 1
        while not (lo >= -(1 << k) and hi < (1 << k)):
            k += 1
        if c == -1:
            return R, X, k
        return add(R, 1), sub(neg(X), 1), k
    T, k, _ = a.data
    if c == 1:
        return R, T, k
    # -floor(T/2^k) = ceil(-T/2^k) = floor((-T + 2^k - 1)/2^k)
    return R, add(neg(T), (1 << k) - 1), k

def expand_lo(Q):
    """Replace every lo part (not a Montgomery multiplier) by its definition, newest first."""
    while not isinstance(Q, int):
        ids = [a for a in atoms_of(Q) if ATOMS[a].kind == 'lo' and a not in MONT]
        if not ids:
            break
        a = max(ids)
        Q = subst(Q, {a: ATOMS[a].data[0]})
    return Q

def expand_exact(Q):
    """Use 2^k * hi = T for exact quotients whose coefficients allow it."""
    while not isinstance(Q, int):
        did = False
        for a in sorted((a for a in atoms_of(Q) if ATOMS[a].kind == 'hi' and ATOMS[a].data[2]), reverse=True):
            T, k, _ = ATOMS[a].data
            M = 1 << k
            part = {m: c for m, c in Q.c.items() if any(x == a for x, _ in m)}
            if all(c % M == 0 for c in part.values()) and all(e == 1 for m in part for x, e in m if x == a):
                r = sub(Q, poly.mk(part))
                for m, c in part.items():
                    rest = tuple((x, e) for x, e in m if x != a)
                    co = poly.mk({rest: c // M})
                    r = add(r, mul(co, T))
                Q = expand_lo(r)
                did = True
                break
        if not did:
            break
    return Q

_FULL = {}

def full_sign(a):
    """Whole-number comparison equivalent to sign atom a: a = 1 iff the result < 0."""
    if a.id in _FULL:
        return _FULL[a.id]
    U = a.data
    for _ in range(200):
        r = unit_floor(U)
        if r is None:
            break
        R, X, k = r
        U = add(scale(R, 1 << k), X)
    _FULL[a.id] = r = expand_lo(U)
    return r

def full_floor(a):
    """(X, k) with a = floor(X / 2^k) and carries telescoped."""
    if a.id in _FULL:
        return _FULL[a.id]
    U, K, _ = a.data
    for _ in range(200):
        r = unit_floor(U)
        if r is None:
            break
        R, X, k = r
        U, K = add(scale(R, 1 << k), X), K + k
    _FULL[a.id] = r = (expand_lo(U), K)
    return r

class Composite:
    """Inputs given as limbs, viewed as one number."""
    def __init__(self, name, nl=4, lo=0, hi=None, extra=1, nbits=64):
        self.limbs = tuple(poly.var('%s%d' % (name, i), 0, (1 << nbits) - 1) for i in range(nl)) + (0,) * extra
        hi = (1 << (nbits * nl)) - 1 if hi is None else hi
        self.var = poly.var(name, lo, hi)
        first = next(iter(atoms_of(self.limbs[0])))
        t = self.var
        for i in range(1, nl):
            t = sub(t, scale(self.limbs[i], 1 << (nbits * i)))
        self.map = {first: t}

def norm_fact(U, l, h):
    """The same fact with constant term dropped and the content divided out."""
    c0 = U.c.get((), 0)
    cs = {m: c for m, c in U.c.items() if m}
    g = 0
    for c in cs.values():
        g = math.gcd(g, c)
    if l is not None:
        l = -((c0 - l) // g)
    if h is not None:
        h = (h - c0) // g
    return poly.mk({m: c // g for m, c in cs.items()}), l, h

def bits_in(Q):
    return [a for a in atoms_of(Q) if (poly.is_bool_atom(a) and ATOMS[a].kind != 'var')
            or (ATOMS[a].kind == 'hi' and not ATOMS[a].data[2] and None not in (ATOMS[a].lo, ATOMS[a].hi)
                and ATOMS[a].hi - ATOMS[a].lo < 8)]

def cases(Q, comps, facts=None, limit=12, scale_bits=0):
    """All consistent values of the comparison bits in Q: yields (assignment, Q under it, facts)."""
    sm = {}
    for c in comps:
        sm.update(c.map)
    Q = subst(Q, sm)
    S = 1 << scale_bits
    def ex(U):
        return subst(expand_exact(expand_lo(scale(U, S))), sm)
    conds = {}
    todo = list(bits_in(Q))
    while todo:
        b = todo.pop()
        if b in conds:
            continue
        a = ATOMS[b]
        if a.kind == 'sign':
            U = ex(full_sign(a))
            conds[b] = ('sign', U)
        elif a.kind == 'eq':
            conds[b] = ('eq', ex(a.data[1]))
        elif a.kind == 'allzero':
            # a sum of non-negative weighted limbs is zero exactly when they all are
            tot = 0
            ops = sorted(a.data[1], key=lambda p: (p.key() if isinstance(p, P) else ()))
            if all(poly.rng(o)[0] is not None and poly.rng(o)[0] >= 0 for o in ops):
                w = None
                for c in comps:
                    if set(ops) == {l for l in c.limbs if not isinstance(l, int)}:
                        w = scale(c.var, S)
                if w is None:
                    tot = 0
                    for o in ops:
                        tot = add(tot, o)
                    w = ex(tot)
            else:
                raise Fail('allzero over possibly negative words')
            conds[b] = ('zero', w)
        elif a.kind == 'hi' and not a.data[2]:
            conds[b] = ('hi', ex(full_floor(a)[0]), full_floor(a)[1])
        else:
            raise Fail('undetermined bit %r' % a)
        todo += bits_in(conds[b][1])
    order = sorted(conds)
    def ranges(b):
        if conds[b][0] == 'hi':
            return range(ATOMS[b].lo, ATOMS[b].hi + 1)
        return (0, 1)
    total = 1
    for b in order:
        total *= len(ranges(b))
    if total > (1 << limit):
        raise Fail('too many comparison bits (%d)' % len(order))
    # depth-first over the bits in creation order, dropping inconsistent prefixes
    def go(i, asg, fs, eqs):
        if i == len(order):
            asg = dict(asg)
            q = subst(subst(Q, asg), eqs)
            yield asg, q, fs, eqs
            return
        b = order[i]
        for v in ranges(b):
            na = dict(asg)
            na[b] = v
            nfs, neqs = list(fs), dict(eqs)
            kind, U = conds[b][:2]
            U = subst(subst(U, na), neqs)
            if kind == 'sign':
                f = (None, -S) if v else (0, None)
            elif kind == 'eq':
                f = (0, 0) if v else None
            elif kind == 'hi':
                k = conds[b][2]
                f = (S * (v << k), S * (((v + 1) << k) - 1))
            else:
                f = (0, 0) if v else (S, None)
            if isinstance(U, int):
                if f is None:
                    ok = U != 0
                else:
                    ok = (f[0] is None or U >= f[0]) and (f[1] is None or U <= f[1])
                if not ok:
                    continue
            elif f is not None:
                if f == (0, 0):
                    pv = [(m, c) for m, c in U.c.items() if len(m) == 1 and m[0][1] == 1 and abs(c) == 1
                          and ATOMS[m[0][0]].kind == 'var' and not any(m[0][0] == x for mm in U.c if mm != m for x, _ in mm)]
                    if pv:
                        m, c = pv[0]
                        e = {m[0][0]: scale(sub(U, poly.mk({m: c})), -c)}
                        neqs = {x: subst(y, e) for x, y in neqs.items()}
                        neqs.update(e)
                        nfs = [(subst(u, e), l, h) for u, l, h in nfs]
                nfs.append(norm_fact(U, f[0], f[1]))
            if not consistent(nfs):
                continue
            yield from go(i + 1, na, nfs, neqs)
    yield from go(0, {}, list(facts or []), {})

def bound(Q, fs):
    """Interval of Q under the facts (each used on its own)."""
    if isinstance(Q, int):
        return Q, Q
    best = poly._meet(poly.rng(Q), interval(Q.c))
    for U, l, h in fs:
        if isinstance(U, int):
            continue
        best = poly._meet(best, poly.with_fact(Q, U, l, h))
    return best

def consistent(fs):
    for i, (U, l, h) in enumerate(fs):
        if isinstance(U, int):
            if (l is not None and U < l) or (h is not None and U > h):
                return False
            continue
        bl, bh = bound(U, fs[:i] + fs[i + 1:])
        if l is not None and bh is not None and bh < l:
            return False
        if h is not None and bl is not None and bl > h:
            return False
    return True

def number(limbs, nbits=64):
    v = 0
    for i, x in enumerate(limbs):
        v = add(v, scale(x, 1 << (nbits * i)))
    return v

def prove_value(limbs, comps, target, p, scale_bits=0, range_=True, nbits=64, lo=0, hi=None, nomont=False):
    """2^scale_bits * value(limbs) = target (mod p) and, if range_, lo <= value <= hi (default p-1).
    Returns the number of cases examined; raises Fail with a description otherwise."""
    V0 = number(limbs, nbits)
    sm = {}
    for c in comps:
        sm.update(c.map)
    V = expand_exact(expand_lo(scale(V0, 1 << scale_bits)))
    n = 0
    hi = p - 1 if hi is None else hi
    for asg, Q, fs, eqs in cases(V, comps, scale_bits=scale_bits):
        n += 1
        d = sub(Q, subst(target, eqs))
        bad = {m: c % p for m, c in coeffs(d).items() if c % p} if p else coeffs(d)
        if bad:
            raise Fail('value is not the specified one: difference %s' % poly.show(poly.mk(bad) if bad else 0, 3))
        if range_:
            l, h = bound(Q, fs)
            S = 1 << scale_bits
            if l is None or h is None or l < lo * S or h >= (hi + 1) * S:
                raise Fail('result may leave [%d, p-1]: bounds %s..%s of %s' % (lo, l and hex(l), h and hex(h), poly.show(Q, 4)))
    if n == 0:
        raise Fail('no consistent case')
    return n

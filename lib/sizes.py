"""Size gate of the shape-by-shape checks.

Obligations over finitely many shapes say nothing about code that only runs beyond them.  Every comparison of machine integers met in
the repository's code is therefore recorded with the operand ranges and outcomes over all analysed shapes; a comparison against a
constant whose outcome was the same in every shape, and would flip for some larger size (or for an equality, at a size not analysed),
selects code that no shape exercised.  It is harmless when the unexplored side panics or returns an error on every path."""
import absint

def open_sites():
    r = []
    for k, (op, outs, xl, xh, yl, yh, harm, const) in absint.SITES.items():
        if len(outs) != 1:
            continue
        o = next(iter(outs))
        if harm[0 if o else 1]:
            continue
        f = absint.CMP[op]
        for c, lo, hi, flip in ((yl, xl, xh, False), (xl, yl, yh, True)):
            if (xl != xh if flip else yl != yh) or not const[0 if flip else 1] and lo == hi:
                continue
            if op in ('Eq', 'Ne'):
                bad = c > lo and not (lo == hi == c)
            else:
                bad = c > hi or c == hi > lo
                bad = bad and any((f(c, v) if flip else f(v, c)) != o for v in (c, c + 1, c + 2) if v > hi)
            if bad:
                r.append((k, op, o, (xl, xh), (yl, yh)))
                break
    return r

def gate(c):
    c.count('size comparisons', len(absint.SITES))
    for k, op, o, x, y in open_sites():
        c.fail('sizes/' + k[0], k[0], 'a comparison of sizes (%s..%s %s %s..%s) came out %s in every analysed shape, so the code for the other sizes was not analysed'
               % (x[0], x[1], op, y[0], y[1], str(bool(o)).lower()))

def hooks(models):
    """Comparisons hidden in modelled library functions: bounds of adapters and orderings of machine integers."""
    import models as M
    from absint import notecall
    def ints(it, a, f):
        x, y = (M.num(it, v) for v in a[:2])
        return x, y
    def order(op):
        return lambda it, a, f: [(op,) + ints(it, a, f)]
    def length(it, v):
        v = M.dr(it, v) if hasattr(v, 'cell') and not getattr(v, 'rng', None) else v
        try:
            return it.length(v)
        except Exception:
            return len(v.items)
    def many(it, a, f):
        return [('Gt', length(it, a[0]), a[1])]
    def seq(it, a, f):
        i = M.toit(it, a[0])
        return [('Gt', len(i.items), a[1])] if i.inf is None else []
    tab = {}
    for t in ('usize', 'u64', 'u32', 'u16', 'u8'):
        for n, op in (('lt', 'Lt'), ('le', 'Le'), ('gt', 'Gt'), ('ge', 'Ge')):
            tab['<impl PartialOrd for %s>::%s' % (t, n)] = order(op)
        for n in ('max', 'min'):
            tab['<%s as Ord>::%s' % (t, n)] = order('Lt')
        tab['<impl Ord for %s>::cmp' % t] = order('Lt')
    for n in ('cmp::max', 'cmp::min', 'Ord::max', 'Ord::min'):
        tab[n] = order('Lt')
    for n in ('chunks', 'chunks_mut', 'chunks_exact', 'chunks_exact_mut', 'rchunks'):
        tab['<impl [T]>::' + n] = many
    for n in ('take', 'step_by'):
        tab['Iterator::' + n] = seq
    def wrap(m, h, n):
        def g(it, a, f):
            try:
                for op, x, y in h(it, a, f):
                    notecall(it, op, x, y, n)
            except Exception:
                pass
            return m(it, a, f)
        return g
    for d in models:
        for n, h in tab.items():
            if n in d:
                d[n] = wrap(d[n], h, n)

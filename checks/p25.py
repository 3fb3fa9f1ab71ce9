"""Comparison and selection: the MIR of every equality, zero-test and selection function of the three field types is
abstractly interpreted over symbolic limbs; the resulting bit (or limbs) must be the normal form of limb-wise
equality (or of the choice) - decided by normal-form equality, no sampling."""
import re
import corescalar
import poly, felem, limbproof as lp
from absint import Interp, S
from fields import FTS, args_for, deref
from vc import Fail

KINDS = [
    (r'^<{F} as (?:\w+::)*subtle::ConstantTimeEq>::ct_eq$', 'eq'),
    (r'^<{F} as (?:\w+::)*subtle::ConstantTimeEq>::ct_ne$', 'ne'),
    (r'^<{F} as std::cmp::PartialEq>::eq$', 'eq'),
    (r'^<{F} as std::cmp::PartialEq>::ne$', 'ne'),
    (r'^<{F} as (?:ff::Field|secq256k1::elliptic_curve::Field)>::is_zero$', 'zero'),
    (r'^<{F} as ff::Field>::is_zero_vartime$', 'zero'),
    (r'^<{F} as (?:\w+::)*subtle::ConditionallySelectable>::conditional_select$', 'select'),
    (r'^<{F} as (?:\w+::)*subtle::ConditionallySelectable>::conditional_assign$', 'assign'),
    (r'^<{F} as (?:\w+::)*subtle::ConditionallySelectable>::conditional_swap$', 'swap'),
]

def functions(ft):
    out = []
    for name in sorted(ft.prog.byname):
        for pat, kind in KINDS:
            if re.match(pat.replace('{F}', re.escape(ft.name)), name):
                out.append((name, kind))
    return out

def expand_allzero(b):
    """allzero(ops) as the product of the single tests."""
    while True:
        ids = [a for a in poly.atoms_of(b) if poly.ATOMS[a].kind == 'allzero']
        if not ids:
            return b
        m = {}
        for a in ids:
            t = 1
            for o in sorted(poly.ATOMS[a].data[1], key=lambda p: p.key()):
                t = poly.mul(t, poly.eq0(o))
            m[a] = t
        b = poly.subst(b, m)

def arith_ops(ft):
    return {k: v for k, v in felem.FeOps([ft]).ov.items()
            if not re.search(r'::(ct_eq|eq|ne|is_zero|conditional_select)$', k)}

def run(c):
    for ft in FTS:
        fs = functions(ft)
        seen = set()
        for name, kind in fs:
            seen.add(kind)
            b = ft.prog.body(ft.prog.find(name))
            def check(name=name, kind=kind, b=b):
                c.count('functions_analysed')
                try:
                    return limbs()
                except (Fail, poly.Unsupported) as e:
                    if kind not in ('eq', 'ne', 'zero') or not arith(e):
                        raise
                    return 'equals the test of the difference being 0 (arithmetic by P01)'
            def arith(e):
                """The same test one level up: arithmetic on residues, then a limb-wise test of a canonical result."""
                it = Interp(ft.prog, overrides=arith_ops(ft))
                A, B = felem.sym(ft, 'A'), felem.sym(ft, 'B') if kind != 'zero' else felem.from_int(ft, 0)
                try:
                    r = deref(it, it.run_body(b, args_for(it, b, lambda i, n, ty: (A, B)[i - 1])))
                except (Fail, poly.Unsupported):
                    return False
                if it.panics:
                    return False
                if isinstance(r, S):
                    r = r.f[0]
                for d in (felem.fe_sub(A, B), felem.fe_sub(B, A)):
                    want = 1
                    for x in felem.limb_words(d):
                        want = poly.mul(want, poly.eq0(x))
                    if kind == 'ne':
                        want = poly.bnot(want)
                    if poly_eq(expand_allzero(r), want):
                        return True
                return False
            def limbs():
                it = Interp(ft.prog)
                A, B = lp.Composite('A', hi=ft.p - 1), lp.Composite('B', hi=ft.p - 1)
                ch = poly.var('choice', 0, 1)
                vals = [ft.val(A.limbs), ft.val(B.limbs)]
                args = args_for(it, b, lambda i, n, ty: vals[i - 1] if n == ft.name else ch)
                r = deref(it, it.run_body(b, args))
                if it.panics:
                    raise Fail('may panic')
                if kind in ('eq', 'ne', 'zero'):
                    if isinstance(r, S):
                        r = r.f[0]
                    want = 1
                    for x, y in zip(A.limbs[:4], B.limbs[:4] if kind != 'zero' else (0,) * 4):
                        want = poly.mul(want, poly.eq0(poly.sub(x, y)))
                    if kind == 'ne':
                        want = poly.bnot(want)
                    if not poly_eq(expand_allzero(r), want):
                        raise Fail('the bit is %s, not limb-wise %s' % (poly.show(r, 6), kind))
                    return 'equals the limb-wise test on all 4 limbs (limb 4 is 0 for canonical values)'
                res = {'select': lambda: [(r, vals[0], vals[1])], 'assign': lambda: [(deref(it, args[0]), vals[0], vals[1])],
                       'swap': lambda: [(deref(it, args[0]), vals[0], vals[1]), (deref(it, args[1]), vals[1], vals[0])]}[kind]()
                for got, v0, v1 in res:
                    for i in range(5):
                        w = poly.select(ch, v1.f[0].f[i], v0.f[0].f[i])
                        if not poly_eq(got.f[0].f[i], w):
                            raise Fail('limb %d is %s' % (i, poly.show(got.f[0].f[i], 4)))
                return 'choice 0 gives the first operand and 1 the second, on all 5 limbs'
            c.ob('%s/%s' % (ft.label, name.replace(ft.name, 'F')), ft.file + ' ' + name, check)
        miss = {'eq', 'select'} - seen
        if miss:
            c.fail('%s/present' % ft.label, ft.file, 'no function found for %s' % sorted(miss))
    corescalar.comparisons(c)
    c.assumptions.append('operands are canonical, as P01 and P02 establish')
    return __doc__

def poly_eq(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    return a.c == b.c

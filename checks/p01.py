"""Field arithmetic: abstract interpretation of the compiled MIR of every operator implementation over symbolic
limbs; carry chains are telescoped and each result is compared, coefficient by coefficient, with the exact modular
value, and its range is bounded by the comparisons the code itself makes."""
import re
import corescalar
import poly, limbproof as lp
from absint import Interp, S, R
from fields import FTS, args_for, pointee, deref, RR
from vc import Fail

SPEC = {
    'add': (2, lambda a, b: poly.add(a, b), 0), 'sub': (2, lambda a, b: poly.sub(a, b), 0),
    'mul': (2, lambda a, b: poly.mul(a, b), RR), 'neg': (1, lambda a, b: poly.neg(a), 0),
    'double': (1, lambda a, b: poly.scale(a, 2), 0), 'square': (1, lambda a, b: poly.mul(a, a), RR),
}
TRAITS = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Neg': 'neg', 'AddAssign': 'add', 'SubAssign': 'sub', 'MulAssign': 'mul'}

def operations(ft):
    """Every compiled function of the field type that is one of the six operations, in any operator form."""
    n = re.escape(ft.name)
    tr = re.compile(r'^<&?%s as std::ops::(\w+)(<&?%s>)?>::\w+$' % (n, n))
    ff = re.compile(r'^<%s as ff::Field>::(double|square)$' % n)
    inh = re.compile(r'^%s::(add|sub|mul|neg|double|square)$' % n)
    out = []
    for name in ft.prog.byname:
        m = tr.match(name)
        if m and m.group(1) in TRAITS:
            out.append((name, TRAITS[m.group(1)], m.group(1)))
            continue
        m = ff.match(name) or inh.match(name)
        if m:
            out.append((name, m.group(1), m.group(1)))
    return sorted(out)

def run(c):
    for ft in FTS:
        ops = operations(ft)
        forms = {}
        for name, op, form in ops:
            forms.setdefault(form, []).append(name)
            b = ft.prog.body(ft.prog.find(name))
            def check(name=name, op=op, b=b):
                it = Interp(ft.prog)
                A, B = lp.Composite('A', hi=ft.p - 1), lp.Composite('B', hi=ft.p - 1)
                ops_ = [ft.val(A.limbs), ft.val(B.limbs)]
                def mk(i, n, ty):
                    if n != ft.name:
                        raise Fail('unexpected parameter type %s' % n)
                    return ops_[i - 1]
                args = args_for(it, b, mk)
                r = it.run_body(b, args)
                if isinstance(r, S) and r.f == ():
                    r = args[0]
                r = deref(it, r)
                ar, f, sb = SPEC[op]
                if b.nargs != ar:
                    raise Fail('takes %d operands' % b.nargs)
                k = lp.prove_value(r.f[0].f, [A, B], f(A.var, B.var), ft.p, sb)
                if it.panics:
                    raise Fail('may panic: %r' % (it.panics[:1],))
                c.count('functions_analysed')
                c.count('carry_cases', k)
                c.count('mir_blocks', len(it.visited))
                return 'exact modulo p and in [0,p-1]; %d carry cases' % k
            c.ob('%s/%s' % (ft.label, name.replace(ft.name, 'F')), ft.file + ' ' + name, check)
        def present(forms=forms):
            need = ['Add', 'Sub', 'Mul', 'Neg', 'AddAssign', 'SubAssign', 'MulAssign', 'double', 'square']
            miss = [x for x in need if x not in forms]
            if miss:
                raise Fail('no implementation found for ' + ', '.join(miss))
            return ', '.join('%s x%d' % (k, len(v)) for k, v in sorted(forms.items()))
        c.ob('%s/forms' % ft.label, ft.file, present)
    corescalar.arithmetic(c)
    c.assumptions += ['operands are canonical (value < p, top limb 0), which P02 and this check preserve',
                      'rustc lowers the MIR faithfully; release semantics (wrapping arithmetic)']
    return __doc__

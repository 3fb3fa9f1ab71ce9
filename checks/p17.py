"""P17: every circuit output is determined by the circuit inputs."""
import circom, circgroup, circint, circpoint
from circalg import Ring, Case, flatten, solve
from circom import P
from vc import Fail
DIR = 'eff_ecdsa_membership/'
ROOTS = [('instances/addr_membership.circom', None, None), ('instances/pubkey_membership.circom', None, None),
         (DIR + 'eff_ecdsa_to_addr.circom', 'EfficientECDSAToAddr', []), (DIR + 'eff_ecdsa.circom', 'EfficientECDSA', []),
         (DIR + 'to_address/zk-identity/eth.circom', 'FlattenPubkey', [64, 4]), ('poseidon/poseidon.circom', 'Poseidon', [])]
SOLVED = set(circgroup.TEMPL) | {'K'}

def templates():
    """every template instance reachable from the roots: {(name, args): (instance, paths)}"""
    seen = {}
    for f, n, a in ROOTS:
        e = circom.elab(f)
        if n is None:
            if e.main is None: raise Fail('%s has no main component' % f)
            n, a = e.main[1][1], [circom.Frame(e, None, f, {}).const(x) for x in e.main[1][2]]
        todo = [e.inst(n, a)]
        while todo:
            I = todo.pop()
            k = (I.name, repr(I.args), I.file)
            if k in seen: continue
            seen[k] = I
            todo += [c.inst for c in I.comps]
    return seen
def lib(I): return 'circomlib' in I.file

def connected(I):
    used = {x for o in I.ops for x in (circom_sigs(o))}
    for i, k in enumerate(I.kind):
        if k == 'input' or isinstance(k, tuple) and k[0] == 'port-out' or i in I.assigned: continue
        if k == 'output': raise Fail('the output %s is not assigned' % I.sigs[i])
        if isinstance(k, tuple): raise Fail('the component input %s is not assigned' % I.sigs[i])
        if i in used: raise Fail('the signal %s is used but not assigned' % I.sigs[i])
    return len(I.sigs)
def circom_sigs(o):
    from circalg import sigs_of
    p = o[1] if o[0] == 'con' else o[2]
    return sigs_of(p) if o[0] == 'hint' else {x for m in p for x in m}

def generic(I):
    """a template with hints of its own: all outputs follow from the inputs"""
    fl = flatten(I)
    if len(fl[1]) > 3000: raise Fail('%d assignments: too large to solve' % len(fl[1]))
    R = Ring()
    case = Case('all inputs', R, [R.var('i%04d' % i) for i in range(len(fl[2]))], [], None)
    n = 0
    for cc, s, r in solve(fl, case):
        n += 1
        if r is None: continue
        for o, v in zip(fl[3], r):
            us = {s.nm(x) for f in v for m in f for x, e in m if x in s.unk}
            if us: raise Fail('%s depends on %s, which the prover may choose' % (s.L[o], ', '.join(sorted(us))))
    return n

def hinted(I, memo):
    """does the instance contain hints that no analysis covers?"""
    k = id(I)
    if k not in memo:
        memo[k] = I.name not in SOLVED and not lib(I) and (any(o[0] == 'hint' for o in I.ops))
    return memo[k]

def wide(seen):
    """decompositions with more values than the field has elements, named by the value they decompose"""
    memo = {}
    def has(I):
        k = id(I)
        if k not in memo: memo[k] = I.name == 'Num2Bits' and lib(I) and (1 << I.args[0]) > P or any([has(x.inst) for x in I.comps])
        return memo[k]
    r = {}
    for f, n, a in ROOTS:
        e = circom.elab(f)
        if n is None: n, a = e.main[1][1], [circom.Frame(e, None, f, {}).const(x) for x in e.main[1][2]]
        I = e.inst(n, a)
        if not has(I): continue
        base = lambda i: i.name in [x[1] for x in ROOTS]
        L, ops, inp, out, opq = flatten(I, lambda i: lib(i) or not has(i) or base(i))
        src = {o[1]: next(iter(o[2]))[0] for o in ops if o[0] == 'def' and len(o[2]) == 1 and all(len(m) == 1 and c == 1 for m, c in o[2].items())}
        owner = {g: '%s.%s' % (i.name, i.sigs[s]) for i, nm, ins, outs in opq for s, g in zip(i.ids('output'), outs)}
        for i, nm, ins, outs in opq:
            if not (i.name == 'Num2Bits' and lib(i) and has(i)): continue
            g = ins[0]
            while g in src: g = src[g]
            v = owner.get(g) or ('input ' + L[g] if g in inp else L[g])
            r['alias/%s/%s' % (n, v)] = ('%s %s %s' % (I.file, n, nm), '%d bits do not determine a field element: %s below 2^%d - p has two decompositions' % (i.args[0], v, i.args[0]))
    return [(k, w, m) for k, (w, m) in sorted(r.items())]

def run(c):
    st = {}
    def tree():
        st['t'] = templates()
        for n in SOLVED:
            if not any(k[0] == n for k in st['t']): raise Fail('template %s is not used any more' % n)
        return '%d template instances' % len(st['t'])
    if not c.ob('templates', 'packages/circuits', tree): return 'elaboration of every circuit'
    helpers = set()
    def below(I):
        for x in I.comps:
            if not lib(x.inst): helpers.add((x.inst.name, x.inst.file)); below(x.inst)
    for I in st['t'].values():
        if I.name in SOLVED and not lib(I): below(I)
    names = {}
    for I in st['t'].values():
        if not lib(I): names.setdefault((I.name, I.file), []).append(I)
    for (n, f), Is in sorted(names.items()):
        where = '%s %s' % (f, n)
        def conn(Is=Is): return '%d signals in %d instances' % (sum(connected(I) for I in Is), len(Is))
        c.ob('connected/' + n, where, conn)
        if n in SOLVED or not any(o[0] == 'hint' for I in Is for o in I.ops): continue
        if (n, f) in helpers and not any(x.inst is I for I in Is for J in st['t'].values() if J.name not in SOLVED and (J.name, J.file) not in helpers for x in J.comps): continue
        c.ob('hints/' + n, where, lambda Is=Is: '%d cases' % sum(generic(I) for I in Is))
    for n in sorted(circgroup.TEMPL):
        f = 'packages/circuits/' + circgroup.TEMPL[n][0] + ' ' + n
        for case in circgroup.TEMPL[n][1]:
            for what, fn in (('forced', circgroup.forced), ('honest', circgroup.honest)):
                c.ob('%s/%s/%s' % (n, what, case), f, lambda: '%d cases' % circgroup.analyse(n, case, fn))
    mul = circom.elab(DIR + 'secp256k1/mul.circom')
    def k():
        M, cases = circint.recoding(mul.inst('K', []), circpoint.Q, circpoint.TQ)
        return '%d cases, %d hints' % (cases, len(M.hints))
    c.ob('K/forced', 'packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom K', k)
    c.ob('K/honest', 'packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom K', lambda: circint.honest(mul.inst('K', [])))
    def uses():
        W = circpoint.mul(mul.inst('Secp256k1Mul', []))
        return '%d uses of point templates, %d side conditions' % (W.uses, W.obl)
    c.ob('Mul/uses', 'packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom Secp256k1Mul', uses)
    for J in st['t'].values():
        if J.name == 'Secp256k1Mul' or (J.name, J.file) in helpers: continue
        inside = mulparts(mul)
        for x in J.comps:
            if x.inst.name in ('Secp256k1AddIncomplete', 'Secp256k1Double') and J.name not in inside:
                c.fail('uses/%s/%s' % (J.name, x.name), '%s %s' % (J.file, J.name), '%s is used outside the scalar multiplication, where its operands are not known to be distinct finite points' % x.inst.name)
    for key, where, msg in wide(st['t']): c.fail(key, where, msg)
    c.count('template_instances', len(st['t'])); c.count('templates', len(names)); c.count('signals', sum(len(I.sigs) for I in st['t'].values()))
    c.assumptions += ['circomlib templates are those of version 2.0.5 (the package is not in the sandbox); IsZero, Num2Bits and the comparators built on them are determined by their inputs when the decomposition fits the field',
                      'input points of the point templates are on the curve y^2 = x^3 + 7 or (0, 0)']
    return ('elaboration of all templates reachable from the circuit instances; connection of every signal; constraint systems with hints solved as '
            'systems over rational functions of the curve coordinates (case by case) or over bounded integers, the outputs must not contain a free hint')

def mulparts(el):
    r = set()
    def go(I):
        r.add(I.name)
        for x in I.comps: go(x.inst)
    go(el.inst('Secp256k1Mul', []))
    return r

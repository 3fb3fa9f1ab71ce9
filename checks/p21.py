"""P21: the client verifier reports success only for a verified proof of a consistent statement."""
import os, vc
import tsint
from tsint import *
from vc import Fail
SRC = os.path.join(vc.REPO, 'packages/lib/src')
HEAD = 193                         # r, recovery byte, five field elements

# pairs of distinct circuits: other directory, other name, other host, other query, other case
OTHER = [('/srv/a/m.circuit', '/srv/b/m.circuit'), ('/srv/a/m.circuit', '/srv/a/n.circuit'), ('https://x/m.circuit', 'https://y/m.circuit'),
         ('https://x/m.circuit?v=1', 'https://x/m.circuit?v=2'), ('/srv/M.circuit', '/srv/m.circuit'), ('/srv/m.circuit', '/srv/m.circuit2')]

def obj(w, spec, name, args):
    m = w.load(w.resolve(os.path.join(SRC, '_.ts'), spec))
    try: c = w.export(m, name)
    except KeyError: raise Fail('%s does not export %s' % (spec, name))
    return w.new(c, args)
def wait(v):
    while isinstance(v, Promise):
        if not v.ok: raise Throw(v.v)
        v = v.v
    return v
def msg(v):
    if isinstance(v, Obj): return '%s %s' % (v.props.get('name', 'Error'), v.props.get('message', ''))
    return repr(v)
def outcome(w, v):
    try: v = wait(v)
    except Throw as t: return 'throw', msg(t.v)
    if isinstance(v, Sym): v = w.truthy(v)
    return 'value', v

def tpoint(r, odd): return Pt({('lift', pk(r), odd): pa('inv', pk(pmod(r, N)))})
def upoint(r, m): return Pt({'G': pmod(pmul(pmul(pa('inv', pk(pmod(r, N))), m), pc(-1)), N)})
def xy(p): return pa('coord', 'x', p.key()), pa('coord', 'y', p.key())

def pub(n, rv, rest, mark=''):
    b = [('in', 'pub' + mark, i) for i in range(n)]
    if n > 32 and rv is not None: b[32] = rv
    return Bytes(b, ('in', 'rest' + mark) if rest else None)

def paths(c, n, rv, rest, cfg):
    def go(script):
        w = World(SRC, script, window=cfg.get('window', False))
        w.mark = 0
        V = obj(w, '@src/core/verifier', 'MembershipVerifier', [Obj(cfg['args'])])
        if cfg.get('before'):
            # an earlier call on the same object, with inputs that may equal the later ones or not
            a = Obj({'proof': Bytes([], ('in', 'proof0')), 'publicInputSer': pub(n, rv, rest, '0')})
            V0 = V if cfg['before'] is True else obj(w, '@src/core/verifier', 'MembershipVerifier', [Obj(cfg['before'])])
            try: outcome(w, w.call(w.get(V0, 'verify'), [a], V0))
            except Throw as t: pass
            w.mark = len(w.log)
            for k in ('readFile', 'fetch'): w.memo.pop(('throws', k), None)
        a = Obj({'proof': Bytes([], ('in', 'proof')), 'publicInputSer': pub(n, rv, rest)})
        try: r = w.call(w.get(V, 'verify'), [a], V)
        except Throw as t: return w, ('throw', 'synchronously ' + msg(t.v))
        return w, outcome(w, r)
    for w, r in explore(go):
        c.count('paths')
        yield w, r

def held(w, p, q):
    s = World.peq(w, p, q)
    if s is True: return True
    return isinstance(s, Sym) and w.memo.get(('sym',) + s.t) == 0

def analyse(c, n, rv, rest, cfg):
    """every path of verify on a public input of n bytes (plus more, if rest)"""
    B = pub(n, rv, rest).b
    acc = tot = 0
    for w, (kind, v) in paths(c, n, rv, rest, cfg):
        tot += 1
        env = [k for k, ch, _ in w.log[w.mark:] if ch == 1 and k in (('throws', 'readFile'), ('throws', 'fetch'))]
        why = '; '.join('%s' % (k[1] if k[0] == 'throws' else k[1] if k[0] == 'sym' else k[0],) + ('' if ch == 0 else ' (no)' if k[0] == 'sym' else ' fails') for k, ch, _ in w.log if k[0] != 'window')[:300]
        if kind == 'throw':
            if env: continue                           # the circuit file itself could not be read
            raise Fail('verify raises an exception (%s) when: %s' % (v, why))
        if v is False: continue
        if v is not True: raise Fail('verify returns %r, which is not a truth value, when: %s' % (v, why))
        if env: raise Fail('verify reports success although the circuit could not be loaded')
        if any(k[0] == 'throws' and ch == 1 for k, ch, _ in w.log[w.mark:]): raise Fail('verify reports success after a failure: ' + why)
        acc += 1
        if n < HEAD or not rest: raise Fail('verify reports success for a public input of %d bytes, which has no message hash' % n)
        want = (((), (('remote' if cfg['remote'] else 'file'), cfg['args']['circuit'])), ((), ('in', 'proof')), (tuple(B[33:193]), None))
        if w.memo.get(('sym', 'wasm.verify', want)) != 0:
            got = [k for k in w.memo if k[:2] == ('sym', 'wasm.verify')]
            raise Fail('verify reports success %s' % ('without a positive answer of the proof system' if not got or w.memo[got[0]] else 'on a proof of something else than the circuit, proof and public input it was given'))
        r, m = int_of(B[:32]), int_of([], ('in', 'rest'))
        F = [int_of(B[33 + 32 * i:65 + 32 * i]) for i in range(5)]
        par = [rv == 28] if rv in (27, 28) else [False, True]
        U = xy(upoint(r, m))
        for nm, f, e in (('Ux', F[3], U[0]), ('Uy', F[4], U[1])):
            if not held(w, f, e): raise Fail('verify reports success without comparing %s with -(m/r) G' % nm)
        ok = [o for o in par if all(held(w, f, e) for f, e in zip(F[1:3], xy(tpoint(r, o))))]
        if not ok: raise Fail('verify reports success without comparing both coordinates of T with (1/r) R%s' % (' for the recovery value %d' % rv if rv in (27, 28) else ''))
    return acc, tot

def run(c):
    W = 'packages/lib/src/core/verifier.ts MembershipVerifier.verify'
    base = {'circuit': 'C', 'enableProfiler': False}
    for name, cfg in (('local', {'args': base, 'remote': False}),
                      ('remote', {'args': dict(base, useRemoteCircuit=True), 'remote': True}),
                      ('browser', {'args': base, 'window': True, 'remote': True}),
                      ('profiler', {'args': dict(base, enableProfiler=True), 'remote': False})):
        for rv in (27, 28):
            def f():
                acc, tot = analyse(c, HEAD, rv, True, cfg)
                if not acc: raise Fail('verify never reports success')
                return '%d paths, %d report success' % (tot, acc)
            c.ob('verify/%s/v%d' % (name, rv), W, f)
    cfg = {'args': base, 'remote': False}
    c.ob('verify/any-v', W, lambda: '%d/%d paths report success' % analyse(c, HEAD, None, True, cfg))
    def seq():
        acc, tot = analyse(c, HEAD, 27, True, {'args': base, 'remote': False, 'before': True})
        if not acc: raise Fail('a second call of verify never reports success')
        return '%d paths of two calls, %d report success' % (tot, acc)
    c.ob('verify/after-another', W, seq)
    for kind, remote in (('file', False), ('remote', True)):
        for k, (first, second) in enumerate(OTHER):
            # a verifier of another circuit was used before in the same process
            def other():
                args = dict(base, **({'useRemoteCircuit': True} if remote else {}))
                acc, tot = analyse(c, HEAD, 27, True, {'args': dict(args, circuit=second), 'remote': remote, 'before': dict(args, circuit=first)})
                if not acc: raise Fail('a verifier used after one of another circuit never reports success')
                return '%d paths of two verifiers, %d report success' % (tot, acc)
            c.ob('verify/after-another/%s/%d' % (kind, k), W, other)
    for lo, hi in ((0, 33), (33, 97), (97, 161), (161, 194)):
        def f():
            t = 0
            for n in range(lo, hi): t += analyse(c, n, 27 if n > 32 else None, False, cfg)[1]
            return '%d lengths, %d paths' % (hi - lo, t)
        c.ob('truncated/%d-%d' % (lo, hi - 1), W, f)
    import tsglue
    c.ob('glue/verify', 'packages/lib/src/wasm/wasm.js verify', lambda: tsglue.check_verify(c, SRC))
    c.assumptions += ['elliptic, bn.js, Buffer and fs/fetch behave as documented (models in lib/tslib.py)']
    return 'abstract interpretation of the TypeScript client over symbolic bytes, integers and points: every path of verify is enumerated'

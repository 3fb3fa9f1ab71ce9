"""Circuit build pipeline: the top-level build script is evaluated (variables, parameters, sub-scripts; no command is run) to the
sequence of compiler, converter and copy commands it issues, and these are checked against the circuit instances of the tree: same curve,
the R1CS that the compiler wrote, and as many public inputs as the instance's main component has."""
import os, posixpath, fnmatch, json
import circom, shell
from vc import Fail, REPO
from p20 import instance
INST = 'packages/circuits/instances'
LIB = 'packages/lib/src/circuits'

def run(c):
    W = 'scripts/build.sh'
    log = []
    def ev():
        pj = json.load(open(os.path.join(REPO, 'package.json')))
        cmd = pj.get('scripts', {}).get('build')
        if not cmd: raise Fail('the workspace has no build command')
        sh = shell.Shell((), '.', {}, 'build')
        sh.run(shell.tokens(cmd))
        log.extend(sh.log)
        return '%d commands' % len(log)
    c.ob('build command', 'package.json / scripts', ev)
    files = sorted(f for f in os.listdir(os.path.join(REPO, INST)) if f.endswith('.circom'))
    for f in files:
        def one(f=f):
            if not log: raise Fail('the build command could not be evaluated')
            e, pub, I = instance(f, None)
            width = sum(1 for x in I.ids('input') if base(I.sigs[x]) in pub) + len(I.ids('output'))
            name = f[:-len('.circom')]
            comp = conv = None
            copied = set()
            for cwd, cmd, a in log:
                at = shell.Shell(cwd=cwd).path
                b = posixpath.basename(cmd)
                if b == 'circom':
                    o, src = circom_args(a)
                    if src is not None and at(src) == INST + '/' + f:
                        if o.get('prime') != PRIME: raise Fail('%s is compiled over %s, not %s' % (f, o.get('prime', 'the default field of the compiler'), PRIME))
                        if not o.get('r1cs') or not o.get('wasm'): raise Fail('%s is compiled without a constraint file or without a witness generator' % f)
                        comp = at(o.get('o', '.'))
                elif 'gen_spartan_inst' in [b] + [posixpath.basename(x) for x in a]:
                    t = a if b == 'gen_spartan_inst' else a[[posixpath.basename(x) for x in a].index('gen_spartan_inst') + 1:]
                    t = [x for x in t if not x.startswith('--')]
                    if len(t) != 3: raise Fail('the converter is called with %d arguments' % len(t))
                    if comp is None or at(t[0]) != comp + '/' + name + '.r1cs':
                        if posixpath.basename(t[0]) == name + '.r1cs': raise Fail('the converter reads %s, which the compiler has not written at this point' % at(t[0]))
                        continue
                    if t[2] != str(width): raise Fail('%s is converted with %s public inputs; its main component has %d' % (f, t[2], width))
                    conv = at(t[1])
                elif b == 'cp' and len(a) >= 2 and comp:
                    a = [x for x in a if not x.startswith('-')]
                    for x in a[:-1]:
                        for g in ([conv] if conv else []) + ['%s/%s_js/%s.wasm' % (comp, name, name)]:
                            if match(at(x), g) and at(a[-1]) in (LIB, LIB + '/' + posixpath.basename(g)): copied.add(posixpath.basename(g))
            if comp is None: raise Fail('no compiler command for %s' % f)
            if conv is None: raise Fail('no converter command for %s' % f)
            if posixpath.basename(conv) != name + '.circuit': raise Fail('the converted instance of %s is written to %s' % (f, conv))
            if copied != {name + '.circuit', name + '.wasm'}: raise Fail('not copied to %s: %s' % (LIB, ', '.join({name + '.circuit', name + '.wasm'} - copied)))
            return '%s over %s, %d public inputs, copied to %s' % (name, PRIME, width, LIB)
        c.ob('pipeline/' + f, 'scripts/ ' + f, one)
    c.assumptions += ['every command of the pipeline succeeds or stops it; circom lays out outputs, then public inputs, directly after the constant wire']
    return __doc__
PRIME = 'secq256k1'

def base(sig):
    return getattr(sig, 'name', sig).split('[')[0]
def match(pat, path):
    p, q = pat.split('/'), path.split('/')
    return len(p) == len(q) and all(fnmatch.fnmatch(y, x) for x, y in zip(p, q))
def circom_args(a):
    o, src, i = {}, None, 0
    val = {'-o': 'o', '--output': 'o', '--prime': 'prime', '-p': 'prime', '-l': 'l'}
    while i < len(a):
        x = a[i]
        k, eq, v = x.partition('=')
        if k in val:
            if eq: o[val[k]] = v
            else: o[val[k]] = a[i + 1]; i += 1
        elif x.startswith('-'): o[x.lstrip('-')] = True
        else: src = x
        i += 1
    return o, src

"""The constraint-file reader is interpreted on files of known layout whose coefficients, wire numbers, labels and prime are
unknown bytes: every section order, extra sections and every number of terms must yield exactly the file's contents, each
damaged header, size, map, truncation and non-canonical coefficient must be refused, and the proof-system instance built
from the file must contain each term once, in its own matrix, row and column, with the constant and public wires in the
columns of the constant one and of the public inputs."""
import itertools, struct
import mir, poly, vn, proto, iomodel, pcheck
from absint import S, E, R, Interp, Diverge
from vc import Fail
from vn import V, var, const, vsum, add
from proto import get
from fields import P_SECP
from spartan import p2
F, FL = 'packages/circuit_reader/src/circom_reader.rs ', 'packages/circuit_reader/src/lib.rs '

def P():
    return mir.prog('circuit_reader')
def name(pre):
    c = [n for n in P().byname if n == pre or n.startswith(pre + '::<')]
    if not c:
        raise Fail('%s not found' % pre)
    return c[0]
def interp(data):
    it = Interp(P(), vn.overrides())
    it.vlog = []
    iomodel.overrides(it)
    it.filedata = tuple(data)
    it.overrides['<PathBuf as Deref>::deref'] = lambda it, a, f: a[0]
    return it
def u32(n):
    return tuple(struct.pack('<I', n))
def u64(n):
    return tuple(struct.pack('<Q', n))
def unk(tag, n):
    return tuple(poly.var('%s_%d' % (tag, i), 0, 255) for i in range(n))
def num(bs):
    t = 0
    for j, b in enumerate(bs):
        t = poly.add(t, poly.scale(b, 1 << (8 * j)))
    return t

class File:
    """a constraint file; wire numbers are constants or None for unknown bytes"""
    def __init__(self, nw, pout, pin, cons, order=(1, 2, 3), extra=(), unknown=True, **over):
        self.nw, self.pout, self.pin = nw, pout, pin
        self.prime = unk('prime', 32) if unknown else (7,) * 32
        self.prv, self.labels = (unk('prv', 4), unk('lab', 8)) if unknown else (u32(1), u64(9))
        self.map = [u64(0)] + [unk('map%d' % i, 8) if unknown else u64(3 * i) for i in range(1, nw)]
        self.cons = []
        body = []
        for r, c in enumerate(cons):
            row = []
            for q, terms in enumerate(c):
                ts = []
                body += u32(len(terms))
                for j, w in enumerate(terms):
                    wb = unk('wire%d_%d_%d' % (r, q, j), 4) if w is None else u32(w)
                    v = var('k%d_%d_%d' % (r, q, j))
                    cb = vn.scalar_bytes(v)
                    if (r, q, j) in over.get('coef', {}):
                        cb = over['coef'][r, q, j]
                        v = vn.from_words(cb)
                    body += wb + tuple(cb)
                    ts.append((num(wb), v))
                row.append(ts)
            self.cons.append(row)
        o = over
        fs = o.get('field_size', 32)
        header = u32(fs) + (self.prime * 3)[:fs] + u32(o.get('n_wires', nw)) + u32(o.get('n_out', pout)) + u32(o.get('n_in', pin)) + self.prv + self.labels + u32(o.get('n_cons', len(cons)))
        mp = tuple(b for m in o.get('map', self.map) for b in m)
        sec = {1: header, 2: tuple(body), 3: mp}
        size = {k: len(v) for k, v in sec.items()}
        size.update(o.get('size', {}))
        data = tuple(o.get('magic', b'r1cs')) + u32(o.get('version', 1))
        parts = []
        for t in order:
            s = sec.get(t)
            if s is None:
                s = (0xab,) * (5 + t)
                size[t] = len(s)
            parts.append(u32(t) + u64(size[t]) + s)
        self.nsec = len(parts)
        data += u32(o.get('n_sec', len(parts)))
        for x in parts:
            data += tuple(x)
        self.data = data

def read(data):
    """(condition of success, contents)"""
    it = interp(data)
    try:
        r = it.callfn(name('circuit_reader::circom_reader::from_reader'), [iomodel.Rd(data)])
    except Diverge:
        return it, 0, None
    if it.panics:
        return it, 0, None
    c, val = 0, None
    for v, k, f in r.alts:
        if v == 0:
            c = poly.add(c, k)
            val = f[0]
    return it, c, val

def same(it, a, b, what):
    a = it.load(a) if isinstance(a, R) else a
    d = poly.sub(a, b)
    if not (isinstance(d, int) and d == 0):
        raise Fail('%s is not the one in the file' % what)
def core(it, x):
    x = it.load(x) if isinstance(x, R) else x
    while isinstance(x, S) and len(x.f) == 1:
        x = x.f[0]
    return iomodel.scalarcore(x, it)

def contents(f):
    it, c, v = read(f.data)
    if c != 1:
        raise Fail('a well-formed file is refused')
    p = it.p
    same(it, get(p, v, 'version'), 1, 'the version')
    h = get(p, v, 'header')
    for n, w in (('field_size', 32), ('n_wires', f.nw), ('n_pub_out', f.pout), ('n_pub_in', f.pin), ('n_prv_in', num(f.prv)), ('n_labels', num(f.labels)), ('n_constraints', len(f.cons))):
        same(it, get(p, h, n), w, 'header field ' + n)
    pr = it.items(get(p, h, 'prime_size'))
    if len(pr) != 32:
        raise Fail('prime of %d bytes' % len(pr))
    for i, b in enumerate(pr):
        same(it, b, f.prime[i], 'the prime')
    ms = it.items(get(p, v, 'wire_mapping'))
    if len(ms) != f.nw:
        raise Fail('%d wire labels instead of %d' % (len(ms), f.nw))
    for i, m in enumerate(ms):
        same(it, m, num(f.map[i]), 'label of wire %d' % i)
    rows(it, get(p, v, 'constraints'), f)

def rows(it, v, f):
    cs = it.items(v)
    if len(cs) != len(f.cons):
        raise Fail('%d constraints instead of %d' % (len(cs), len(f.cons)))
    for r, (c, w) in enumerate(zip(cs, f.cons)):
        c = it.load(c) if isinstance(c, R) else c
        for q in range(3):
            ts = it.items(c.f[q])
            if len(ts) != len(w[q]):
                raise Fail('constraint %d has %d terms in part %s instead of %d' % (r, len(ts), 'ABC'[q], len(w[q])))
            for j, (t, (wire, val)) in enumerate(zip(ts, w[q])):
                same(it, t.f[0], wire, 'wire of term %d of constraint %d%s' % (j, r, 'ABC'[q]))
                if core(it, t.f[1]).v != val.v:
                    raise Fail('coefficient of term %d of constraint %d%s is not the one in the file' % (j, r, 'ABC'[q]))

SHAPES = [[], [([], [], [])], [([1], [2], [3])], [([0, 1], [2], [3, 0, 1]), ([2], [], [1])], [([1, 1], [0], [])] * 3, [([i % 5 for i in range(k)], [k % 5], [0] * (k % 3)) for k in range(5)], [(list(range(5)) * 2, [4, 3], [2])]]

def instance(f, npub):
    it = interp(f.data)
    try:
        r = it.callfn('circuit_reader::load_as_spartan_inst', [S('path', ()), npub])
    except Diverge:
        return it, None
    return it, (None if it.panics else r)

def command():
    """gen_spartan_inst IN OUT N writes to OUT exactly the serialised instance of IN with N public inputs."""
    from absint import It, Str, UNIT
    q = mir.prog('gen_spartan_inst')
    n = 0
    for npub in (0, 1, 5, 2**40):
        it = Interp(q, vn.overrides())
        ov = it.overrides
        argv = [S('string', ('argv0',)), S('string', ('IN',)), S('string', ('OUT',)), S('string', ('N',))]
        log, files = [], []
        def d(v):
            while isinstance(v, R):
                v = it.load(v)
            return v
        def put(names, f):
            for x in names:
                ov[x] = f
        put(['std::env::args', 'std::env::args_os', 'args'], lambda it, a, f: It(tuple(argv)))
        def path(v):
            v = d(v)
            if isinstance(v, Str):
                return (v.s,)
            if isinstance(v, S) and v.t in ('path', 'string'):
                return v.f
            raise poly.Unsupported('not a path')
        CWD = ('CWD',)
        full = lambda v: path(v) if path(v)[0] == 'CWD' else CWD + path(v)
        put(['std::env::current_dir', 'current_dir'], lambda it, a, f: iomodel.ok(S('path', CWD)))
        def join(it, a, f):
            x, y = path(a[0]), path(a[1])
            return S('path', y if y[0] == 'CWD' else x + y)
        put(['Path::join', 'PathBuf::join'], join)
        def push(it, a, f):
            it.store(vn.lastref(it, a[0]), join(it, a, f))
            return UNIT
        put(['PathBuf::push'], push)
        idn = lambda it, a, f: a[0]
        put(['Path::new', 'PathBuf::from', 'Path::to_path_buf', 'String::as_str', 'PathBuf::as_path', 'AsRef::as_ref', 'Vec::as_slice'], idn)
        def opaque(it, a, f):
            v = d(a[0])
            return (a[0] if 'eref' in f['d'] or 'orrow' in f['d'] else v) if isinstance(v, S) and v.t in ('path', 'string', 'inst') else NotImplemented
        for x in ('Deref::deref', 'Clone::clone', 'ToOwned::to_owned', 'From::from', 'Into::into', 'Borrow::borrow', 'ToString::to_string', 'AsRef::as_ref'):
            ov[x] = opaque
        def parse(it, a, f):
            if path(a[0]) != ('N',):
                return iomodel.err('digits')
            return iomodel.ok(npub)
        put(['<impl str>::parse', 'str::parse', 'FromStr::from_str', '<usize as FromStr>::from_str'], parse)
        put(['load_as_spartan_inst', 'circuit_reader::load_as_spartan_inst'], lambda it, a, f: S('inst', (full(a[0]), a[1])))
        content, texts = [], []
        def bytes_of_inst(v):
            v = d(v)
            if not (isinstance(v, S) and v.t == 'inst'):
                raise poly.Unsupported('not an instance')
            v = v.f
            if v not in content:
                content.append(v)
                texts.append(tuple(poly.var('ser%d_%d' % (len(texts), i), 0, 255) for i in range(6)))
            return texts[content.index(v)]
        put(['bincode::serialize', 'serialize'], lambda it, a, f: iomodel.ok(S('vec', bytes_of_inst(a[0]))))
        def create(it, a, f):
            files.append([full(a[0]), ()])
            return iomodel.ok(S('wfile', (len(files) - 1,)))
        put(['File::create', 'std::fs::File::create'], create)
        def wf(v):
            v = d(v)
            while isinstance(v, S) and v.t != 'wfile' and len(v.f) == 1:
                v = d(v.f[0])
            if not (isinstance(v, S) and v.t == 'wfile'):
                raise poly.Unsupported('not an output file')
            return files[v.f[0]]
        def write_all(it, a, f):
            wf(a[0])[1] += tuple(it.items(a[1]))
            return iomodel.ok(UNIT)
        put(['Write::write_all', '<File as Write>::write_all', '<BufWriter as Write>::write_all'], write_all)
        def ser_into(it, a, f):
            wf(a[0])[1] += bytes_of_inst(a[1])
            return iomodel.ok(UNIT)
        put(['bincode::serialize_into', 'serialize_into'], ser_into)
        put(['BufWriter::new', 'BufWriter::with_capacity'], lambda it, a, f: a[-1])
        put(['Write::flush', 'File::sync_all', 'File::flush', '<File as Write>::flush', '<BufWriter as Write>::flush'], lambda it, a, f: iomodel.ok(UNIT))
        def fswrite(it, a, f):
            files.append([full(a[0]), tuple(it.items(a[1]))])
            return iomodel.ok(UNIT)
        put(['std::fs::write', 'fs::write'], fswrite)
        it.callfn('gen_spartan_inst::main', [])
        if it.panics:
            raise Fail('may panic on valid arguments: %r' % (it.panics[:1],))
        want = (CWD + ('IN',), npub)
        if [x[0] for x in files] != [CWD + ('OUT',)]:
            raise Fail('writes the files %s' % [ '/'.join(x[0]) for x in files])
        if content != [want] or len(files[0][1]) != 6 or any(x is not y for x, y in zip(files[0][1], texts[0])):
            raise Fail('the file written does not hold exactly the serialised instance of the first argument with %d public inputs' % npub)
        n += 1
    return '%d numbers of public inputs; the file holds exactly the serialised instance' % n

def run(c):
    quick = c.tier == 'quick'
    perms = list(itertools.permutations((1, 2, 3)))
    orders = perms + [p[:i] + (7,) + p[i:] for p in (perms if not quick else perms[:2]) for i in range(4)] + [(9,) + p[::-1] + (4, 5) for p in perms[:3]]
    tasks = []
    def layout(o):
        def f():
            for sh in SHAPES:
                contents(File(5, 1, 2, [[[None] * len(t) for t in cc] for cc in sh], o))
            return '%d files with unknown wires, coefficients, labels and prime' % len(SHAPES)
        return ('sections ' + ','.join(map(str, o)), F + 'from_reader', f)
    tasks += [layout(o) for o in orders]
    def counts():
        n = 0
        for nw in range(1, 9):
            for po in range(0, 4):
                for pi in range(0, 6):
                    f = File(nw, po, pi, [([0], [], [])])
                    it, k, v = read(f.data)
                    if 1 + po + pi > nw:
                        if k != 0:
                            raise Fail('%d public wires of %d wires are accepted' % (1 + po + pi, nw))
                        continue
                    if k != 1:
                        raise Fail('%d wires, %d outputs, %d inputs are refused' % (nw, po, pi))
                    it = interp(f.data)
                    r = it.callfn(name('circuit_reader::circom_reader::load_r1cs_from_bin_file'), [it.ref(S('path', ()))])
                    q = r.f[0]
                    got = [get(it.p, q, x) for x in ('num_inputs', 'num_variables', 'num_aux')]
                    if it.panics or got != [1 + po + pi, nw, nw - 1 - po - pi]:
                        raise Fail('%s instead of %s' % (got, [1 + po + pi, nw, nw - 1 - po - pi]))
                    rows(it, get(it.p, q, 'constraints'), f)
                    m = it.items(r.f[1])
                    for a, b in zip(m, f.map):
                        same(it, a, num(b), 'wire label')
                    n += 1
        it, k, v = read(File(3, 0, 0, [], n_in=2**32 - 1).data)
        if k != 0:
            raise Fail('2^32-1 public inputs of 3 wires are accepted')
        return '%d combinations' % n
    tasks.append(('counts', F + 'load_r1cs_from_bin', counts))
    def bad(key, gen):
        def f():
            n = 0
            for what, data in gen():
                it, k, v = read(data)
                if k != 0:
                    raise Fail('%s is accepted' % what)
                n += 1
            return '%d damaged files refused' % n
        return ('refused: ' + key, F + 'from_reader', f)
    C1 = SHAPES[3]
    mk = lambda **o: File(5, 1, 2, C1, unknown=False, **o).data
    tasks.append(bad('magic', lambda: [('magic number with byte %d changed' % i, mk(magic=bytes(b ^ (1 << k) if i == j else b for j, b in enumerate(b'r1cs')))) for i in range(4) for k in range(8)] + [('magic number ' + m.decode(), mk(magic=m)) for m in (b'scr1', b'R1CS', b'r1ds', b'wtns')]))
    tasks.append(bad('version', lambda: [('version %d' % v, mk(version=v)) for v in [0, 2, 3, 255] + [1 ^ (1 << k) for k in range(32)]]))
    tasks.append(bad('header size', lambda: [('header section size %d' % s, mk(size={1: s}, order=(2, 3, 1))) for s in list(range(0, 64)) + [65, 66, 96, 128, 2**32 + 64]]))
    tasks.append(bad('field size', lambda: [('field size %d' % s, mk(field_size=s)) for s in (0, 1, 8, 16, 24, 31, 33, 40, 48, 64)]))
    tasks.append(bad('map size', lambda: [('map section size %d' % s, mk(size={3: s}, order=(1, 2, 3))) for s in [x for x in range(0, 96) if x != 40] + [2**32 + 40]] + [('map of %d wires' % n, mk(map=[u64(0)] * n)) for n in (0, 1, 4, 6, 8)]))
    tasks.append(bad('wire map', lambda: [('wire 0 mapped to %d' % v, mk(map=[u64(v)] + [u64(i) for i in range(4)])) for v in [1 << k for k in range(64)] + [5]]))
    tasks.append(bad('no wires', lambda: [('a file without wires', File(0, 0, 0, [], unknown=False, map=[], n_wires=0, size={3: 0}).data)]))
    tasks.append(bad('missing section', lambda: [('a file with sections %s' % (o,), File(5, 1, 2, C1, o, unknown=False).data) for o in ((), (1,), (1, 2), (2, 3), (1, 3), (3,), (1, 2, 4), (9, 3, 2))]))
    def trunc():
        d = mk()
        return [('a file cut after %d of %d bytes' % (i, len(d)), d[:i]) for i in range(0, len(d), 1 if not quick else 1)]
    tasks.append(bad('truncated', trunc))
    def noncanon():
        for pos in ((0, 0, 0), (0, 0, 1), (0, 2, 2), (1, 0, 0), (1, 2, 0)):
            for val in (P_SECP, P_SECP + 1, 2**256 - 1):
                it, k, v = read(File(5, 1, 2, C1, coef={pos: tuple(val.to_bytes(32, 'little'))}).data)
                if k != 0:
                    raise Fail('coefficient %s above the modulus is accepted' % (pos,))
            for val in (0, 1, P_SECP - 1, 2**224 - 1, 2**255, 255, 2**248):
                contents(File(5, 1, 2, C1, coef={pos: tuple(val.to_bytes(32, 'little'))}))
        return 'refused above the modulus, exact below it'
    tasks.append(('coefficients', F + 'read_field', noncanon))
    # ---- the proof-system instance
    def inst(nw, po, pi, npub, sh):
        f = File(nw, po, pi, sh)
        it, r = instance(f, npub)
        if npub > po + pi:
            if r is not None:
                raise Fail('%d public inputs of a circuit with %d public wires are accepted' % (npub, po + pi))
            return
        if r is None:
            raise Fail('%d wires, %d outputs, %d inputs: cannot be built' % (nw, po, pi))
        p = it.p
        ri = get(p, r, 'inst')
        nv, nc = p2(max(nw, npub + 1)), max(2, p2(max(1, len(sh))))
        got = [get(p, ri, x) for x in ('num_cons', 'num_vars', 'num_inputs')]
        if got != [nc, nv, npub]:
            raise Fail('sizes %s instead of %s' % (got, [nc, nv, npub]))
        first = 1 + po + pi - npub
        col = lambda w: nv if w == 0 else nv + 1 + w - first if first <= w < first + npub else w
        for q, m in enumerate('ABC'):
            want, have = {}, {}
            for i, row in enumerate(f.cons):
                for w, v in row[q]:
                    want[i, col(w)] = add(want.get((i, col(w)), const(0)), v)
            for e in it.items(get(p, ri, m, 'M')):
                e = it.load(e) if isinstance(e, R) else e
                k = (get(p, e, 'row'), get(p, e, 'col'))
                have[k] = add(have.get(k, const(0)), vn.lift(get(p, e, 'val'), it))
            for k in set(want) | set(have):
                a, b = want.get(k, const(0)), have.get(k, const(0))
                if a.v != b.v:
                    raise Fail('entry (%s,%s) of %s of a circuit with %d wires, %d outputs, %d inputs (%d public inputs) is not the coefficient in the file' % (k[0], k[1], m, nw, po, pi, npub))
    def insts(nw):
        def f():
            n = 0
            for po, pi in ((0, 0), (0, 1), (0, 3), (1, 0), (1, 2), (2, 3), (0, 5)):
                if 1 + po + pi > nw:
                    continue
                for npub in sorted({0, pi, po + pi, po + pi + 1}):
                    for k in range(1, 4 if quick else 8):
                        sh = [([(r + j) % nw for j in range(min(nw, 1 + r))], [(2 * r + j) % nw for j in range(k)], [(nw - 1 - j - r) % nw for j in range(k)]) for r in range(k)]
                        inst(nw, po, pi, npub, sh)
                        n += 1
                    inst(nw, po, pi, npub, [(list(range(nw)), list(range(nw)), list(range(nw)))] * 3)
            return '%d instances' % n
        return ('instance with %d wires' % nw, FL + 'load_as_spartan_inst', f)
    tasks += [insts(n) for n in ((1, 2, 4, 5, 6, 8, 9) if quick else range(1, 18))]
    def range_():
        for w in (5, 6, 7, 8, 100):
            for q in range(3):
                t = [[0], [1], [2]]
                t[q] = [0, w]
                it, r = instance(File(5, 0, 2, [t]), 2)
                if r is not None:
                    raise Fail('wire %d of a circuit with 5 wires is accepted' % w)
        return 'wires beyond the last are refused'
    tasks.append(('wire range', FL + 'load_as_spartan_inst', range_))
    tasks.append(('command', 'packages/circuit_reader/src/bin/gen_spartan_inst.rs main', command))
    pcheck.par(c, tasks)
    c.assumptions += ['layouts as listed; contents are unknown bytes; a read of the file returns its next bytes', 'the scalar type of elliptic-curve decodes exactly the canonical encodings']
    return __doc__

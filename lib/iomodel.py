"""Abstract files and hash maps for the constraint-file and witness readers.  A file is a list of bytes, each a constant or
an unknown; its reader is a position in it.  A map has constant keys."""
import poly, vn, models
from absint import S, E, R, Dom, UNIT, It
from poly import P, Unsupported
from vn import V, deref1, lastref, bitems
from fields import P_SECP

class Rd(Dom):
    __slots__ = ('data', 'pos')
    def __init__(self, data, pos=0):
        self.data, self.pos = tuple(data), pos
    def __eq__(self, o):
        return isinstance(o, Rd) and self.pos == o.pos and self.data == o.data
    def __hash__(self):
        return hash(self.pos)
class Err(Dom):
    __slots__ = ('what',)
    def __init__(self, what='io'):
        self.what = what
    def __eq__(self, o):
        return isinstance(o, Err)
    def __hash__(self):
        return 11
    def merge(self, it, c, o):
        return self

def ok(x):
    return E('Result', ((0, 1, (x,)),))
def err(what):
    return E('Result', ((1, 1, (Err(what),)),))

def ints(x, what):
    if not isinstance(x, int):
        raise Unsupported('%s depends on unknown bytes' % what)
    return x

def scalarcore(x, it):
    x = deref1(it, x)
    if isinstance(x, V):
        return x
    ws = []
    def walk(v):
        v = deref1(it, v)
        if isinstance(v, S):
            for y in v.f:
                walk(y)
        else:
            ws.append(v)
    walk(x)
    if len(ws) == 1 and isinstance(ws[0], V):
        return ws[0]
    if len(ws) != 4 or any(not isinstance(w, int) for w in ws):
        raise Unsupported('scalar of an unexpected form')
    return vn.const(sum((w % 2**64) << (64 * i) for i, w in enumerate(ws)))

def core_of_bytes(xs):
    """little-endian bytes"""
    x = vn.from_words(xs)
    if all(isinstance(b, int) for b in xs):
        good = 1 if sum((b % 256) << (8 * j) for j, b in enumerate(xs)) < P_SECP else 0
    elif vn._W.get(tuple(vn.aid(b) for b in xs), ('',))[0] == 's':
        good = 1
    else:
        good = poly.of_atom(poly.atom('canonical', x.v, 0, 1, ('canonical', x.v)))
    return S('ctopt', (x, good))

def overrides(it):
    ov = it.overrides
    def put(names, f):
        for n in names:
            ov[n] = f
    SC = 'secq256k1::elliptic_curve::ScalarCore::<secq256k1::Secq256K1>::'
    for pre in (SC, 'ScalarCore::'):
        ov[pre + 'from_be_bytes'] = lambda it, a, f: core_of_bytes(bitems_arr(it, a[0])[::-1])
        ov[pre + 'from_le_bytes'] = lambda it, a, f: core_of_bytes(bitems_arr(it, a[0]))
        ov[pre + 'to_be_bytes'] = lambda it, a, f: like_ga(vn.scalar_bytes(scalarcore(a[0], it))[::-1])
        ov[pre + 'to_le_bytes'] = lambda it, a, f: like_ga(vn.scalar_bytes(scalarcore(a[0], it)))
    def into(it, a, f):
        if 'GenericArray' in (f['n'] or '') and isinstance(a[0], S) and a[0].t == 'arr':
            return a[0]
        return NotImplemented
    put(['Into::into', 'From::from'], into)
    def rd(it, r):
        x = deref1(it, r)
        if not isinstance(x, Rd):
            raise Unsupported('not a file')
        return x
    def read_exact(it, a, f):
        x = rd(it, a[0])
        buf = vn.deref1s(it, a[1])
        n = it.length(buf)
        n = ints(n, 'the length of a read')
        if x.pos + n > len(x.data):
            it.store(lastref(it, a[0]), Rd(x.data, len(x.data)))
            return err('eof')
        for i in range(n):
            it.store(it.subref(buf, i), x.data[x.pos + i])
        it.store(lastref(it, a[0]), Rd(x.data, x.pos + n))
        return ok(UNIT)
    def seek(it, a, f):
        x, w = rd(it, a[0]), deref1(it, a[1])
        out = None
        for v, k, fs in w.alts:
            if isinstance(k, int) and k == 1:
                n = ints(fs[0], 'a file offset')
                n = n - 2**64 if v != 0 and n >= 2**63 else n
                out = (n, len(x.data) + n, x.pos + n)[v]
        if out is None:
            raise Unsupported('seek to an undetermined position')
        if out < 0:
            return err('seek')
        it.store(lastref(it, a[0]), Rd(x.data, out))
        return ok(out)
    def position(it, a, f):
        return ok(rd(it, a[0]).pos)
    def read_to_end(it, a, f):
        x = rd(it, a[0])
        r = lastref(it, a[1])
        it.store(r, S('vec', tuple(it.items(a[1])) + x.data[x.pos:]))
        it.store(lastref(it, a[0]), Rd(x.data, len(x.data)))
        return ok(len(x.data) - x.pos)
    for T in ('BufReader<File>', 'File'):
        ov['<%s as Read>::read_exact' % T] = read_exact
        ov['<%s as Read>::read_to_end' % T] = read_to_end
        ov['<%s as Seek>::seek' % T] = seek
        ov['<%s as Seek>::stream_position' % T] = position
    def sref(it, r):
        """the reference to the slice that is being read"""
        while True:
            x = it.load(r)
            if not isinstance(x, R):
                raise Unsupported('read from something that is not a slice')
            if not isinstance(x.rng is None and it.load(x), R):
                return r
            r = x
    def take(it, r, n):
        """the next n bytes of a slice, or None"""
        r = sref(it, r)
        x = it.load(r)
        have = it.length(x)
        if n > have:
            it.store(r, it.subslice(x, have, have))
            return None
        out = [deref1(it, it.load(it.subref(x, i))) for i in range(n)]
        it.store(r, it.subslice(x, n, have))
        return out
    def sread_exact(it, a, f):
        buf = vn.deref1s(it, a[1])
        n = ints(it.length(buf), 'the length of a read')
        xs = take(it, a[0], n)
        if xs is None:
            return err('eof')
        for i in range(n):
            it.store(it.subref(buf, i), xs[i])
        return ok(UNIT)
    for T in ('&[u8]', '&mut &[u8]', '&[T]', '&mut R'):
        ov['<%s as Read>::read_exact' % T] = sread_exact
    ov['<impl Read for &[u8]>::read_exact'] = sread_exact
    def number(w):
        def g(it, a, f):
            big = 'BigEndian' in (f['n'] or '')
            r = deep(it, a[0])
            x = it.load(r)
            if isinstance(x, Rd):
                if x.pos + w > len(x.data):
                    it.store(r, Rd(x.data, len(x.data)))
                    return err('eof')
                bs = x.data[x.pos:x.pos + w]
                it.store(r, Rd(x.data, x.pos + w))
            else:
                bs = take(it, a[0], w)
                if bs is None:
                    return err('eof')
                bs = tuple(bs)
            t = 0
            for j, b in enumerate(bs[::-1] if big else bs):
                t = poly.add(t, poly.scale(b, 1 << (8 * j)))
            return ok(t)
        return g
    for w in (8, 16, 32, 64):
        ov['ReadBytesExt::read_u%d' % w] = number(w // 8)
    put(['BufReader::new', 'BufReader::with_capacity'], lambda it, a, f: a[-1])
    FLAGS = ('read', 'write', 'append', 'truncate', 'create', 'create_new')
    put(['OpenOptions::new', 'File::options'], lambda it, a, f: S('openoptions', (0,) * 6))
    def flag(i):
        def h(it, a, f):
            r = lastref(it, a[0])
            o = it.load(r)
            if not isinstance(a[1], int):
                raise Unsupported('undetermined open mode')
            it.store(r, S('openoptions', o.f[:i] + (a[1],) + o.f[i + 1:]))
            return a[0]
        return h
    for i, nm in enumerate(FLAGS):
        put(['OpenOptions::' + nm], flag(i))
    def opened(it, a, f):
        o = it.load(lastref(it, a[0]))
        rd, wr, ap, tr, cr, cn = o.f
        if not rd or (tr or cr or cn) and not (wr or ap) or tr and ap or cn:
            return err('mode')              # not readable, an invalid combination, or an existing file refused
        return ok(Rd(() if tr else it.filedata))
    put(['OpenOptions::open'], opened)
    put(['File::open'], lambda it, a, f: ok(Rd(it.filedata)))
    put(['fs::read', 'std::fs::read'], lambda it, a, f: ok(S('vec', tuple(it.filedata))))
    put(['<impl Error>::new', 'Error::new', 'Error::from', 'Error::other', '<Error as From<ErrorKind>>::from'], lambda it, a, f: Err('data'))

def deep(it, r):
    """the innermost reference of a chain of references"""
    while True:
        x = it.load(r)
        if not isinstance(x, R):
            return r
        r = x
def _raise(x):
    raise Unsupported(x)
def bitems_arr(it, x):
    x = deref1(it, x)
    out = []
    def walk(v):
        v = deref1(it, v)
        if isinstance(v, S):
            for y in v.f:
                walk(y)
        else:
            out.append(v)
    walk(x)
    if len(out) != 32:
        raise Unsupported('%d bytes instead of 32' % len(out))
    return out
def like_ga(bs):
    return S('arr', tuple(bs))

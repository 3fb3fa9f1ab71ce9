"""Exact rational functions in one indeterminate u over a prime field, and elements a + b*y with y^2 a rational function."""
class Ring:
    def __init__(self, p):
        self.p = p
    def padd(self, a, b):
        n = max(len(a), len(b))
        return self.trim([((a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0)) % self.p for i in range(n)])
    def pmul(self, a, b):
        if not a or not b:
            return []
        c = [0] * (len(a) + len(b) - 1)
        for i, x in enumerate(a):
            if x:
                for j, y in enumerate(b):
                    c[i + j] += x * y
        return self.trim([x % self.p for x in c])
    @staticmethod
    def trim(a):
        while a and not a[-1]:
            a.pop()
        return a
    def pdivmod(self, a, b):
        a, q = list(a), [0] * max(len(a) - len(b) + 1, 0)
        inv = pow(b[-1], -1, self.p)
        for i in range(len(a) - len(b), -1, -1):
            k = a[i + len(b) - 1] * inv % self.p
            q[i] = k
            if k:
                for j, y in enumerate(b):
                    a[i + j] = (a[i + j] - k * y) % self.p
        return self.trim(q), self.trim(a)
    def pgcd(self, a, b):
        a, b = list(a), list(b)
        while b:
            a, b = b, self.pdivmod(a, b)[1]
        if not a:
            return []
        inv = pow(a[-1], -1, self.p)
        return [x * inv % self.p for x in a]
    def ppow(self, a, n, m):
        """a^n mod m"""
        r = [1]
        a = self.pdivmod(a, m)[1]
        while n:
            if n & 1:
                r = self.pdivmod(self.pmul(r, a), m)[1]
            a = self.pdivmod(self.pmul(a, a), m)[1]
            n >>= 1
        return r
    def roots(self, f):
        """all roots of f in the prime field"""
        f = self.trim([x % self.p for x in f])
        if len(f) < 2:
            return []
        g = self.pgcd(f, self.padd(self.ppow([0, 1], self.p, f), [0, self.p - 1]))
        out = []
        def split(g, s):
            if len(g) == 1:
                return
            if len(g) == 2:
                out.append(-g[0] * pow(g[1], -1, self.p) % self.p)
                return
            while True:
                h = self.pgcd(g, self.padd(self.ppow([s, 1], (self.p - 1) // 2, g), [self.p - 1]))
                s += 1
                if 1 < len(h) < len(g):
                    split(h, s)
                    split(self.pdivmod(g, h)[0], s)
                    return
        split(g, 1)
        return sorted(out)
    def peval(self, a, x):
        r = 0
        for c in reversed(a):
            r = (r * x + c) % self.p
        return r
    def square(self, x):
        return x % self.p == 0 or pow(x, (self.p - 1) // 2, self.p) == 1

class Q:
    """fraction of polynomials in u"""
    __slots__ = ('R', 'n', 'd')
    def __init__(self, R, n, d=None):
        d = [1] if d is None else d
        if not d:
            raise ZeroDivisionError
        if not n:
            d = [1]
        elif len(d) > 1:
            g = R.pgcd(n, d)
            if len(g) > 1:
                n, d = R.pdivmod(n, g)[0], R.pdivmod(d, g)[0]
        k = pow(d[-1], -1, R.p)
        self.R, self.n, self.d = R, [x * k % R.p for x in n], [x * k % R.p for x in d]
    def __add__(a, b):
        R = a.R
        return Q(R, R.padd(R.pmul(a.n, b.d), R.pmul(b.n, a.d)), R.pmul(a.d, b.d))
    def __mul__(a, b):
        return Q(a.R, a.R.pmul(a.n, b.n), a.R.pmul(a.d, b.d))
    def __neg__(a):
        return Q(a.R, [-x % a.R.p for x in a.n], a.d)
    def __sub__(a, b):
        return a + -b
    def inv(a):
        return Q(a.R, a.d, a.n)
    def __eq__(a, b):
        return a.n == b.n and a.d == b.d
    def zero(a):
        return not a.n

class Y:
    """a + b*y, y^2 = w"""
    __slots__ = ('w', 'a', 'b')
    def __init__(self, w, a, b):
        self.w, self.a, self.b = w, a, b
    def __add__(s, o):
        return Y(s.w, s.a + o.a, s.b + o.b)
    def __neg__(s):
        return Y(s.w, -s.a, -s.b)
    def __sub__(s, o):
        return s + -o
    def __mul__(s, o):
        z = s.a * o.a
        if not (s.b.zero() or o.b.zero()):
            z = z + s.b * o.b * s.w
        return Y(s.w, z, s.a * o.b + s.b * o.a)
    def inv(s):
        n = s.a * s.a
        if not s.b.zero():
            n = n - s.b * s.b * s.w
        n = n.inv()
        return Y(s.w, s.a * n, -s.b * n)
    def __eq__(s, o):
        return s.a == o.a and s.b == o.b
    def zero(s):
        return s.a.zero() and s.b.zero()

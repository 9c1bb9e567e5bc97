"""Reference arithmetic for the command-line suites (independent of the library; plain Python integers)."""
from fractions import Fraction
from math import gcd

INT_MIN, INT_MAX = -(1 << 31), (1 << 31) - 1


class Refuse(Exception):
    """The operation has no value: the tool has to say so."""


class Unrep(Exception):
    """A step has a value the machine types cannot hold: outside the domain, the case is dropped."""


def factor_int(n):
    f, d = {}, 2
    while d * d <= n:
        while n % d == 0:
            f[d] = f.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


def totient(n):
    r = n
    for p in factor_int(n):
        r = r // p * (p - 1)
    return r


def is_prime(n):
    return n > 1 and factor_int(n) == {n: 1}


class Ring:
    field = False
    ordered = False

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def pow(self, a, e):
        """What '^' means on the command line."""
        if a == self.zero:
            if e <= 0:
                raise Refuse("0 ^ %d" % e)
            return self.zero
        if e == 0:
            return self.one
        if e < 0:
            a, e = self.inv(a), -e
        r = self.one
        while e:
            if e & 1:
                r = self.mul(r, a)
            e >>= 1
            if e:
                a = self.mul(a, a)
        return r

    def lt(self, a, b):
        return a < b


class ZRing(Ring):
    zero, one, ordered = 0, 1, True

    def ck(self, x):
        if not INT_MIN < x <= INT_MAX:
            raise Unrep()
        return x

    def add(self, a, b): return self.ck(a + b)
    def neg(self, a): return self.ck(-a)
    def mul(self, a, b): return self.ck(a * b)

    def div(self, a, b):
        if b == 0:
            raise Refuse("division by zero")
        q = abs(a) // abs(b)
        return self.ck(q if (a < 0) == (b < 0) else -q)

    def mod(self, a, b):
        if b == 0:
            raise Refuse("division by zero")
        return self.ck(a - b * self.div(a, b))

    def inv(self, a):
        if a in (1, -1):
            return a
        raise Refuse("not a unit")

    def rand(self, r):
        return r.choice([0, 1, -1, 2, 3, r.randint(-9, 9), r.randint(-200, 200), r.randint(-40000, 40000)])

    def show(self, a, r=None): return str(a)
    def parse(self, s): return int(s)


class QRing(ZRing):
    zero, one, field = Fraction(0), Fraction(1), True

    def ck(self, x):
        if not (abs(x.numerator) <= INT_MAX and x.denominator <= INT_MAX):
            raise Unrep()
        return x

    def div(self, a, b): return self.mul(a, self.inv(b))

    def mod(self, a, b):
        if b == 0:
            raise Refuse("division by zero")
        return self.zero

    def inv(self, a):
        if a == 0:
            raise Refuse("division by zero")
        return 1 / a

    def rand(self, r):
        return r.choice([Fraction(0), Fraction(1), Fraction(r.randint(-9, 9)), Fraction(r.randint(-30, 30), r.randint(1, 30)),
                         Fraction(r.randint(-3000, 3000), r.randint(1, 3000))])

    def show(self, a, r=None): return str(a)
    def parse(self, s): return Fraction(s)


class Zmod(Ring):
    zero, one, ordered = 0, 1, True

    def __init__(self, m):
        self.m, self.q, self.field = m, m, is_prime(m)
        self.p, self.deg = m, 1

    def add(self, a, b): return (a + b) % self.m
    def neg(self, a): return -a % self.m
    def mul(self, a, b): return a * b % self.m

    def inv(self, a):
        if gcd(a, self.m) != 1:
            raise Refuse("not a unit")
        return pow(a, -1, self.m)

    def div(self, a, b): return self.mul(a, self.inv(b))

    def mod(self, a, b):
        self.inv(b)
        return 0

    def rand(self, r): return r.choice([0, 1, self.m - 1, r.randrange(self.m), r.randrange(self.m), r.randrange(self.m)])

    def show(self, a, r=None):
        if r and r.random() < .15 and a:
            return str(a - self.m)
        return str(a)

    def parse(self, s): return int(s)
    def elements(self): return range(self.m)
    def fromint(self, k): return k % self.m


class PolyRing(Ring):
    """F[x]; polynomials are tuples of coefficients, lowest first, no trailing zero."""
    zero = ()

    def __init__(self, F):
        self.F = F
        self.one = (F.one,)
        self.x = (F.zero, F.one)
        self.kind = ("q" if isinstance(F, QRing) else "f2" if isinstance(F, Zmod) and F.m == 2 and F.bits else
                     "fp" if isinstance(F, Zmod) else "ext")

    def trim(self, a):
        a = list(a)
        while a and a[-1] == self.F.zero:
            a.pop()
        return tuple(a)

    def deg(self, a): return len(a) - 1

    def add(self, a, b):
        F, n = self.F, max(len(a), len(b))
        a, b = a + (F.zero,) * (n - len(a)), b + (F.zero,) * (n - len(b))
        return self.trim(F.add(x, y) for x, y in zip(a, b))

    def neg(self, a): return tuple(self.F.neg(x) for x in a)

    def mul(self, a, b):
        F = self.F
        if not a or not b:
            return ()
        r = [F.zero] * (len(a) + len(b) - 1)
        for i, x in enumerate(a):
            if x != F.zero:
                for j, y in enumerate(b):
                    r[i + j] = F.add(r[i + j], F.mul(x, y))
        return self.trim(r)

    def divmod(self, a, b):
        F = self.F
        if not b:
            raise Refuse("division by zero")
        li, a, q = F.inv(b[-1]), list(a), [F.zero] * max(0, len(a) - len(b) + 1)
        for i in range(len(a) - len(b), -1, -1):
            c = F.mul(a[i + len(b) - 1], li)
            q[i] = c
            if c != F.zero:
                for j, y in enumerate(b):
                    a[i + j] = F.sub(a[i + j], F.mul(c, y))
        return self.trim(q), self.trim(a[:len(b) - 1])

    def div(self, a, b): return self.divmod(a, b)[0]
    def mod(self, a, b): return self.divmod(a, b)[1]

    def inv(self, a):
        if len(a) != 1:
            raise Refuse("not a unit")
        return (self.F.inv(a[0]),)

    def monic(self, a):
        return self.mul(a, (self.F.inv(a[-1]),)) if a else a

    def gcd(self, a, b):
        while b:
            a, b = b, self.mod(a, b)
        return self.monic(a)

    def powmod(self, a, e, m):
        r, a = self.mod(self.one, m), self.mod(a, m)
        while e:
            if e & 1:
                r = self.mod(self.mul(r, a), m)
            a = self.mod(self.mul(a, a), m)
            e >>= 1
        return r

    def irreducible(self, f):
        """Rabin's test."""
        n = self.deg(f)
        if n < 1:
            return False
        q, h, hs = self.F.q, self.x, {}
        for i in range(1, n + 1):
            h = self.powmod(h, q, f)
            hs[i] = h
        if self.sub(hs[n], self.mod(self.x, f)) != ():
            return False
        return all(self.gcd(self.sub(hs[n // p], self.x), f) == self.one for p in factor_int(n))

    def eval(self, f, c):
        r = self.F.zero
        for k in reversed(f):
            r = self.F.add(self.F.mul(r, c), k)
        return r

    def deriv(self, f):
        F = self.F
        out = []
        for i in range(1, len(f)):
            c = F.zero
            for _ in range(i % F.p):
                c = F.add(c, f[i])
            out.append(c)
        return self.trim(out)

    def exact(self, r, d):
        return tuple(self.F.rand(r) for _ in range(d)) + (self.nz(r),)

    def nz(self, r):
        while True:
            c = self.F.rand(r)
            if c != self.F.zero:
                return c

    def monicrand(self, r, d): return tuple(self.F.rand(r) for _ in range(d)) + (self.F.one,)

    def randirr(self, r, d):
        while True:
            f = self.monicrand(r, d)
            if self.irreducible(f):
                return f

    def rand(self, r, maxd=None):
        maxd = maxd if maxd is not None else {"f2": 12, "fp": 5, "q": 3, "ext": 3}[self.kind]
        k = r.random()
        if k < .08:
            return ()
        if k < .16:
            return self.one
        if k < .24:
            return self.trim((self.F.rand(r),))
        return self.exact(r, r.randint(0, maxd))

    def show(self, a, r=None):
        a = a or (self.F.zero,)
        if self.kind == "f2":
            s = "%x" % sum(c << i for i, c in enumerate(a))
            return s.upper() if r and r.random() < .1 else s
        if self.kind == "ext":
            return ":".join(self.F.P.show(x) for x in reversed(a))
        c = [self.F.show(x) for x in reversed(a)]
        if self.kind == "q":
            return ",".join(c) if len(c) > 1 else "0," + c[0]
        if self.F.m <= 9 and not (r and r.random() < .2 and len(c) > 1):
            return "".join(c)
        return ",".join(c)

    def parse(self, s):
        if self.kind == "f2":
            n = int(s, 16)
            return tuple((n >> i) & 1 for i in range(n.bit_length()))
        if self.kind == "ext":
            c = s.split(":")
        elif self.kind == "q" or "," in s or self.F.m > 9:
            c = s.split(",")
        else:
            c = list(s)
        c = [self.F.parse(x) for x in reversed(c)]
        for x in c:
            if isinstance(self.F, Zmod) and not 0 <= x < self.F.m:
                raise ValueError("coefficient out of range in " + s)
        return self.trim(c)

    def lt(self, a, b):
        return (len(a), tuple(reversed(a))) < (len(b), tuple(reversed(b)))

    def fromint(self, k): return self.trim((self.F.fromint(k),))


class Quot(Ring):
    """F[x]/(m)."""
    zero = ()

    def __init__(self, P, m, field=None):
        self.P, self.mod_, self.m = P, m, m
        self.one = P.mod(P.one, m)
        self.field = P.irreducible(m) if field is None else field
        self.q = P.F.q ** P.deg(m)
        self.p, self.n = P.F.p, P.deg(m)

    def add(self, a, b): return self.P.add(a, b)
    def neg(self, a): return self.P.neg(a)
    def mul(self, a, b): return self.P.mod(self.P.mul(a, b), self.m)

    def inv(self, a):
        P = self.P
        r0, r1, s0, s1 = self.m, a, (), P.one
        while r1:
            q, rem = P.divmod(r0, r1)
            r0, r1, s0, s1 = r1, rem, s1, P.sub(s0, P.mul(q, s1))
        if len(r0) != 1:
            raise Refuse("not a unit")
        return P.mod(P.mul(s0, P.inv(r0)), self.m)

    def isunit(self, a):
        try:
            self.inv(a)
            return True
        except Refuse:
            return False

    def div(self, a, b): return self.mul(a, self.inv(b))

    def mod(self, a, b):
        self.inv(b)
        return self.zero

    def rand(self, r):
        k = r.random()
        if k < .1:
            return ()
        if k < .2:
            return self.one
        return self.P.trim(self.P.F.rand(r) for _ in range(self.n))

    def show(self, a, r=None):
        """As spiff prints it, with leading zeros; or, given a random source, one of the accepted spellings."""
        if r and r.random() < .7:
            return self.P.show(a, r)
        a = tuple(a) + (self.P.F.zero,) * (self.n - len(a))
        if self.P.kind == "f2":
            return self.P.show(a).zfill((self.n + 3) // 4)
        return self.P.show(a)

    def parse(self, s):
        a = self.P.parse(s)
        if len(a) > self.n:
            raise ValueError("not reduced: " + s)
        return a

    def elements(self):
        """In increasing order."""
        E = [()]
        for _ in range(self.n):
            E = [(c,) + e for e in E for c in self.P.F.elements()]
        return [self.P.trim(e) for e in E] if self.n else [()]

    def fromint(self, k): return self.P.trim((self.P.F.fromint(k),))
    def lt(self, a, b): return self.P.lt(a, b)


class RatRing(Ring):
    """F(x) in lowest terms with monic denominator."""
    field = True

    def __init__(self, P):
        self.P = P
        self.zero, self.one = ((), P.one), (P.one, P.one)

    def norm(self, n, d):
        P = self.P
        if not d:
            raise Refuse("division by zero")
        g = P.gcd(n, d)
        n, d = P.div(n, g), P.div(d, g)
        l = (P.F.inv(d[-1]),)
        return P.mul(n, l), P.mul(d, l)

    def add(self, a, b): return self.norm(self.P.add(self.P.mul(a[0], b[1]), self.P.mul(b[0], a[1])), self.P.mul(a[1], b[1]))
    def neg(self, a): return (self.P.neg(a[0]), a[1])
    def mul(self, a, b): return self.norm(self.P.mul(a[0], b[0]), self.P.mul(a[1], b[1]))
    def inv(self, a): return self.norm(a[1], a[0])
    def div(self, a, b): return self.mul(a, self.inv(b))

    def mod(self, a, b):
        self.inv(b)
        return self.zero

    def rand(self, r):
        n, d = self.P.rand(r, 3), self.P.rand(r, 3)
        return self.norm(n, d or self.P.one)

    def show(self, a, r=None):
        if a[1] == self.P.one and not (r and r.random() < .2):
            return self.P.show(a[0], r)
        return self.P.show(a[0], r) + "/" + self.P.show(a[1], r)

    def parse(self, s):
        n, _, d = s.partition("/")
        a = (self.P.parse(n), self.P.parse(d) if d else self.P.one)
        if self.norm(*a)[0] != a[0] and self.P.F.q == 2:
            raise ValueError("not in lowest terms: " + s)
        return self.norm(*a)


class F2(Zmod):
    bits = True

    def __init__(self): Zmod.__init__(self, 2)
    def show(self, a, r=None): return str(a)


Zmod.bits = False


# ---------------------------------------------------------------- matrices (lists of rows)
class Mat:
    def __init__(self, R): self.R = R
    def add(self, A, B): return [[self.R.add(x, y) for x, y in zip(a, b)] for a, b in zip(A, B)]
    def neg(self, A): return [[self.R.neg(x) for x in a] for a in A]
    def sub(self, A, B): return self.add(A, self.neg(B))

    def mul(self, A, B):
        R, out = self.R, []
        for a in A:
            row = []
            for j in range(len(B[0])):
                s = R.zero
                for k in range(len(B)):
                    s = R.add(s, R.mul(a[k], B[k][j]))
                row.append(s)
            out.append(row)
        return out

    def transpose(self, A): return [list(c) for c in zip(*A)]
    def eye(self, n): return [[self.R.one if i == j else self.R.zero for j in range(n)] for i in range(n)]

    def guard(self, A):
        # rationals have to stay representable in whatever order the elimination goes
        if isinstance(self.R, QRing) and any(abs(x.numerator) > 12 or x.denominator > 4 for a in A for x in a):
            raise Unrep()

    def rref(self, A):
        self.guard(A)
        R, A, piv, r = self.R, [list(a) for a in A], [], 0
        for c in range(len(A[0])):
            k = next((i for i in range(r, len(A)) if A[i][c] != R.zero), None)
            if k is None:
                continue
            A[r], A[k] = A[k], A[r]
            v = R.inv(A[r][c])
            A[r] = [R.mul(v, x) for x in A[r]]
            for i in range(len(A)):
                if i != r and A[i][c] != R.zero:
                    f = A[i][c]
                    A[i] = [R.sub(x, R.mul(f, y)) for x, y in zip(A[i], A[r])]
            piv.append(c)
            r += 1
            if r == len(A):
                break
        return A, piv

    def rank(self, A): return len(self.rref(A)[1])

    def det(self, A):
        self.guard(A)
        R, A, n, d = self.R, [list(a) for a in A], len(A), self.R.one
        for c in range(n):
            k = next((i for i in range(c, n) if A[i][c] != R.zero), None)
            if k is None:
                return R.zero
            if k != c:
                A[c], A[k] = A[k], A[c]
                d = R.neg(d)
            d = R.mul(d, A[c][c])
            v = R.inv(A[c][c])
            for i in range(c + 1, n):
                if A[i][c] != R.zero:
                    f = R.mul(A[i][c], v)
                    A[i] = [R.sub(x, R.mul(f, y)) for x, y in zip(A[i], A[c])]
        return d

    def inv(self, A):
        n = len(A)
        B, piv = self.rref([list(a) + e for a, e in zip(A, self.eye(n))])
        if piv != list(range(n)):
            raise Refuse("singular")
        return [b[n:] for b in B]

    def iszero(self, A): return all(x == self.R.zero for a in A for x in a)

    def pow(self, A, e):
        if len(A) != len(A[0]):
            raise Refuse("not square")
        if self.iszero(A):
            if e <= 0:
                raise Refuse("zero matrix")
            return A
        if e <= 0:
            A, e = self.inv(A), -e   # power 0 of a singular matrix is not claimed
        r = self.eye(len(A))
        for _ in range(e):
            r = self.mul(r, A)
        return r

    def charpoly(self, A):
        """Faddeev-free: determinant of xI - A by expansion over permutations is too slow; Hessenberg form."""
        R, n = self.R, len(A)
        H = [list(a) for a in A]
        for c in range(n - 2):
            k = next((i for i in range(c + 1, n) if H[i][c] != R.zero), None)
            if k is None:
                continue
            if k != c + 1:
                H[k], H[c + 1] = H[c + 1], H[k]
                for row in H:
                    row[k], row[c + 1] = row[c + 1], row[k]
            v = R.inv(H[c + 1][c])
            for i in range(c + 2, n):
                if H[i][c] != R.zero:
                    f = R.mul(H[i][c], v)
                    H[i] = [R.sub(x, R.mul(f, y)) for x, y in zip(H[i], H[c + 1])]
                    for row in H:
                        row[c + 1] = R.add(row[c + 1], R.mul(f, row[i]))
        P = PolyRing(R)
        ps = [P.one]
        for k in range(n):
            p = P.sub(P.mul(P.x, ps[k]), P.mul(P.trim((H[k][k],)), ps[k]))
            t = R.one
            for i in range(k - 1, -1, -1):
                t = R.mul(t, H[i + 1][i])
                p = P.sub(p, P.mul(P.trim((R.mul(H[i][k], t),)), ps[i]))
            ps.append(p)
        return ps[n]

    def rand(self, r, n, m, low=None):
        A = [[self.R.rand(r) for _ in range(m)] for _ in range(n)]
        if isinstance(self.R, QRing):
            A = [[Fraction(r.randint(-4, 4), r.choice([1, 1, 1, 1, 2, 3])) for _ in range(m)] for _ in range(n)]
        if n > 1 and r.random() < .25:   # dependent rows
            A[r.randrange(n)] = list(A[r.randrange(n)])
        return A

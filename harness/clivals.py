"""Value suites: every spiff command that is not an expression evaluator, against exact arithmetic in Python."""
import os
from math import gcd
import pyref
from pyref import (F2, Fraction, Mat, PolyRing, QRing, Quot, RatRing, Refuse, Unrep, ZRing, Zmod, factor_int, is_prime)
from clisuites import SUITES, f2mod, fpmod, suite, ctx

SMALLP = [2, 3, 3, 5, 5, 7, 11, 13]


class Spec:
    """One command line and what must come out: the exact lines, or a judge of the lines, or a refusal."""

    def __init__(self, argv, want=None, chk=None, refuse=None, stdin=None, files=None):
        self.argv, self.want, self.chk, self.refuse, self.stdin, self.files = argv, want, chk, refuse, stdin, files or {}


GEN = {}     # command (with a suffix when it has several forms) -> generator
PROP = {}    # property -> generator names


def gen(prop, *names):
    def deco(fn):
        for n in names or (fn.__name__,):
            GEN[n] = fn if not names else (lambda r, fn=fn, n=n: fn(r, n))
            PROP.setdefault(prop, []).append(n)
        return fn
    return deco


def place(c, s):
    c.files = s.files
    for n, text in s.files.items():
        with open(os.path.join(c.cwd, n), "w") as f:
            f.write(text)


def judge(c, name, s):
    place(c, s)
    c.input((s.argv, s.stdin, sorted(s.files.items())))
    if s.refuse:
        return c.refused(s.argv, s.refuse, s.stdin)
    o = c.run(s.argv, s.stdin)
    if o.crash:
        return
    if getattr(s, "orrefused", False) and not o.hang and o.out == "" and o.err.strip() != "":
        c.event("refused")
        return
    if o.hang or o.flood or o.err != "":
        c.check(False, name, "%s: %s" % (" ".join(s.argv), o.describe()))
        return
    lines = o.out.split("\n")
    while lines and lines[-1] == "":
        lines.pop()
    if s.want is not None:
        bad = None if lines == s.want else "expected %r" % (s.want[:20],)
    else:
        try:
            bad = s.chk(lines)
        except (ValueError, IndexError, KeyError, Refuse) as e:
            bad = "unreadable (%s: %s)" % (type(e).__name__, e)
    c.check(bad is None, name, lambda: "%s prints %r: %s" % (" ".join(s.argv) + (" < %r" % s.stdin if s.stdin else "") +
                                                            (" files %r" % s.files if s.files else ""), o.out[:400], bad))
    c.sample("%s -> %s" % (" ".join(s.argv), "|".join(lines)[:80]))


def many(r, one, lo=1, hi=4):
    return [one() for _ in range(r.choice([1, 1, 2, 3, r.randint(lo, hi)]))]


def labelled(shown, values, sep=": "):
    """Lines with the operand in front when there are several."""
    if len(shown) == 1:
        return [str(values[0])]
    return ["%s%s%s" % (s, sep, v) for s, v in zip(shown, values)]


def strip_label(lines, shown, sep=": "):
    if len(lines) != len(shown):
        raise ValueError("%d lines for %d operands" % (len(lines), len(shown)))
    if len(shown) == 1:
        return lines
    out = []
    for l, s in zip(lines, shown):
        if not l.startswith(s + sep):
            raise ValueError("label of %r in %r" % (s, l))
        out.append(l[len(s + sep):])
    return out


# ---------------------------------------------------------------- integers
def anyint(r, big=True):
    return r.choice([0, 1, 2, r.randint(0, 30), r.randint(-100, 100), r.randint(0, 5000)] + ([r.randint(-2**31 + 1, 2**31 - 1)] if big else []))


@gen("C02")
def z_gcd(r):
    v = many(r, lambda: anyint(r))
    g = r.choice([1, 1, 2, 6, 35])
    if g > 1:
        v = [x % 100000 * g for x in v]
    w = 0
    for x in v:
        w = gcd(w, x)
    return Spec(["z_gcd"] + [str(x) for x in v], chk=lambda L: None if len(L) == 1 and (
        int(L[0]) == w or (len(v) == 1 and int(L[0]) == v[0])) else "gcd is %d" % w)


@gen("C02")
def z_gcd_ext(r):
    a, b = anyint(r), anyint(r)
    g = gcd(a, b)

    def chk(L):
        t = L[0].split(" ")
        if len(L) != 1 or len(t) != 9 or t[1::2] != ["=", "*", "+", "*"]:
            return "form"
        n = [int(x) for x in t[0::2]]
        if abs(n[0]) != g or n[2] != a or n[4] != b or n[1] * a + n[3] * b != n[0]:
            return "gcd is %d" % g
    return Spec(["z_gcd", "-e", str(a), str(b)], chk=chk)


@gen("C02")
def z_lcm(r):
    v = many(r, lambda: r.choice([1, 2, 3, 4, 6, 10, 12, r.randint(1, 200), r.randint(-40, 40)]))
    l = v[0]
    for x in v[1:]:
        if l == 0 and x == 0:
            raise Unrep()
        l = abs(l * x) // gcd(l, x)
        if l > 2**31 - 1:
            raise Unrep()
    neg = any(x < 0 for x in v)
    return Spec(["z_lcm"] + [str(x) for x in v],
                chk=lambda L: None if L == [str(l)] or (neg and len(L) == 1 and abs(int(L[0])) == abs(l)) else "lcm is %d" % l)


@gen("C02")
def z_totient(r):
    v = many(r, lambda: r.choice([2, 3, 4, r.randint(2, 40), r.randint(2, 3000), 2**r.randint(1, 14)]))
    return Spec(["z_totient"] + [str(x) for x in v], want=labelled([str(x) for x in v], [pyref.totient(x) for x in v]))


@gen("C02")
def z_test_prime(r):
    v = many(r, lambda: r.choice([2, 3, 4, 9, 25, 49, 121, 169, r.randint(2, 100), r.randint(2, 10**6), r.randint(2, 2**31 - 1),
                                  2**31 - 1, 46337**2, 46337 * 46327]))
    return Spec(["z_test_prime"] + [str(x) for x in v],
                want=labelled([str(x) for x in v], ["PRIME" if is_prime(x) else "not prime" for x in v]))


_primes = [n for n in range(2, 6000) if is_prime(n)]


@gen("C02")
def nth_prime(r):
    out, arg = [], []
    for _ in range(r.randint(1, 3)):
        a = r.choice([1, 2, r.randint(1, 40), r.randint(1, 500)])
        b = a + r.randint(0, 6) if r.random() < .5 else a
        arg.append(str(a) if a == b else "%d-%d" % (a, b))
        out += [str(_primes[k - 1]) for k in range(a, b + 1)]
    return Spec(["spffl::intmath::nth_prime"] + arg, want=out)


@gen("C19")
def z_list(r):
    a, n, s = r.randint(-50, 2000), r.choice([1, 2, r.randint(1, 60), r.randint(1, 800)]), r.choice([1, 2, -1, -7, 0, r.randint(-9, 99)])
    k = r.randint(1, 3)
    if k < 3: s = 1
    if k < 2: n = 1
    return Spec(["z_list"] + [str(x) for x in (a, n, s)[:k]], want=[str(a + i * s) for i in range(n)])


def intfac(n):
    t = ["-1"] if n < 0 else []
    t += ["%d^%d" % (p, e) if e > 1 else str(p) for p, e in sorted(factor_int(abs(n)).items())]
    return " ".join(t) or "1"


def facint_of(r):
    k = r.randrange(7)
    if k == 0: return r.choice([1, -1, 2, -2, 4])
    if k == 1: return r.randint(-200, 200) or 1
    if k == 2: return r.choice([1, -1]) * r.randint(1, 2**31 - 1)
    if k == 3: return r.choice([46337**2, 46341 * 46327, 2**30, 3**19, 5**13, 7**11, 2**31 - 1, -2**31 + 1, 223092870, 2 * 3 * 5 * 7 * 11 * 13])
    n = 1
    while n < 10**4:
        n *= r.choice([2, 2, 3, 5, 7, 11, 13, 101])
    return n


@gen("C10")
def z_factor(r):
    v = many(r, lambda: facint_of(r))
    return Spec(["z_factor"] + [str(x) for x in v], want=labelled([str(x) for x in v], [intfac(x) for x in v], " = "))


@gen("C12")
def z_divisors(r):
    v = many(r, lambda: facint_of(r))
    mp = r.random() < .4
    vals = []
    for n in v:
        a = abs(n)
        f = factor_int(a)
        if mp:
            vals.append(" ".join(str(x) for x in sorted(n // p for p in f)) or "(none)")
        else:
            ds = [1]
            for p, e in f.items():
                ds = [d * p**i for d in ds for i in range(e + 1)]
            vals.append(" ".join(str(x) for x in sorted(ds)))
    return Spec(["z_divisors"] + (["-mp"] if mp else []) + [str(x) for x in v], want=labelled([str(x) for x in v], vals))


# ---------------------------------------------------------------- polynomials
def pring(r, fam, small=True):
    """(P, arguments naming the field)"""
    if fam == "f2_p":
        return PolyRing(F2()), []
    if fam == "fp_p":
        p = r.choice(SMALLP if small else SMALLP + [101, 257, 46337])
        return PolyRing(Zmod(p)), [str(p)]
    if fam == "f2n_p":
        K = f2mod(r, 1, 4)
        return PolyRing(K), [K.P.show(K.m)]
    K = fpmod(r, 1, 2)
    return PolyRing(K), [str(K.P.F.m), K.P.show(K.m)]


def fam_of(name):
    for f in ("f2n_p_", "fpn_p_", "f2_p_", "fp_p_"):
        if name.startswith(f):
            return f[:-1]


def planted(r, P, maxdeg):
    """(f, its monic irreducible factors with multiplicity)"""
    fac, f = {}, (P.nz(r),)
    d = r.randint(0, maxdeg)
    while d > 0:
        k = r.randint(1, min(d, 4))
        if fac and r.random() < .4:
            g = r.choice(list(fac))
        else:
            g = P.randirr(r, k)
        e = r.choice([1, 1, 2, 3, P.F.p])
        e = max(1, min(e, d // max(1, P.deg(g))))
        if P.deg(g) * e > d:
            break
        for _ in range(e):
            f = P.mul(f, g)
        fac[g] = fac.get(g, 0) + e
        d -= P.deg(g) * e
    return f, fac


def key(P, a):
    return (len(a), [x if isinstance(x, int) else key(P.F.P, x) for x in reversed(a)])


MAXD = {"f2_p": 16, "fp_p": 8, "f2n_p": 6, "fpn_p": 5}


@gen("C10", "f2_p_factor", "fp_p_factor", "f2n_p_factor")
def poly_factor(r, name):
    fam = fam_of(name)
    P, args = pring(r, fam)
    v = [planted(r, P, r.choice([3, MAXD[fam], MAXD[fam]])) for _ in range(r.choice([1, 1, 2, 3]))]
    shown = [P.show(f) for f, _ in v]

    def chk(L):
        for l, (f, fac) in zip(strip_label(L, shown, " = "), v):
            got, unit, prev = {}, P.one, None
            for i, t in enumerate(l.split(" ")):
                b, e = (t.split("^") + ["1"])[:2]
                g, e = P.parse(b), int(e)
                if P.deg(g) == 0 and i == 0:
                    if e != 1: return "exponent of the unit"
                    unit = g
                    continue
                if prev is not None and not key(P, prev) < key(P, g):
                    return "factors not increasing"
                prev = g
                if g in got: return "factor repeated"
                got[g] = e
            if got != fac: return "factors are %r" % {P.show(g): e for g, e in fac.items()}
            if unit != (f[-1],): return "unit is %s" % P.show((f[-1],))
    return Spec([name] + args + shown, chk=chk)


@gen("C12", "f2_p_divisors", "fp_p_divisors", "f2n_p_divisors")
def poly_divisors(r, name):
    fam = fam_of(name)
    P, args = pring(r, fam)
    mp = r.random() < .4
    v = [planted(r, P, r.choice([2, 4, MAXD[fam]])) for _ in range(r.choice([1, 1, 2]))]
    vals = []
    for f, fac in v:
        if mp:
            ds = [P.div(f, g) for g in fac]
        else:
            ds = [P.one]
            for g, e in fac.items():
                cur, nx = P.one, []
                for i in range(e + 1):
                    nx += [P.mul(d, cur) for d in ds]
                    cur = P.mul(cur, g)
                ds = nx
        vals.append(" ".join(P.show(d) for d in sorted(ds, key=lambda d: key(P, d))) or "(none)")
    shown = [P.show(f) for f, _ in v]
    return Spec([name] + (["-mp"] if mp else []) + args + shown, want=labelled(shown, vals))


@gen("C12", "f2_p_totient", "fp_p_totient", "f2n_p_totient")
def poly_totient(r, name):
    fam = fam_of(name)
    P, args = pring(r, fam)
    v = []
    while not v or r.random() < .4:
        f, fac = planted(r, P, r.choice([2, 4, MAXD[fam]]))
        t = 1
        for g, e in fac.items():
            n = P.F.q ** P.deg(g)
            t *= (n - 1) * n ** (e - 1)
        if fac and t < 2**31:
            v.append((P.show(f), t))
    return Spec([name] + args + [a for a, _ in v], want=labelled([a for a, _ in v], [t for _, t in v]))


@gen("C11", "fp_p_test", "f2n_p_test")
def poly_test(r, name):
    P, args = pring(r, fam_of(name))
    v = many(r, lambda: P.exact(r, r.randint(1, 6)) if r.random() < .5 else P.mul((P.nz(r),), P.randirr(r, r.randint(1, 5))))
    shown = [P.show(f) for f in v]
    return Spec([name] + args + shown, want=labelled(shown, ["IRREDUCIBLE" if P.irreducible(f) else "reducible" for f in v]))


def primitive(P, f):
    """x generates the units mod f."""
    return order_x(P, f) == f2totient(P, f)


def f2totient(P, f):
    t = 1
    for g, e in factor_small(P, f, True).items():
        t *= (2**P.deg(g) - 1) * 2**(P.deg(g) * (e - 1))
    return t


@gen("C11")
def f2_p_test(r):
    P = PolyRing(F2())
    k = r.choice(["-i", "-p", "-ip"])
    v = many(r, lambda: P.exact(r, r.randint(1, 16)) if r.random() < .4 else P.randirr(r, r.randint(1, 14)))
    out = []
    for f in v:
        w = []
        if "i" in k: w.append("IRREDUCIBLE" if P.irreducible(f) else "reducible")
        if "p" in k:
            w.append("PRIMITIVE" if primitive(P, f) else "imprimitive")
        out.append("%s: %s" % (P.show(f), " ".join(w)))
    return Spec(["f2_p_test", k] + [P.show(f) for f in v], want=out)


def order_x(P, f):
    """Least e with x^e = 1 mod f, 0 when there is none (binary polynomials)."""
    if not f or f[0] == 0: return 0
    if P.deg(f) == 0: return 1
    n, m, d = 1, sum(c << i for i, c in enumerate(f)), P.deg(f)
    x = 1
    while True:
        x <<= 1
        if x >> d & 1: x ^= m
        if x == 1: return n
        n += 1


@gen("C13")
def f2_p_period(r):
    P = PolyRing(F2())
    def one():
        f = P.exact(r, r.randint(1, r.choice([6, 10, 14])))
        return (1,) + f[1:]
    v = many(r, one)
    shown = [P.show(f) for f in v]
    return Spec(["f2_p_period"] + shown, want=labelled(shown, [order_x(P, f) for f in v]))


_first = {}


def first_irr(P, d, tag):
    k = (tag, d)
    if k not in _first:
        i = 0
        els = list(P.F.elements())
        q = len(els)
        while True:
            n, c = i, []
            for _ in range(d):
                c.append(els[n % q])
                n //= q
            f = tuple(c) + (P.F.one,)
            if P.irreducible(f) and c[0] != P.F.zero:
                break
            i += 1
        _first[k] = f
    return _first[k]


@gen("C11", "f2_p_find", "fp_p_find", "f2n_p_find")
def poly_find(r, name):
    fam = fam_of(name)
    P, args = pring(r, fam)
    hi = {"f2_p": 14, "fp_p": 5, "f2n_p": 4}[fam]
    lo = r.randint(2 if fam == "f2_p" else 1, hi)
    top = min(hi, lo + r.randint(0, 3)) if r.random() < .4 else lo
    rng = str(lo) if lo == top and r.random() < .8 else "%d-%d" % (lo, top)
    how = r.choice(["-1", "-r"])
    kind = r.choice(["-i", "-p", "-ip"]) if fam == "f2_p" else "-i"
    argv = [name, how] + ([kind] if fam == "f2_p" else args) + [rng]

    def chk(L):
        if len(L) != top - lo + 1: return "%d lines" % len(L)
        for d, l in zip(range(lo, top + 1), L):
            f = P.parse(l)
            if P.deg(f) != d: return "degree of " + l
            if f[-1] != P.F.one: return "not monic: " + l
            if "i" in kind and not P.irreducible(f): return "reducible: " + l
            if "p" in kind and not primitive(P, f): return "not primitive: " + l
            if how == "-1" and kind == "-i" and fam != "f2n_p" and f != first_irr(P, d, (fam,) + tuple(args)):
                return "not the first irreducible: " + l
    return Spec(argv, chk=chk)


@gen("C07", "f2_p_gcd", "fp_p_gcd", "f2n_p_gcd", "fpn_p_gcd")
def poly_gcd(r, name):
    fam = fam_of(name)
    P, args = pring(r, fam, False)
    n = r.choice([1, 2, 2, 2, 3, 4]) if fam == "f2_p" else 2
    g = P.rand(r, 3) if r.random() < .5 else P.one
    v = [P.mul(g, P.rand(r, MAXD[fam] // 2)) for _ in range(n)]
    w = ()
    for x in v:
        w = P.gcd(w, x)

    def chk(L):
        got = P.parse(L[0])
        if len(L) != 1 or P.monic(got) != w:
            return "gcd is %s" % P.show(w)
    return Spec([name] + args + [P.show(x, r) for x in v], chk=chk)


@gen("C07", "f2_p_gcd_ext", "fp_p_gcd_ext", "f2n_p_gcd_ext", "fpn_p_gcd_ext")
def poly_gcd_ext(r, name):
    fam = fam_of(name)
    P, args = pring(r, fam, False)
    g = P.rand(r, 3) if r.random() < .5 else P.one
    a, b = P.mul(g, P.rand(r, MAXD[fam] // 2)), P.mul(g, P.rand(r, MAXD[fam] // 2))
    w = P.gcd(a, b)

    def chk(L):
        t = L[0].split(" ")
        if len(L) != 1 or len(t) != 9 or t[1::2] != ["=", "*", "+", "*"]:
            return "form"
        n = [P.parse(x) for x in t[0::2]]
        if n[2] != a or n[4] != b: return "operands"
        if P.monic(n[0]) != w: return "gcd is %s" % P.show(w)
        if P.add(P.mul(n[1], a), P.mul(n[3], b)) != n[0]: return "the combination is another polynomial"
    return Spec([name[:-4], "-e"] + args + [P.show(a), P.show(b)], chk=chk)


@gen("C07", "f2_p_lcm", "fp_p_lcm", "f2n_p_lcm")
def poly_lcm(r, name):
    fam = fam_of(name)
    P, args = pring(r, fam, False)
    g = P.exact(r, 2) if r.random() < .5 else P.one
    v = [P.mul(g, P.exact(r, r.randint(0, MAXD[fam] // 2))) for _ in range(r.choice([1, 2, 2, 3]))]
    w = P.monic(v[0])
    for x in v[1:]:
        w = P.monic(P.div(P.mul(w, x), P.gcd(w, x)))

    def chk(L):
        if len(L) != 1 or P.monic(P.parse(L[0])) != w: return "lcm is %s" % P.show(w)
    return Spec([name] + args + [P.show(x) for x in v], chk=chk)


@gen("C04", "f2_p_deg")
@gen("C05", "fp_p_deg")
@gen("C06", "f2n_p_deg")
def poly_deg(r, name):
    P, args = pring(r, fam_of(name), False)
    v = many(r, lambda: P.rand(r) if r.random() < .7 else P.exact(r, r.randint(0, 70)))
    shown = [P.show(f) for f in v]
    return Spec([name] + args + shown, want=labelled(shown, [max(0, P.deg(f)) for f in v]))


@gen("C04", "f2_p_eval")
@gen("C05", "fp_p_eval")
@gen("C06", "f2n_p_eval")
def poly_eval(r, name):
    P, args = pring(r, fam_of(name), False)
    f = P.rand(r, 9)
    v = [P.F.rand(r) for _ in range(r.randint(1, 5))]
    return Spec([name] + args + [P.show(f)] + [P.F.show(x) for x in v], want=[P.F.show(P.eval(f, x)) for x in v])


@gen("C19", "f2_p_list", "fp_p_list", "f2n_p_list")
def poly_list(r, name):
    fam = fam_of(name)
    P, args = pring(r, fam)
    q = P.F.q
    hi = max(d for d in range(0, 9) if q ** (d + 1) <= 700 or d == 0)
    lo = r.randint(0, hi)
    top = r.randint(lo, hi)
    rng = str(lo) if lo == top else "%d-%d" % (lo, top)

    els = list(P.F.elements())

    def chk(L):
        got = [P.parse(l) for l in L]
        k = 0
        for d in range(lo, top + 1):
            n = (q - 1) * q**d
            part = got[k:k + n]
            k += n
            if len(set(part)) != n or any(P.deg(f) != d or not f for f in part):
                return "not the polynomials of degree %d" % d
            if [key(P, f) for f in part] != sorted(key(P, f) for f in part):
                return "not increasing"
        if k != len(got): return "%d lines, should be %d" % (len(got), k)
    return Spec([name] + args + [rng], chk=chk)


def parse_rows(R, L):
    rows = [[R.parse(x) for x in l.split()] for l in L if l.strip()]
    if len({len(x) for x in rows}) > 1: raise ValueError("ragged")
    return rows


@gen("C17", "f2_p_comp_mx", "fp_p_comp_mx", "f2n_p_comp_mx")
def comp_mx(r, name):
    P, args = pring(r, fam_of(name), False)
    f = P.monicrand(r, r.randint(1, 6))

    def chk(L):
        A = parse_rows(P.F, L)
        n = P.deg(f)
        if len(A) != n or len(A[0]) != n: return "shape"
        if Mat(P.F).charpoly(A) != f: return "its characteristic polynomial is another"
        if sum(1 for row in A for x in row if x != P.F.zero) > 2 * n - 1: return "not a companion matrix"
    return Spec([name] + args + [P.show(f)], chk=chk)


def qpoly(r):
    P = PolyRing(QRing())
    n = r.randint(0, 5)
    return P.trim(Fraction(r.choice([0, 1, -1, r.randint(-40, 40)]), r.choice([1, 1, 2, 3, 5, r.randint(1, 12)])) for _ in range(n + 1))


@gen("C29", "f2_p_qp", "fp_p_qp", "f2n_p_qp", "fpn_p_qp")
def poly_qp(r, name):
    fam = fam_of(name)
    P, args = pring(r, fam, False)
    Q = PolyRing(QRing())
    p = P.F.p
    v = many(r, lambda: qpoly(r))
    bad = any(c.denominator % p == 0 for f in v for c in f)
    argv = [name] + args + [Q.show(f) for f in v]
    if bad:
        if len(v) > 1: raise Unrep()
        return Spec(argv, refuse="a denominator is 0 mod %d" % p)
    img = [P.trim(P.F.fromint(c.numerator * pow(c.denominator, -1, p) % p) for c in f) for f in v]
    return Spec(argv, want=[P.show(f) for f in img])


def cyclo(n, memo={}):
    if n not in memo:
        f = [-1] + [0] * (n - 1) + [1]
        for d in range(1, n):
            if n % d == 0:
                g = cyclo(d)
                q = [0] * (len(f) - len(g) + 1)
                f = list(f)
                for i in range(len(q) - 1, -1, -1):
                    q[i] = f[i + len(g) - 1]
                    for j, y in enumerate(g):
                        f[i + j] -= q[i] * y
                f = q
        memo[n] = f
    return memo[n]


@gen("C29")
def q_cyclotomic(r):
    v = many(r, lambda: r.choice([1, 2, r.randint(1, 40), r.randint(1, 110), 105, 60]))
    return Spec(["q_cyclotomic"] + [str(n) for n in v], want=[",".join(str(c) for c in reversed(cyclo(n))) for n in v])


# ---------------------------------------------------------------- residue rings
def qring(r, fam, field=True, cap=300, lo=1):
    """A residue ring small enough to list."""
    while True:
        if fam == "fp":
            m = r.choice([2, 3, 5, 7, 11, 13, 17, 31, 101, 127]) if field else r.randint(2, 60)
            R, args = Zmod(m), [str(m)]
            if (m if True else 0) <= cap:
                return R, args
            continue
        if fam == "f2_pm":
            R = f2mod(r, lo, 7, field)
            args = [R.P.show(R.m)]
        elif fam == "fp_pm":
            R = fpmod(r, lo, 3, field, r.choice([2, 3, 5, 7, 11]))
            args = [str(R.P.F.m), R.P.show(R.m)]
        else:
            R, args = ctx("f2n_pm", r, field)
        if 2 <= R.q <= cap:
            return R, args


def elements(R):
    return list(R.elements())


def units(R):
    return [x for x in elements(R) if isunit(R, x)]


def isunit(R, x):
    try:
        R.inv(x)
        return True
    except Refuse:
        return False


def fam2(name):
    for f in ("f2n_pm_", "f2_pm_", "fp_pm_", "fp_"):
        if name.startswith(f):
            return f[:-1]


def ordkey(R, x):
    return x if isinstance(x, int) else key(R.P, x)


@gen("C19", "fp_list", "f2_pm_list", "fp_pm_list", "f2n_pm_list")
def res_list(r, name):
    fam = fam2(name)
    R, args = qring(r, fam, r.random() < .4)
    E = elements(R)
    if fam in ("fp", "f2_pm") and r.random() < .4:
        g = r.choice(E)
        k = r.choice(["-m", "-rp"])
        if k == "-m":
            S = {R.mul(g, x) for x in E}
        elif fam == "fp":
            S = {x for x in E if gcd(x, gcd(g, R.m)) == 1}
            S2 = {x for x in E if gcd(x, g) == 1}
        else:
            P = R.P
            S = {x for x in E if P.gcd(x, P.gcd(g, R.m)) == P.one}
            S2 = {x for x in E if P.gcd(x, g) == P.one}
        argv = [name, k, R.show(g)] + args
        if k == "-rp":
            # coprimality of the representatives, or in the ring: the two readings
            w1 = [R.show(x) for x in sorted(S, key=lambda x: ordkey(R, x))]
            w2 = [R.show(x) for x in sorted(S2, key=lambda x: ordkey(R, x))]
            return Spec(argv, chk=lambda L: None if L in (w1, w2) else "expected %r or %r" % (w1[:20], w2[:20]))
        return Spec(argv, want=[R.show(x) for x in sorted(S, key=lambda x: ordkey(R, x))])
    k = r.choice(["-a", "-u", "-nu"])
    S = [x for x in E if k == "-a" or isunit(R, x) == (k == "-u")]
    return Spec([name, k] + args, want=[R.show(x) for x in sorted(S, key=lambda x: ordkey(R, x))])


def order(R, a):
    n, x = 1, a
    while x != R.one:
        x = R.mul(x, a)
        n += 1
    return n


def prime_power(R):
    """Is the unit group cyclic? decided by looking for a generator"""
    U = units(R)
    return any(order(R, u) == len(U) for u in U)


@gen("C19", "fp_tbl", "f2_pm_tbl", "fp_pm_tbl", "f2n_pm_tbl")
def res_tbl(r, name):
    fam = fam2(name)
    R, args = qring(r, fam, r.random() < .5, 24)
    k = r.choice(["+", "-", "*", ".", "u*", "u.", "/"] + (["log", "alog", "log:", "alog:"] if fam != "fp_pm" else []))
    U = sorted(units(R), key=lambda x: ordkey(R, x))
    E = U if k in ("u*", "u.", "/") or "log" in k else sorted(elements(R), key=lambda x: ordkey(R, x))
    if "log" in k:
        gens = [u for u in U if order(R, u) == len(U)]
        if not gens:
            raise Unrep()
        g = r.choice(gens)
        if k[-1] == ":":
            k += R.show(g)
        argv = [name] + args + [k]

        def chk(L):
            head = ["element power", "------- -----"] if k.startswith("log") else ["power element", "----- -------"]
            if L[:2] != head: return "header"
            if len(L) != 2 + len(U): return "number of rows"
            pw, base = {}, None
            for i, l in enumerate(L[2:]):
                a, b = l.split(" ")
                e, x = (int(b), R.parse(a)) if k.startswith("log") else (int(a), R.parse(b))
                if e in pw or not 0 <= e < max(1, len(U)) + 1: return "power %d" % e
                if k.startswith("log") and x != U[i]: return "row label %s" % a
                if k.startswith("alog") and e != i: return "row label %s" % a
                pw[e] = x
            if len(U) == 1: return None
            # which base: the given one, or the element whose log is 1
            b = g if ":" in k else pw.get(1)
            if b is None: return "no element has log 1"
            for e, x in pw.items():
                if R.pow(b, e) != x: return "power %d of %s is not %s" % (e, R.show(b), R.show(x))
        return Spec(argv, chk=chk)
    f = {"+": R.add, "-": R.sub, "/": R.div}.get(k, R.mul)
    return Spec([name] + args + [k], want=[" ".join(R.show(f(a, b)) for b in E) for a in E])


@gen("C13", "fp_ord", "f2_pm_ord", "fp_pm_ord", "f2n_pm_ord")
def res_ord(r, name):
    fam = fam2(name)
    R, args = qring(r, fam, r.random() < .5, 2000)
    v = [R.rand(r) for _ in range(1 if fam == "fp_pm" else r.choice([1, 1, 2, 3]))]
    u = [isunit(R, a) for a in v]
    shown = [R.show(a) for a in v]
    argv = [name] + args + shown
    if not all(u):
        if len(v) > 1: raise Unrep()

        def chk(L):
            return None if L in ([], ["0"]) else "not a unit"
        s = Spec(argv, chk=chk)
        s.nonunit = True
        return s
    return Spec(argv, want=labelled(shown, [order(R, a) for a in v]))


@gen("C13")
def fp_max_ord(r):
    R, args = qring(r, "fp", r.random() < .3)
    return Spec(["fp_max_ord"] + args, want=[str(max(order(R, u) for u in units(R)))])


@gen("C13")
def fp_orbit(r):
    m = r.choice([2, 3, 5, 7, r.randint(2, 200), r.randint(2, 3000), 46349, 65537]) if r.random() < .9 else r.randint(2, 5000)
    a = r.choice([1, 2, m - 1, r.randint(1, m - 1), r.randint(1, m - 1) + m, -r.randint(1, m - 1)])
    if gcd(a, m) != 1: raise Unrep()
    a0 = r.choice([None, 0, 1, r.randint(0, m - 1), r.randint(0, 2 * m), -r.randint(0, m)])
    out, x = [], a % m
    while True:
        out.append(str(x * (1 if a0 is None else a0) % m))
        if x == 1 % m or len(out) > 4000: break
        x = x * a % m
    if len(out) > 4000: raise Unrep()
    return Spec(["fp_orbit", str(m), str(a)] + ([] if a0 is None else [str(a0)]), want=out)


@gen("C13", "fp_find_gen", "f2_pm_find_gen", "f2n_pm_find_gen")
def find_gen(r, name):
    fam = fam2(name)
    Rs = []
    R, args = qring(r, fam, r.random() < .6, 130)
    Rs = [R]
    ms = [args[-1]]
    if r.random() < .3:
        for _ in range(2):
            if fam == "f2n_pm":
                P = R.P
                m = P.monicrand(r, r.randint(1, 2))
                R2 = Quot(P, m)
                if R2.q > 130: continue
                Rs.append(R2)
                ms.append(P.show(m))
            else:
                R2, a2 = qring(r, fam, r.random() < .6, 130)
                Rs.append(R2)
                ms.append(a2[-1])

    def chk(L):
        for l, R in zip(strip_label(L, ms), Rs):
            U = units(R)
            cyc = any(order(R, u) == len(U) for u in U)
            if l == "Generator not found.":
                if cyc: return "the unit group is cyclic"
            else:
                g = R.parse(l)
                if not isunit(R, g) or order(R, g) != len(U): return "%s is no generator" % l
    return Spec([name] + args[:-1] + ms, chk=chk)


@gen("C14", "fp_log", "f2_pm_log", "f2n_pm_log")
def res_log(r, name):
    fam = fam2(name)
    R, args = qring(r, fam, True, 600)
    U = units(R)
    while True:
        g = r.choice(U)
        if order(R, g) == len(U): break
    v = [r.choice(U) for _ in range(r.choice([1, 1, 2, 4]))]
    tab, x = {}, R.one
    for e in range(len(U)):
        tab[x] = e
        x = R.mul(x, g)
    shown = [R.show(a) for a in v]

    def chk(L):
        for l, a in zip(strip_label(L, shown), v):
            e = int(l)
            if not 0 <= e <= len(U) or R.pow(g, e) != a or (e != tab[a] and len(U) > 1 and e == len(U) and False):
                return "log of %s is %d" % (R.show(a), tab[a])
    return Spec([name] + args + [R.show(g)] + shown, chk=chk)


def lin_polys(R, a):
    """(minimal, characteristic) polynomial of a field element over the coefficient field."""
    P, n = R.P, R.n
    F = P.F
    # matrix of multiplication by a
    cols, b = [], R.one
    for i in range(n):
        c = R.mul(a, P.mod((F.zero,) * i + (F.one,), R.m))
        cols.append(list(c) + [F.zero] * (n - len(c)))
    A = [[cols[j][i] for j in range(n)] for i in range(n)]
    cp = Mat(F).charpoly(A)
    # least degree combination of powers that vanishes
    pw, x = [], R.one
    for d in range(n + 1):
        pw.append(list(x) + [F.zero] * (n - len(x)))
        M = [[pw[j][i] for j in range(d + 1)] for i in range(n)]
        if Mat(F).rank(M) < d + 1:
            # solve: last column in terms of the others
            rows = [[pw[j][i] for j in range(d)] + [F.neg(pw[d][i])] for i in range(n)]
            E, piv = Mat(F).rref(rows)[:2]
            mp = [F.zero] * d + [F.one]
            for k, j in enumerate(piv):
                mp[j] = E[k][d]
            return P.trim(mp), cp
        x = R.mul(x, a)


@gen("C17", "f2_pm_ch_pol", "fp_pm_ch_pol", "f2n_pm_ch_pol", "f2_pm_min_pol", "fp_pm_min_pol", "f2n_pm_min_pol")
def elt_pol(r, name):
    fam = fam2(name)
    R, args = qring(r, fam, True, 4000)
    v = [R.rand(r) for _ in range(r.choice([1, 1, 2, 3]))]
    shown = [R.show(a) for a in v]
    pol = [lin_polys(R, a)[0 if "min" in name else 1] for a in v]
    return Spec([name] + args + shown, want=labelled(shown, [R.P.show(f) for f in pol]))


@gen("C30")
def f2_pm_convert(r):
    n = r.randint(1, 7)
    P = PolyRing(F2())
    R1, R2 = Quot(P, P.randirr(r, n)), Quot(P, P.randirr(r, n))
    if R1.m == P.x or R2.m == P.x: raise Unrep()
    a, b = R1.rand(r), R1.rand(r)
    ops = [a, b, R1.add(a, b), R1.mul(a, b), R1.zero, R1.one] + [R1.rand(r) for _ in range(r.randint(0, 4))]
    shown = [R1.show(x) for x in ops]

    def chk(L):
        y = [R2.parse(l) for l in strip_label(L, shown)]
        if y[2] != R2.add(y[0], y[1]): return "sums"
        if y[3] != R2.mul(y[0], y[1]): return "products"
        if y[4] != R2.zero or y[5] != R2.one: return "0 and 1"
        if len(set(y)) != len(set(ops)): return "not injective"
        for x, z in zip(ops, y):
            if lin_polys(R1, x)[0] != lin_polys(R2, z)[0]: return "minimal polynomial of %s" % R1.show(x)
    return Spec(["f2_pm_convert", P.show(R1.m), P.show(R2.m)] + shown, chk=chk)


# ---------------------------------------------------------------- matrices from files and standard input
def mtext(R, A, r):
    sep = r.choice([" ", " ", "  "])
    return "\n".join(sep.join(R.show(x) for x in row) for row in A) + "\n"


def sqmat(R, r, n):
    M = Mat(R)
    k = r.randrange(6)
    if k == 0: return M.eye(n)
    if k == 1: return M.rand(r, n, n, max(1, n - 1))
    if k == 2:
        c = R.rand(r)
        return [[c if i == j else R.zero for j in range(n)] for i in range(n)]
    if k == 3: return [[R.rand(r) if j >= i else R.zero for j in range(n)] for i in range(n)]
    return M.rand(r, n, n)


def mfile(r, text, name="A"):
    if r.random() < .3:
        return "-", text, {}
    return name, None, {name: text}


@gen("C17", "f2_mat_ch_pol", "fp_mat_ch_pol", "f2_pm_mat_ch_pol")
def mat_ch_pol(r, name):
    R, args = {"f2_mat": lambda: (F2(), []), "fp_mat": lambda: ctx("fp", r, True), "f2_pm_": lambda: qring(r, "f2_pm", True)}[name[:6]]()
    A = sqmat(R, r, r.randint(1, 5))
    f, i, fs = mfile(r, mtext(R, A, r))
    return Spec([name] + args + [f], want=[PolyRing(R).show(Mat(R).charpoly(A))], stdin=i, files=fs)


@gen("C13", "f2_mat_ord", "fp_mat_ord", "f2_pm_mat_ord", "fp_pm_mat_ord")
def mat_ord(r, name):
    fam = name[:-8]
    if fam == "f2":
        R, args, n = F2(), [], r.randint(1, 7)
    else:
        R, args = qring(r, fam, r.random() < .7, 60)
        n = r.randint(1, 2 if (R.m if isinstance(R, Zmod) else R.q) > 8 else 3)
    A = sqmat(R, r, n)
    M = Mat(R)
    I = M.eye(n)
    try:
        d = leibniz(R, A)
        unit = isunit(R, d)
    except Refuse:
        raise Unrep()
    if not unit:
        # singular: 0 (or a refusal), never an order
        s = Spec([name] + args, stdin=mtext(R, A, r), chk=lambda L: None if L in ([], ["0"]) else "not invertible")
        s.nonunit = True
        return s
    k, X = 1, A
    while X != I:
        X = M.mul(X, A)
        k += 1
        if k > 3000: raise Unrep()
    s = Spec([name] + args, want=[str(k)], stdin=mtext(R, A, r))
    s.orrefused = not R.field     # elimination may meet a zero divisor
    return s


def leibniz(R, A):
    n = len(A)
    if n == 1: return A[0][0]
    t = R.zero
    for j in range(n):
        s = R.mul(A[0][j], leibniz(R, [row[:j] + row[j + 1:] for row in A[1:]]))
        t = R.add(t, s) if j % 2 == 0 else R.sub(t, s)
    return t


@gen("C32")
def f2_pm_mat_solve(r):
    R, args = qring(r, "f2_pm", True)
    n = r.randint(1, 5)
    A = sqmat(R, r, n)
    b = [R.rand(r) for _ in range(n)]
    fs = {"A": mtext(R, A, r), "b": " ".join(R.show(x) for x in b) + "\n"}
    argv = ["f2_pm_mat_solve"] + args + ["A", "b"]
    if Mat(R).rank(A) < n:
        return Spec(argv, refuse="no unique solution", files=fs)
    inv = Mat(R).inv(A)
    x = [c[0] for c in Mat(R).mul(inv, [[y] for y in b])]
    return Spec(argv, want=[" ".join(R.show(v) for v in x)], files=fs)


@gen("C32")
def f2_pm_mat_diagonalizable(r):
    R, args = qring(r, "f2_pm", True, 32)
    n = r.randint(1, 3)
    A = sqmat(R, r, n)
    P = PolyRing(R)
    cp = Mat(R).charpoly(A)
    f, i, fs = mfile(r, mtext(R, A, r))
    # diagonalizable over the splitting field exactly when the radical of the characteristic polynomial vanishes at A
    fac = factor_small(P, cp)
    rad = P.one
    for g in fac:
        rad = P.mul(rad, g)
    M = Mat(R)
    V = [[R.zero] * n for _ in range(n)]
    X = M.eye(n)
    for c in rad:
        V = M.add(V, [[R.mul(c, x) for x in row] for row in X])
        X = M.mul(X, A)
    diag = M.iszero(V)
    neig = P.deg(rad)
    ext = 1
    for g in fac:
        ext = ext * P.deg(g) // gcd(ext, P.deg(g))
    if R.n * ext > 8: raise Unrep()

    def chk(L):
        k = [j for j, l in enumerate(L) if l in ("Diagonalizable.", "Non-diagonalizable.")]
        if len(k) != 1: return "no verdict"
        T = L[k[0]:]
        if (T[0] == "Diagonalizable.") != diag: return "verdict"
        if not T[2].startswith("Splitter modulus: ") or T[3] != "Eigenvalues:": return "form"
        P2 = PolyRing(F2())
        m = P2.parse(T[2][18:])
        if not P2.irreducible(m) or P2.deg(m) != R.n * ext: return "splitting field"
        S = Quot(P2, m)
        ev = [S.parse(l.strip()) for l in T[4:]]
        if len(set(ev)) != len(ev) or len(ev) > neig or (diag and len(ev) != neig): return "number of eigenvalues (%d roots)" % neig
        if ext == 1 and m == R.m:
            for e in ev:
                if P.eval(cp, e) != R.zero: return "%s is no root" % S.show(e)
    return Spec(["f2_pm_mat_diagonalizable"] + args + [f], chk=chk, stdin=i, files=fs)


def factor_small(P, f, mult=False):
    """Monic irreducible factors, by trial over all monic polynomials of degree up to half."""
    out, d = {}, 1
    els = list(P.F.elements())
    f = P.monic(f)
    while P.deg(f) >= 2 * d:
        idx = [0] * d
        for k in range(len(els) ** d):
            n, c = k, []
            for _ in range(d):
                c.append(els[n % len(els)])
                n //= len(els)
            g = tuple(c) + (P.F.one,)
            if P.deg(f) < 2 * d: break
            if P.mod(f, g) == ():
                while P.mod(f, g) == ():
                    f = P.div(f, g)
                    out[g] = out.get(g, 0) + 1
        d += 1
    if P.deg(f) > 0: out[f] = out.get(f, 0) + 1
    return out if mult else list(out)


# ---------------------------------------------------------------- random elements
@gen("C20", "f2_random", "fp_random", "f2_pm_random", "fp_pm_random", "f2n_pm_random")
def elt_random(r, name):
    fam = name[:-7]
    R, args = (F2(), []) if fam == "f2" else qring(r, fam, r.random() < .5)
    n = r.choice([None, 1, 2, 40, 200])

    def chk(L):
        if len(L) != (n or 1): return "%d lines" % len(L)
        v = [R.parse(l) for l in L]
        for x, l in zip(v, L):
            if isinstance(x, int) and not 0 <= x < R.m: return "out of range: " + l
            if R.show(x) != l: return "form: " + l
        if n == 200 and len(set(v)) == 1: return "always the same"
    return Spec([name] + args + ([] if n is None else [str(n)]), chk=chk)


@gen("C20", "f2_p_random", "fp_p_random", "f2n_p_random")
def poly_random(r, name):
    P, args = pring(r, fam_of(name), False)
    d, n = r.choice([0, 1, 2, 5, 31, 32, 33, r.randint(0, 70)]), r.choice([None, 1, 5, 30])

    def chk(L):
        if len(L) != (n or 1): return "%d lines" % len(L)
        for l in L:
            f = P.parse(l)
            if P.deg(f) != d and not (d == 0 and f == ()): return "degree of " + l
            if P.show(f) != l: return "form: " + l
        if n == 30 and d >= 31 and len(set(L)) < 15: return "few different ones"
    return Spec([name] + args + [str(d)] + ([] if n is None else [str(n)]), chk=chk)


@gen("C20")
def f2_pr_random(r):
    R = RatRing(PolyRing(F2()))
    d, n = r.randint(0, 12), r.choice([None, 1, 5, 30])

    def chk(L):
        if len(L) != (n or 1): return "%d lines" % len(L)
        for l in L:
            x = R.parse(l)
            if R.show(x) != l: return "form: " + l
            if R.P.deg(x[0]) > d or R.P.deg(x[1]) > d: return "degree of " + l
    return Spec(["f2_pr_random", str(d)] + ([] if n is None else [str(n)]), chk=chk)


@gen("C20", "f2_mat_random", "fp_mat_random", "f2_pm_mat_random", "fp_pm_mat_random", "f2n_pm_mat_random", "f2_pr_mat_random")
def mat_random(r, name):
    fam = name[:-11]
    if fam == "f2": R, args = F2(), []
    elif fam == "f2_pr": R, args = RatRing(PolyRing(F2())), [str(r.randint(0, 6))]
    else: R, args = qring(r, fam, r.random() < .5)
    n, m = r.randint(1, 12), r.randint(1, 12)

    def chk(L):
        A = [[R.parse(x) for x in l.split()] for l in L]
        if len(A) != n or any(len(row) != m for row in A): return "shape"
        for row, l in zip(A, L):
            for x, t in zip(row, l.split()):
                if R.show(x) != t: return "form: " + t
                if isinstance(x, int) and not 0 <= x < R.m: return "range: " + t
        if n * m >= 30 and (R.m if isinstance(R, Zmod) else 2) >= 2 and len({repr(x) for row in A for x in row}) == 1 and args != ["0"]: return "all the same"
    return Spec([name] + args + [str(n), str(m)], chk=chk)


# ---------------------------------------------------------------- suites
def run_gen(c, name):
    r = c.r
    s = GEN[name](r)
    if getattr(s, "nonunit", False):
        place(c, s)
        c.input((s.argv, s.stdin))
        o = c.run(s.argv, s.stdin)
        if not o.crash:
            out = o.out.split()
            c.check(not o.hang and not o.flood and ((out == ["0"] and not o.err) or (out == [] and o.err.strip() != "")), "nonunit",
                    lambda: "%s%s: a non-unit has no order: %s" % (" ".join(s.argv), " < %r" % s.stdin if s.stdin else "", o.describe()))
        return
    judge(c, name, s)


def val_suite(prop):
    def f(c):
        names = PROP[prop]
        run_gen(c, names[c.idx % len(names)])
    f.__name__ = "cmd_" + prop
    return f


for _p in PROP:
    suite(val_suite(_p))

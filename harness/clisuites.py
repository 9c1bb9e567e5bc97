"""The command-line suites: generators and oracles for spiff's commands."""
import os
import pyref
from pyref import (F2, Fraction, Mat, PolyRing, QRing, Quot, RatRing, Refuse, Unrep, ZRing, Zmod, factor_int, is_prime, totient)

SUITES = {}


def suite(fn):
    SUITES[fn.__name__] = fn
    return fn


# ---------------------------------------------------------------- contexts: a ring, and the arguments that name it
PRIMES = [2, 3, 3, 5, 5, 7, 7, 11, 13, 17, 31, 101]


def irr(r, F, lo, hi):
    return PolyRing(F).randirr(r, r.randint(lo, hi))


def f2mod(r, lo=1, hi=6, field=True):
    P = PolyRing(F2())
    m = P.randirr(r, r.randint(lo, hi)) if field or r.random() < .6 else P.exact(r, r.randint(lo, hi))
    return Quot(P, m)


def fpmod(r, lo=1, hi=3, field=True, p=None):
    P = PolyRing(Zmod(p or r.choice(PRIMES[:8])))
    m = P.randirr(r, r.randint(lo, hi)) if field or r.random() < .6 else P.exact(r, r.randint(lo, hi))
    return Quot(P, m)


def hexs(Q): return Q.P.show(Q.m)


def ctx(kind, r, field=True):
    """kind -> (ring, leading arguments)."""
    if kind == "z": return ZRing(), []
    if kind == "q": return QRing(), []
    if kind == "q_p": return PolyRing(QRing()), []
    if kind == "f2": return F2(), []
    if kind == "fp":
        m = r.choice(PRIMES + [257, 7919, 46337]) if field else r.randint(2, 60)
        return Zmod(m), [str(m)]
    if kind == "f2_p": return PolyRing(F2()), []
    if kind == "f2_pm":
        Q = f2mod(r, 1, r.choice([6, 6, 12]), field)
        return Q, [hexs(Q)]
    if kind == "f2_pr": return RatRing(PolyRing(F2())), []
    if kind == "f2n_p":
        K = f2mod(r, 1, 5)
        return PolyRing(K), [hexs(K)]
    if kind == "f2n_pm":
        K = f2mod(r, 1, 4)
        P = PolyRing(K)
        m = P.randirr(r, r.randint(1, 3)) if field or r.random() < .6 else P.exact(r, r.randint(1, 3))
        return Quot(P, m), [hexs(K), P.show(m)]
    if kind == "f2n_pr":
        K = f2mod(r, 1, 4)
        return RatRing(PolyRing(K)), [hexs(K)]
    if kind == "fp_p":
        p = r.choice(PRIMES)
        return PolyRing(Zmod(p)), [str(p)]
    if kind == "fp_pm":
        Q = fpmod(r, 1, 3, field, r.choice(PRIMES))
        return Q, [str(Q.P.F.m), Q.P.show(Q.m)]
    if kind == "fp_pr":
        p = r.choice(PRIMES)
        return RatRing(PolyRing(Zmod(p))), [str(p)]
    if kind == "fpn_p":
        K = fpmod(r, 1, 2)
        return PolyRing(K), [str(K.P.F.m), K.P.show(K.m)]
    if kind == "fpn_pm":
        K = fpmod(r, 1, 2)
        P = PolyRing(K)
        m = P.randirr(r, r.randint(1, 2)) if field or r.random() < .6 else P.exact(r, r.randint(1, 2))
        return Quot(P, m), [str(K.P.F.m), K.P.show(K.m), P.show(m)]
    raise KeyError(kind)


def opcmd(kind): return kind + "_op"


# ---------------------------------------------------------------- expressions
# precedence levels of the grammar: Q 0, C 1, E 2, T 3, F 4, U 5, P 6
BIN = {"+": (2, 2, 3), "-": (2, 2, 3), "*": (3, 3, 4), "/": (3, 3, 4), "%": (3, 3, 4)}
PAR = [("(", ")"), ("(", ")"), ("[", "]")]


def gen_expr(r, ops, atom, depth):
    if depth == 0 or r.random() < .15:
        return ("num", atom())
    k = r.random()
    if k < .14:
        return ("u" + r.choice("+--"), gen_expr(r, ops, atom, depth - 1))
    if k < .3 and "^" in ops:
        e = r.choice([0, 1, 2, 2, 3, 3, 4, 5, -1, -2, r.randint(-3, 9)])
        return ("^", gen_expr(r, ops, atom, depth - 1), e)
    o = r.choice([x for x in ops if x != "^"])
    return (o, gen_expr(r, ops, atom, depth - 1), gen_expr(r, ops, atom, depth - 1))


def toks(r, n, level, show, extra=.12):
    k = n[0]
    if k == "num":
        own, t = 6, [show(n[1])]
    elif k in ("u+", "u-"):
        own, t = 4, [k[1]] + toks(r, n[1], 5, show, extra)
    elif k in UNARY:
        own, t = 4, [k] + toks(r, n[1], 5, show, extra)
    elif k == "^":
        own, t = 5, toks(r, n[1], 5, show, extra) + ["^"] + (["(", str(n[2]), ")"] if r.random() < .1 else [str(n[2])])
    else:
        own, a, b = BIN[k]
        t = toks(r, n[1], a, show, extra) + ["." if k == "*" and r.random() < .3 else k] + toks(r, n[2], b, show, extra)
    if own < level or (r.random() < extra):
        p = r.choice(PAR)
        t = [p[0]] + t + [p[1]]
    return t


UNARY = ()


def evaluate(R, n):
    k = n[0]
    if k == "num": return n[1]
    if k == "u+": return evaluate(R, n[1])
    if k == "u-": return R.neg(evaluate(R, n[1]))
    if k == "^":
        a = evaluate(R, n[1])
        return R.pow(a, n[2])
    a, b = evaluate(R, n[1]), evaluate(R, n[2])
    return {"+": R.add, "-": R.sub, "*": R.mul, "/": R.div, "%": R.mod}[k](a, b)


def size(v):
    if isinstance(v, tuple):
        return sum(size(x) for x in v) + 1
    return 1


def count(n):
    return 1 + sum(count(x) for x in n[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))


def eval_guard(R, n):
    """The value, Refuse, or Unrep (too large to be a sensible case or not representable on the way)."""
    refused = None
    # every sub-expression has to be in the domain, even when another one is refused first
    k = n[0]
    if k == "num": return n[1]
    vals = []
    for x in n[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            try:
                vals.append(eval_guard(R, x))
            except Refuse as e:
                refused = e
        else:
            vals.append(x)
    if refused:
        raise refused
    v = evaluate(R, (k,) + tuple(("num", x) if not (k == "^" and i == 1) else x for i, x in enumerate(vals)))
    if size(v) > 60:
        raise Unrep()
    return v


def expr_suite(kind):
    def f(c):
        r = c.r
        field = r.random() < .75
        R, args = ctx(kind, r, field)
        ops = ["+", "+", "-", "-", "*", "*", "/", "^", "%"]
        if not getattr(R, "field", False) and isinstance(R, (Zmod, Quot)):
            ops = ["+", "-", "*", "*", "^"]
        depth = r.choice([1, 2, 2, 3, 3, 4])

        def atom():
            v = R.rand(r)
            return v

        n = gen_expr(r, ops, atom, depth)
        cmpop = None
        if r.random() < .25:
            cmpop = r.choice(["==", "!=", "/="] + (["<", "<=", ">", ">="] if ordered(kind) else []))
            m = n if r.random() < .3 else gen_expr(r, ops, atom, r.choice([0, 1, 2]))
        show = lambda v: R.show(v, r)
        try:
            want = eval_guard(R, n)
            if cmpop:
                w2 = eval_guard(R, m)
                want = {"==": want == w2, "!=": want != w2, "/=": want != w2}.get(cmpop)
                if want is None:
                    a, b = eval_guard(R, n), eval_guard(R, m)
                    want = {"<": R.lt(a, b), "<=": not R.lt(b, a), ">": R.lt(b, a), ">=": not R.lt(a, b)}[cmpop]
            ref = None
        except Refuse as e:
            if cmpop:
                eval_or_none(R, m)
                eval_or_none(R, n)
            ref = e
        lv = 2 if cmpop else 0
        t = toks(r, n, lv, show)
        if cmpop:
            t += [cmpop] + toks(r, m, lv, show)
        argv = [opcmd(kind)] + args + t
        c.input(argv, count(n) > 1)
        if ref:
            c.refused(argv, ref)
            return
        o = c.value(argv)
        got = o.out.strip()
        try:
            g = (int(got) if cmpop else R.parse(got))
        except ValueError as e:
            g = "unreadable: %s" % e
        ok = g == (int(want) if cmpop else want) and o.out.count("\n") == 1
        c.check(ok, "expression", lambda: "%s prints %r, the value is %s" % (" ".join(argv), o.out[:300],
                                                                         want if cmpop else R.show(want)))
        c.sample("%s -> %s" % (" ".join(argv), got))
    f.__name__ = "expr_" + kind
    return f


def eval_or_none(R, n):
    try:
        eval_guard(R, n)
    except Refuse:
        pass


def ordered(kind):
    return kind in ("z", "q", "f2", "fp", "f2_p", "fp_p")


KINDS = "z q q_p f2 fp f2_p f2_pm f2_pr f2n_p f2n_pm f2n_pr fp_p fp_pm fp_pr fpn_p fpn_pm".split()
for _k in KINDS:
    suite(expr_suite(_k))


# ---------------------------------------------------------------- vectors
class VecRing:
    def __init__(self, R): self.R = R
    def lift2(self, f, a, b):
        if len(a) != len(b):
            raise Refuse("lengths differ")
        return tuple(f(x, y) for x, y in zip(a, b))
    def add(self, a, b): return self.lift2(self.R.add, a, b)
    def sub(self, a, b): return self.lift2(self.R.sub, a, b)
    def mul(self, a, b): return self.lift2(self.R.mul, a, b)
    def neg(self, a): return tuple(self.R.neg(x) for x in a)
    def pow(self, a, e):
        if isinstance(self.R, F2) and e == 0 and 0 in a:
            raise Unrep()   # the bit type takes 0 ^ 0 to be 1
        return tuple(self.R.pow(x, e) for x in a)


def vec_suite(kind, cmd):
    def f(c):
        r = c.r
        R, args = ctx(kind, r)
        V = VecRing(R)
        n = r.randint(1, 5)

        def atom():
            k = n if r.random() < .97 else r.randint(1, 5)
            return tuple(R.rand(r) for _ in range(k))

        show = lambda v: "[" + " ".join(R.show(x, r) for x in v) + "]"
        e = gen_expr(r, ["+", "-", "*", "*", "^"], atom, r.choice([1, 2, 3]))
        cmpop = r.choice(["==", "!=", "/="]) if r.random() < .2 else None
        m = gen_expr(r, ["+", "-", "*"], atom, r.choice([0, 1])) if cmpop else None
        if cmpop and r.random() < .4:
            m = e
        try:
            want, ref = vec_guard(V, e), None
            if cmpop:
                w2 = vec_guard(V, m)
                if len(want) != len(w2):
                    raise Unrep()
                want = (want == w2) == (cmpop == "==")
        except Refuse as x:
            if cmpop:
                raise Unrep()
            ref = x
        lv = 2 if cmpop else 0
        t = toks(r, e, lv, show) + ([cmpop] + toks(r, m, lv, show) if cmpop else [])
        argv = [cmd] + args + t
        c.input(argv)
        if ref:
            c.refused(argv, ref)
            return
        o = c.value(argv)
        try:
            g = int(o.out) == 1 if cmpop else tuple(R.parse(x) for x in o.out.split())
        except ValueError as x:
            g = "unreadable: %s" % x
        c.check(g == want, "vector_expression", lambda: "%s prints %r, the value is %s" % (
            " ".join(argv), o.out[:300], want if cmpop else show(want)))
        c.sample("%s -> %s" % (" ".join(argv), o.out.strip()))
    f.__name__ = "vec_" + kind
    return f


def vec_guard(V, n):
    k = n[0]
    if k == "num": return n[1]
    refused, vals = None, []
    for x in n[1:]:
        if isinstance(x, tuple):
            try:
                vals.append(vec_guard(V, x))
            except Refuse as e:
                refused = e
        else:
            vals.append(x)
    if refused:
        raise refused
    v = {"u+": lambda a: a, "u-": V.neg, "^": V.pow, "+": V.add, "-": V.sub, "*": V.mul}[k](*vals)
    if size(v) > 200:
        raise Unrep()
    return v


for _k, _c in (("q", "q_vec_op"), ("f2", "f2_vec_op"), ("fp", "fp_vec_op"), ("f2_pm", "f2_pm_vec_op"),
               ("f2n_pm", "f2n_pm_vec_op"), ("fp_pm", "fp_pm_vecop")):
    suite(vec_suite(_k, _c))


# ---------------------------------------------------------------- matrices
UNARY = ("inv", "rech", "transpose")
FIELDS = ("q", "f2", "fp", "f2_pm", "f2n_pm", "fp_pm", "f2_pr", "fp_pr")


def show_mat(R, A, r=None):
    # the notation inside one argument: "[[1 2][3 4]]"
    return "[" + "".join("[" + " ".join(R.show(x, r) for x in a) + "]" for a in A) + "]"


def parse_mat(R, s):
    return [[R.parse(x) for x in l.split()] for l in s.strip().splitlines()]


def mat_gen(r, M, field, n, m, depth):
    """An expression whose value is n x m."""
    if depth == 0 or r.random() < .2:
        return ("num", M.rand(r, n, m))
    k = r.random()
    if k < .1:
        return ("u" + r.choice("+-"), mat_gen(r, M, field, n, m, depth - 1))
    if k < .25:
        return ("transpose", mat_gen(r, M, field, m, n, depth - 1))
    if field and k < .33:
        return ("rech", mat_gen(r, M, field, n, m, depth - 1))
    if field and n == m and k < .43:
        return ("inv", mat_gen(r, M, field, n, n, depth - 1))
    if n == m and k < .55:
        return ("^", mat_gen(r, M, field, n, n, depth - 1), r.choice([1, 2, 3, 5]) if not field else r.choice([-2, -1, 0, 1, 2, 3, 6]))
    if k < .8:
        o = r.choice("+-")
        return (o, mat_gen(r, M, field, n, m, depth - 1), mat_gen(r, M, field, n, m, depth - 1))
    j = r.randint(1, 3)
    return ("*", mat_gen(r, M, field, n, j, depth - 1), mat_gen(r, M, field, j, m, depth - 1))


def mat_eval(M, n):
    k = n[0]
    if k == "num": return n[1]
    refused, vals = None, []
    for x in n[1:]:
        if isinstance(x, tuple):
            try:
                vals.append(mat_eval(M, x))
            except Refuse as e:
                refused = e
        else:
            vals.append(x)
    if refused:
        raise refused
    if k == "^" and vals[1] == 0 and not M.iszero(vals[0]):
        M.inv(vals[0])
    v = {"u+": lambda a: a, "u-": M.neg, "^": M.pow, "+": M.add, "-": M.sub, "*": M.mul, "transpose": M.transpose,
         "inv": M.inv, "rech": lambda a: M.rref(a)[0]}[k](*vals)
    if size(tuple(map(tuple, v))) > 400:
        raise Unrep()
    return v


def mat_suite(kind, cmd):
    def f(c):
        r = c.r
        R, args = ctx(kind, r)
        M = Mat(R)
        field = kind in FIELDS
        n, m = r.randint(1, 4), r.randint(1, 4)
        if r.random() < .5:
            m = n
        if kind in ("q", "z"):
            n, m = min(n, 3), min(m, 3)
        top = r.choice(["", "", "", "", "==", "!="] + (["rank", "det", "det", "kerbas", "rr", "rechr", "rrnz", "rechnz"] if field else []))
        if top == "det":
            m = n
        files = []

        def show(A):
            if r.random() < .1:   # from a file
                p = "m%d" % len(files)
                with open(os.path.join(c.cwd, p), "w") as fh:
                    fh.write("\n".join(" ".join(R.show(x, r) for x in a) for a in A) + "\n")
                files.append(p)
                return p
            return show_mat(R, A, r)

        e = mat_gen(r, M, field, n, m, r.choice([0, 1, 1, 2, 2, 3]))
        try:
            A, ref = mat_eval(M, e), None
        except Refuse as x:
            ref = x
        except IndexError:
            raise Unrep()
        if top in ("==", "!="):
            e2 = e if r.random() < .4 else mat_gen(r, M, field, n, m, 1)
            try:
                B = mat_eval(M, e2)
            except Refuse as x:
                ref = x
            t = toks(r, e, 2, show) + [top] + toks(r, e2, 2, show)
        elif top:
            t = [top] + toks(r, e, 5, show)
        else:
            t = toks(r, e, 0, show)
        argv = [cmd] + args + t
        c.input(argv, n * m > 1)
        if ref:
            c.refused(argv, ref)
            return
        if top == "kerbas" and M.rank(A) == m or top in ("rrnz", "rechnz") and M.iszero(A):
            c.refused(argv, "empty")
            return
        if top in ("rank", "det", "kerbas", "rr", "rechr", "rrnz", "rechnz"):
            # every intermediate of the reduction has to be representable
            M.rref(A)
        o = c.value(argv)
        try:
            if top in ("==", "!="):
                got, want = int(o.out), int((A == B) == (top == "=="))
            elif top == "rank":
                got, want = int(o.out), M.rank(A)
            elif top == "det":
                got, want = R.parse(o.out.strip()), M.det(A)
            else:
                got = parse_mat(R, o.out)
                if top == "":
                    want = A
                elif top == "rechnz":
                    B, p = M.rref(A)
                    want = B[:len(p)]
                elif top in ("rr", "rrnz", "rechr"):
                    # any echelon form with the same row space
                    X = got if top != "rechr" else [list(reversed(a)) for a in reversed(got)]
                    want = got
                    p = M.rref(A)[1]
                    rows = len(A) if top != "rrnz" else len(p)
                    B = X if top != "rechr" else None
                    same = len(X) == rows and (M.rref(got)[0][:len(p)] == M.rref(A)[0][:len(p)]) and M.rank(got) == len(p)
                    lead = [next((j for j, x in enumerate(a) if x != R.zero), m) for a in X]
                    if not same:
                        want = "the row space of " + show_mat(R, A)
                    elif any(not (a < b or a == b == m) for a, b in zip(lead, lead[1:])):
                        want = "an echelon form"
                elif top == "kerbas":
                    want = got
                    k = m - M.rank(A)
                    if len(got) != k or M.rank(got) != k or any(len(v) != m for v in got) or not M.iszero(M.mul(A, M.transpose(got))):
                        want = "a basis of the kernel of " + show_mat(R, A)
        except (ValueError, IndexError) as x:
            got, want = "unreadable: %s" % x, "a value"
        c.check(got == want, "matrix_" + (top if top.isalpha() else "expression"), lambda: "%s prints %r, want %s" % (
            " ".join(argv), o.out[:400], want if not isinstance(want, list) else show_mat(R, want)))
        c.sample("%s -> %s" % (" ".join(argv), o.out.strip().replace("\n", " / ")))
    f.__name__ = "mat_" + kind
    return f


for _k, _c in [(k, k + "_mat_op") for k in KINDS if k not in ("q_p",)]:
    suite(mat_suite(_k, _c))

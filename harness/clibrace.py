"""Brace substitution: a nested command line against the same commands run one after another."""
import os, shutil
from clisuites import suite
from clirun import spawn, short

ODD = ["a'b", 'a"b', "$HOME", "`id`", "a;b", "*", "a b", "\\", "a\\nb", "#x", "~", "&", "|x", "", " ", "{a}", "{{", "a}", "(", "!", "-n",
       "$(id)", "a\tb", "''", "\\'", "%s", "<x", ">"]


def words(out):
    return [w for w in out.replace("\t", " ").replace("\n", " ").split(" ") if w]


class Inner:
    """An inner command and what it may be put next to (None: any)."""

    def __init__(self, r, depth):
        self.r, self.depth = r, depth

    def ints(self, lo=1, hi=60, many=False):
        """Words that print one integer (or several) once expanded."""
        r = self.r
        if self.depth > 0 and r.random() < .55:
            self.depth -= 1
            return ["{"] + self.intcmd(many) + ["}"]
        return [str(r.randint(lo, hi))] if not many else [str(r.randint(lo, hi)) for _ in range(r.randint(1, 4))]

    def intcmd(self, many):
        r = self.r
        k = r.randrange(13)
        if many and k < 3:
            a = r.randint(1, 50)
            return ["z_list", str(a), str(a + r.randint(0, 12))]
        if many and k < 5:
            return ["z_divisors"] + self.ints()
        if many and k < 6:
            a = r.randint(0, 30)
            return ["spffl::intmath::nth_prime", str(a), str(a + r.randint(0, 9))]
        if k < 8:
            return ["z_gcd"] + self.ints(many=True) + self.ints()
        if k == 8:
            return ["z_lcm"] + self.ints(1, 12) + self.ints(1, 12)
        if k == 9:
            return ["z_totient"] + self.ints()
        if k == 10:
            t = ["z_op"]
            for i in range(r.randint(1, 3)):
                if i:
                    t.append(r.choice(["+", "*", "+"]))
                if r.random() < .3:
                    t += ["("] + self.ints() + ["+"] + self.ints() + [")"]
                else:
                    t += self.ints()
            return t
        if k == 11:
            return ["f2_p_deg"] + self.polys()
        return ["z_op"] + self.ints() + [r.choice(["+", "*"])] + self.ints()

    def polys(self, many=False):
        r = self.r
        if self.depth > 0 and r.random() < .6:
            self.depth -= 1
            return ["{"] + self.polycmd(many) + ["}"]
        one = lambda: "%x" % r.randint(2, 400)
        return [one()] if not many else [one() for _ in range(r.randint(1, 4))]

    def polycmd(self, many):
        r = self.r
        k = r.randrange(10)
        if many and k < 2:
            return ["f2_p_list", "-n", "0:%d" % r.randint(1, 5)] if r.random() < .2 else ["f2_p_list", str(r.randint(1, 5))]
        if many and k < 4:
            return ["f2_p_divisors"] + self.polys()
        if k == 5:
            return ["f2_p_find", "-1", "-i", str(r.randint(2, 9))]
        if k == 6:
            return ["f2_p_op"] + self.polys() + ["*"] + self.polys()
        return ["f2_p_gcd"] + self.polys(many=True) + self.polys()

    def top(self):
        r = self.r
        k = r.randrange(12)
        if k < 4:
            return self.intcmd(True)
        if k < 6:
            return self.polycmd(True)
        if k == 6:
            return ["f2_p_factor"] + self.polys(many=True)
        if k == 7:
            return ["z_factor"] + self.ints(many=True)
        if k == 8:
            return ["f2_p_deg"] + self.polys(many=True)
        if k == 9:
            m = "[[%d %d][%d %d]]" % tuple(r.randint(0, 6) for _ in range(4))
            return ["fp_mat_op", "7", r.choice(["det", "rank"]), m] if r.random() < .5 else ["z_op", "{", "fp_mat_op", "7", "det", m, "}", "+"] + self.ints()
        if k == 10:
            p = r.choice([2, 3, 5])
            return ["fp_p_deg", "%d" % p] + sum((["{", "fp_p_op", str(p), "1%d" % r.randrange(p), "^", "{", "z_gcd", "12"] + self.ints() + ["}", "}"] for _ in range(2)), [])
        return ["q_op"] + self.ints() + ["/"] + self.ints() + ["+", "{", "q_op"] + self.ints() + ["/"] + self.ints() + ["}"]


def explicit(c, argv, exe, env, depth=0):
    """The same with every inner command run on its own: (result, what the inner ones reported)."""
    out, err, i = [], "", 0
    while i < len(argv):
        if argv[i] == "{":
            d, j = 1, i + 1
            while True:
                if argv[j] == "{": d += 1
                elif argv[j] == "}":
                    d -= 1
                    if not d: break
                j += 1
            res, e = explicit(c, argv[i + 1:j], exe, env, depth + 1)
            err += e + res.err
            c.event("substitution")
            c.event("depth%d" % (depth + 1))
            if len(res.out) > 4096:
                c.event("long_output")
            out += words(res.out)
            i = j + 1
        else:
            out.append(argv[i])
            i += 1
    return spawn(c.libdir, out, env, None, c.cwd, exe), err


def compare(c, argv, exe="spiff"):
    c.input(argv, "{" in argv)
    got = c.run(argv, None, exe)
    want, err = explicit(c, argv, exe, c.env)
    if want.hang or want.crash or want.flood or "CPU time limit" in err + want.err:
        c.event("inner_abnormal")
        return
    ok = got.out == want.out and got.err == err + want.err and got.rc == want.rc
    c.check(ok, "substitution_result", lambda: "%r: %s; run one by one: %s" % (short(argv), got.describe(),
                                                                              type(got)(argv, want.rc, want.out, err + want.err).describe()))
    c.sample("%s -> %s" % (" ".join(short(argv)), got.out[:60].strip()))
    return got


@suite
def brace_nest(c):
    r = c.r
    g = Inner(r, r.choice([1, 1, 2, 3, 4, 6]))
    argv = g.top()
    for _ in range(6):
        if "{" in argv or r.random() < .05:
            break
        argv = g.top()
    exe = "spiff"
    if r.random() < .1:
        exe = "PATH"
    elif r.random() < .15:
        d = os.path.join(c.cwd, r.choice(["a b", "it's", 'q"t', "$x", "a;b", "(y)", "x&y"]))
        os.makedirs(d, exist_ok=True)
        exe = os.path.join(d, r.choice(["spiff", "sp iff", "sp'iff"]))
        if not os.path.exists(exe):
            os.symlink(os.path.join(c.libdir, "spiff"), exe)
    compare(c, argv, exe)


@suite
def brace_words(c):
    """Words the shell would change, inner commands that fail or print nothing, in every position."""
    r = c.r

    def w():
        return r.choice(ODD) if r.random() < .5 else str(r.randint(1, 30))

    def inner(depth):
        k = r.randrange(8)
        if k == 0:
            return [r.choice(ODD)] + [w() for _ in range(r.randint(0, 2))]
        if k == 1:
            return []
        if k == 2:
            return ["z_op", "1", "/", "0"]
        if k == 3:
            name = r.choice(["m 1", "m'2", "m$3", "m\"4", "m;5", "m*6", "m\\7"])
            with open(os.path.join(c.cwd, name), "w") as f:
                f.write("1 2\n3 %d\n" % r.randint(0, 6))
            return ["fp_mat_op", "7", "det", name]
        if k == 4:
            return ["z_gcd"] + [w() for _ in range(2)]
        if k == 5 and depth:
            return ["z_gcd", "12", "{"] + inner(depth - 1) + ["}"]
        if k == 6:
            return ["z_op", "2", r.choice(["*", "<", ">", "<=", "!="]), "3"]
        return ["z_op", "(", "1", "+", str(r.randint(1, 9)), ")", "*", "-", "2"]

    argv = [r.choice(["z_gcd", "z_lcm", "z_factor", "z_op", "f2_p_deg"])] if r.random() < .85 else []
    for _ in range(r.randint(1, 4)):
        if r.random() < .6:
            argv += ["{"] + inner(2) + ["}"]
        else:
            argv.append(str(r.randint(1, 30)))
        if argv[0] == "z_op" and r.random() < .7:
            argv.append("+")
    compare(c, argv)


@suite
def brace_balance(c):
    """Unbalanced braces are refused; words that merely contain braces are ordinary words."""
    r = c.r
    if r.random() < .3:
        argv = [r.choice(["{a}", "{{", "}}", "a{", "{}", "x}", "{ ", " }", "{1", "}x"])] + [str(r.randint(1, 9)) for _ in range(r.randint(0, 2))]
        c.input(argv)
        g = c.run(argv)
        c.check(("\"%s\"" % argv[0]) in g.err and g.out == "", "plain_word", lambda: "%r: %s" % (argv, g.describe()))
        return
    g = Inner(r, r.choice([1, 2, 3]))
    argv = g.top()
    while "{" not in argv:
        g.depth = 3
        argv = g.top()
    for _ in range(30):
        a = list(argv)
        k = r.randrange(4)
        at = [i for i, x in enumerate(a) if x in "{}"]
        if k == 0:
            a.pop(r.choice(at))
        elif k == 1:
            a.insert(r.randint(0, len(a)), r.choice("{}"))
        elif k == 2:
            i = r.choice(at)
            a[i] = "{" if a[i] == "}" else "}"
        else:
            for i in at:
                a[i] = "}" if a[i] == "{" else "{"
        d, bad = 0, False
        for x in a:
            d += (x == "{") - (x == "}")
            bad |= d < 0
        if bad or d:
            break
    c.input(a)
    got = c.run(a)
    if not got.crash:
        c.check(not got.hang and not got.flood and got.out == "" and "imbalance" in got.err.lower() or
                (got.out == "" and got.err.strip() != "" and not got.hang), "imbalance_refused",
                lambda: "%r: %s" % (short(a), got.describe()))


@suite
def brace_long(c):
    """Outputs longer than any line buffer, in one line and in many."""
    r = c.r
    k = r.randrange(8)
    n = r.choice([4080, 8180, 16360, 16370, 16376, 16380, 16384, 20000] + [32750, 32764] * (k == 0)) + r.randint(0, 12)
    longp = ["{", "f2_p_op", "2", "^", str(n), "+", "%x" % r.randint(1, 255), "}"]
    a = r.choice([1, 500, 9990, 123456])
    longl = ["{", "z_list", str(a), str(a + r.choice([300, 800, 1000, 1500, 6000]) + r.randint(0, 20)), "}"]
    i, j = r.randint(10, 24), r.randint(10, 24)
    longd = ["{", "f2_p_divisors", "{", "f2_p_op", "2", "^", str(i), "*", "3", "^", str(j), "}", "}"]
    argv = [["f2_p_deg"] + longp, ["f2_p_deg", "b"] + longp + ["13"], ["f2_p_op", "1", "+"] + longp + ["+"] + longp,
            ["z_gcd"] + longl, ["z_gcd", "{", "z_gcd"] + longl + ["0", "}"] + longl, ["f2_p_deg"] + longd,
            ["f2_p_deg", "{", "f2_p_op"] + longp + ["*", "{", "f2_p_op"] + longp + ["}", "}"],
            ["z_test_prime"] + longl][k]
    compare(c, argv)

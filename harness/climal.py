"""Malformed command lines: mutations of valid ones.  They end by themselves, and with a diagnostic."""
import re
import clisuites, clivals
from clisuites import KINDS, SUITES, suite

KNOWN = set()


def commands(c):
    """Those the program says it has."""
    if not KNOWN:
        KNOWN.update(l.strip() for l in c.run(["-l"]).out.split("\n") if l.startswith(" "))
        KNOWN.discard("")
    return KNOWN or {"z_op"}


class Captured(Exception):
    pass


class Catch:
    """Stands in for a case: hands over the command line a suite makes instead of running it."""

    def __init__(self, c):
        self.r, self.cwd, self.files, self.argv = c.r, c.cwd, {}, None

    def input(self, *a): pass
    def check(self, *a): pass

    def value(self, argv, stdin=None):
        self.argv = argv
        raise Captured()

    def refused(self, argv, why, stdin=None):
        self.value(argv)


EXPRS = (["expr_" + k for k in KINDS] + ["vec_" + k for k in "q f2 fp f2_pm f2n_pm fp_pm".split()] +
         ["mat_" + k for k in KINDS if k != "q_p"])
NAMES = sorted({n for n in clivals.GEN})
ARGS = {"z": 0, "q": 0, "q_p": 0, "f2": 0, "fp": 1, "f2_p": 0, "f2_pm": 1, "f2_pr": 0, "f2n_p": 1, "f2n_pm": 2, "f2n_pr": 1,
        "fp_p": 1, "fp_pm": 2, "fp_pr": 1, "fpn_p": 2, "fpn_pm": 3}


def catch(c, name):
    k = Catch(c)
    for _ in range(60):
        try:
            SUITES[name](k)
        except Captured:
            if len(k.argv) <= 60:
                return k.argv
        except Exception as e:
            if type(e).__name__ != "Unrep":
                raise
    return None


# ---------------------------------------------------------------- the grammar
OPS = set("+ - * . / % ^ == != /= < <= > >= ( ) [ ]".split())
PREFIX = set("rank inv det kerbas rr rech rechr rrnz rechnz transpose bind".split())
GARBAGE = ["?", "zz", "x+y", "1;2", "@", "--", "**", "1+2", "'", "\\", "1..2", "#", "_", "q", "==3", "(", ")", "[", "]", "=", "&", "\t", "\xff", "g"]


class No(Exception):
    pass


def grammatical(t, num, mat):
    """Can the tokens be an expression?  Takes the benefit of every doubt: what this rejects is malformed for sure."""
    i = [0]

    def peek(): return t[i[0]] if i[0] < len(t) else None

    def take():
        i[0] += 1
        return t[i[0] - 1]

    def P(power=False):
        x = peek()
        if x in ("(", "["):
            take()
            k = E() if not power else P(True)
            if peek() not in (")", "]"): raise No()
            take()
            return k
        if x is None or x in OPS: raise No()
        take()
        if power:
            if not re.fullmatch(r"\s*[-+]?\d+\s*", x): raise No()
        elif not num(x): raise No()

    def U():
        P()
        while peek() == "^":
            take()
            P(True)

    def F():
        if peek() in ("+", "-") or mat and peek() in PREFIX: take()
        U()

    def chain(f, ops):
        f()
        while peek() in ops:
            take()
            f()
            if ops is CMP: break

    CMP = ("==", "!=", "/=", "<", "<=", ">", ">=")
    T = lambda: chain(F, ("*", ".", "/", "%"))
    E = lambda: chain(T, ("+", "-"))
    try:
        chain(E, CMP)
        return i[0] == len(t)
    except No:
        return False


def mutate(r, t, pool):
    t = list(t)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k, j = r.random(), r.randrange(len(t)) if t else 0
        if k < .25 and t: del t[j]
        elif k < .35 and t: t.insert(j, t[j])
        elif k < .45 and len(t) > 1:
            l = r.randrange(len(t))
            t[j], t[l] = t[l], t[j]
        elif k < .6 and t: t[j] = r.choice(pool)
        elif k < .75: t.insert(r.randint(0, len(t)), r.choice(pool))
        elif k < .82 and t: t = t[:j]
        elif k < .88 and t: t = t[j:]
        elif k < .94: t.insert(r.randint(0, len(t)), r.choice(GARBAGE))
        elif t: t[j] = t[j] + r.choice(["x", " 1", "!", ")", "(", "?", ";"])
    return t


def chk(c, ok, event, argv, detail, o=None):
    c.event(event)
    if o is not None and o.err.startswith("Usage"):   # and that is the end of it
        c.event("usage-ends")
        if o.rc == 0: c.fail("usage-ends:" + argv[0][:40], "%r says how it is used and goes on, or succeeds: %s" % (argv, o.describe()))
    if not ok: c.fail("%s:%s" % (event, argv[0][:40] if argv else ""), detail())


def malformed(c, argv, why, stdin=None):
    """No answer: a diagnostic, nothing on standard output, a bounded run."""
    c.input((argv, stdin))
    c.refused(argv, why, stdin)


ANYMANY = set("z_test_prime z_factor f2_p_deg f2_p_period f2_p_factor f2_p_divisors fp_p_deg fp_p_test fp_p_factor f2n_p_deg f2n_p_test f2n_p_factor".split())


def maybe_none(name):
    """Commands whose answer is a sequence, rightly empty for a count of zero or a range of none."""
    return name in ANYMANY or name.endswith(("_random", "_list", "_find", "nth_prime"))


def survive(c, argv, key, stdin=None, silent=False):
    """Whether or not it has an answer: it ends by itself, and says something."""
    silent = silent or maybe_none(argv[0])
    c.input((argv, stdin))
    o = c.run(argv, stdin)
    if o.crash: return o
    chk(c, not o.hang and not o.flood, "ends", argv, lambda: "%r: %s" % (argv, o.describe()), o)
    if not silent: chk(c, o.out.strip() != "" or o.err.strip() != "", key, argv, lambda: "%r answers nothing at all" % (argv,))
    return o


def usage(c, argv, free):
    """A command that needs operands and has none: it says how it is used, and fails."""
    c.input((argv, None))
    o = c.run(argv)
    if not o.crash:
        chk(c, not o.hang and not o.flood and o.out == "" and o.err.strip() != "" and (o.rc != 0 or free), "usage", argv, lambda: "%r: %s" % (argv, o.describe()))


@suite
def mal_expr(c):
    r = c.r
    name = EXPRS[c.idx % len(EXPRS)]
    argv = catch(c, name)
    if argv is None: return
    kind = name.split("_", 1)[1]
    n = 1 + ARGS[kind]
    atoms = {x for x in argv[n:] if x not in OPS}
    num = lambda x: x in atoms or len(x) < 30 and re.fullmatch(r"\s*[-+0-9a-fA-F:,/. ]+\s*", x) is not None or name.startswith(("vec", "mat"))
    pool = sorted(atoms) + ["+", "-", "*", "/", "^", "(", ")", "[", "]", "==", "<", ".", "%", "0", "1", "-1"]
    if name.startswith("mat"): pool += sorted(PREFIX)
    t = mutate(r, argv[n:], pool)
    if "^" in t and any(re.fullmatch(r"[-+]?\d{2,}", x) for x in t) or t.count("^") > 3:
        c.event("skipped")   # may take long, and rightly so
        return
    if not grammatical(t, num, name.startswith("mat")):
        malformed(c, argv[:n] + t, "malformed expression")
    else:
        survive(c, argv[:n] + t, "answered")


# ---------------------------------------------------------------- the other commands
def spec(c, name):
    for _ in range(40):
        try:
            s = clivals.GEN[name](c.r)
        except Exception as e:
            if type(e).__name__ not in ("Unrep", "Refuse"):
                raise
            continue
        return s
    return None


FIELDS = [n for n in EXPRS if ARGS[n.split("_", 1)[1]]]
NOTVALUE = ["?", "zz", "x+y", "1;2", "@", "--", "**", "1+2", "'", "\\", "1..2", "#", "_", "q!", "=", "&", "$", "g", "()", "0xg", "%", "\xff", "-?", "1/", ","]


@suite
def mal_args(c):
    """One operand of a valid command line becomes something that is not a value."""
    r = c.r
    name = NAMES[c.idx % len(NAMES)]
    s = spec(c, name)
    if s is None or len(s.argv) < 2: return
    argv = list(s.argv)
    cand = [i for i in range(1, len(argv)) if argv[i] not in s.files and argv[i] != "-"]
    if not cand: return
    i = r.choice(cand)
    argv[i] = r.choice(NOTVALUE)
    clivals.place(c, s)
    c.input((argv, s.stdin))
    o = c.run(argv, s.stdin)
    if not o.crash:
        chk(c, not o.hang and not o.flood and o.err.strip() != "", "diagnosed", argv,
                lambda: "%r: operand %d is not a value: %s" % (argv, i, o.describe()), o)


@suite
def mal_field(c):
    """An expression over a field, or modulo a polynomial, that is not given as one."""
    r = c.r
    name = FIELDS[c.idx % len(FIELDS)]
    argv = catch(c, name)
    if argv is None: return
    i = r.randint(1, ARGS[name.split("_", 1)[1]])
    argv[i] = r.choice(NOTVALUE)
    if r.random() < .2: argv = argv[:i + 1]
    c.input(argv)
    o = c.run(argv)
    if not o.crash:
        chk(c, not o.hang and not o.flood and o.err.strip() != "", "diagnosed", argv, lambda: "%r: argument %d is not a value: %s" % (argv, i, o.describe()), o)


@suite
def mal_count(c):
    """A valid command line with operands missing, repeated or added: it ends by itself and says something."""
    r = c.r
    j = c.idx % (len(NAMES) + len(EXPRS))
    if j >= len(NAMES):     # the commands that take expressions; what is left of one of those is seldom one
        argv = catch(c, EXPRS[j - len(NAMES)])
        if argv is None: return
        argv = argv[:r.choice([1, 1, 1, 2, 3, r.randint(1, len(argv))])]
        if len(argv) == 1: return usage(c, argv, not ARGS[EXPRS[j - len(NAMES)].split("_", 1)[1]])
        return survive(c, argv, "answered")
    name = NAMES[j]
    s = spec(c, name)
    if s is None: return
    argv = list(s.argv)
    k = r.random()
    if k < .3: argv = argv[:1]
    elif k < .6: argv = argv[:r.randint(1, len(argv))]
    elif k < .8 and len(argv) > 1: del argv[r.randrange(1, len(argv))]
    elif len(argv) > 1:
        argv.insert(r.randint(1, len(argv)), r.choice(argv[1:] + ["-e", "-1", "0", "1"]))
    clivals.place(c, s)
    survive(c, argv, "answered", r.choice([s.stdin, s.stdin, None, ""]))


@suite
def mal_zero(c):
    """Zeros, units and negative numbers where something else was."""
    r = c.r
    name = NAMES[c.idx % len(NAMES)]
    s = spec(c, name)
    if s is None or len(s.argv) < 2: return
    argv = list(s.argv)
    for _ in range(r.choice([1, 1, 2, 3])):
        i = r.randrange(1, len(argv))
        if argv[i] in s.files: continue
        argv[i] = r.choice(["0", "0", "0", "1", "-1", "-2", "00", "2", "-2147483648", "", " ", "0-0", "3-1", "-3--1", "0,0", "0:0", "1/0", "0/0", "-0"])
    clivals.place(c, s)
    survive(c, argv, "answered", s.stdin)


@suite
def mal_stdin(c):
    """Damaged matrix files and standard input."""
    r = c.r
    names = [n for n in NAMES if "mat" in n or "comp_mx" in n]
    name = names[c.idx % len(names)]
    s = spec(c, name)
    if s is None: return

    def damage(t):
        k = r.random()
        if k < .15: return ""
        if k < .3: return t[:r.randint(0, len(t))]
        if k < .45: return t.replace(" ", "", 1)
        if k < .6: return t.replace("\n", " ", 1)
        if k < .7: return t + "\n" + r.choice(NOTVALUE) + "\n"
        if k < .8:
            p = r.randint(0, len(t))
            return t[:p] + r.choice(["?", "x", " ", "\n", "\n\n", ",", "-", "\0", "\xff", "[", "]", "1/0"]) + t[p:]
        if k < .9: return " " * 70000 + t
        return "\n".join(l[::-1] for l in t.split("\n"))
    s.files = {k: damage(v) if r.random() < .8 else v for k, v in s.files.items()}
    if s.stdin: s.stdin = damage(s.stdin)
    argv = list(s.argv)
    for i in range(1, len(argv)):
        if argv[i] in s.files and r.random() < .1: argv[i] = r.choice(["/nonexistent", ".", "", "/dev/null"])
    clivals.place(c, s)
    c.input((argv, s.stdin, sorted(s.files.items())))
    o = c.run(argv, s.stdin)
    if not o.crash:
        chk(c, not o.hang and not o.flood and (o.out.strip() != "" or o.err.strip() != ""), "answered", argv, lambda: "%r stdin %r files %r: %s" % (argv, s.stdin, s.files, o.describe()))


ALL = set("""z_op z_gcd z_lcm z_totient z_test_prime spffl::intmath::nth_prime z_list z_factor z_divisors z_mat_op q_op q_vec_op q_mat_op
q_cyclotomic q_p_op f2_op f2_random""".split())


@suite
def mal_names(c):
    """No such command."""
    r = c.r
    name = r.choice(NAMES + sorted(ALL))
    k = r.random()
    i = r.randrange(len(name))
    if k < .2: name = name[:i] + name[i + 1:]
    elif k < .4: name = name[:i] + r.choice("abfzq_ 0\n\xe9") + name[i:]
    elif k < .5: name = name.upper()
    elif k < .6: name = name + r.choice([" ", "_", "x", "\n", "-", "op"])
    elif k < .7: name = r.choice(NOTVALUE + ["", " ", "-", "-h", "--help", "-L", "-ll", "help", "spiff", "/", ".", "..", "*"])
    elif k < .8: name = "".join(r.choice("fz2pnmq_op") for _ in range(r.randint(1, 12)))
    elif k < .9: name = name * r.choice([2, 50, 2000])
    else: name = name[:i]
    if name in commands(c) or "{" in name or "}" in name: return
    malformed(c, [name] + [r.choice(["1", "2", "x", "+", ""]) for _ in range(r.randint(0, 4))] if name or r.random() < .5 else [], "no such command")


@suite
def mal_long(c):
    """Tokens longer than any buffer, and deep brackets."""
    r = c.r
    k = r.randrange(6)
    if k == 0:    # numbers of any length
        kind = r.choice(KINDS)
        R, args = clisuites.ctx(kind, r)
        big = r.choice("123456789") + "".join(r.choice("0123456789") for _ in range(r.choice([15, 40, 300, 5000, 60000])))
        argv = [kind + "_op"] + args + r.choice([[big], [big, "+", big], ["1", "-", "-" + big], ["1", "^", big]])
        if kind in ("z", "q", "f2", "fp", "fp_p", "fp_pm", "fpn_p", "fpn_pm", "fp_pr") and not (kind.startswith("fp") and kind != "fp" and int(args[0]) < 10):
            return malformed(c, argv, "number out of range")
        if len(big) > 1000 and kind in ("f2_pr", "f2_p") or argv[-2] == "^": return
        return survive(c, argv, "answered")
    if k == 1:    # words
        name = r.choice(NAMES)
        s = spec(c, name)
        if s is None or len(s.argv) < 2: return
        argv = list(s.argv)
        cand = [i for i in range(1, len(argv)) if argv[i] not in s.files and argv[i] != "-"]
        if not cand: return
        argv[r.choice(cand)] = (r.choice(["z", "?", "-", ",", ":", ".", "/", "x "]) * r.choice([100, 3000, 100000]))[:100000]
        clivals.place(c, s)
        return malformed2(c, argv, s.stdin)
    kind = r.choice(KINDS)
    R, args = clisuites.ctx(kind, r)
    n = r.choice([50, 400, 1900]) if k == 4 else r.choice([50, 400, 1900, 9000, 40000])
    one = R.show(R.one)
    if k == 2: malformed(c, [kind + "_op"] + args + ["("] * n + [one] + [")"] * (n - 1), "unbalanced")
    elif k == 3: malformed(c, [kind + "_op"] + args + ["("] * n, "unbalanced")
    elif k == 4: malformed(c, [kind + "_op"] + args + [one, "+"] * n, "operand missing")
    else:
        argv = [kind + "_op"] + args + ["("] * n + [one] + [")"] * n
        if n > 1900:   # answered or refused
            return survive(c, argv, "answered")
        c.input(argv)
        o = c.value(argv)
        c.check(R.parse(o.out.strip()) == R.one if o.out.strip() else False, "nested", lambda: "%d brackets around one give %r" % (n, o.out))


def malformed2(c, argv, stdin):
    c.input((argv, stdin))
    o = c.run(argv, stdin)
    if not o.crash:
        chk(c, not o.hang and not o.flood and o.err.strip() != "", "diagnosed", argv, lambda: "%r: %s" % ([a[:60] for a in argv], o.describe()))


@suite
def mal_soup(c):
    """Anything at all."""
    r = c.r
    every = sorted(commands(c))
    name = every[c.idx % len(every)]
    small = ["0", "1", "2", "3", "5", "7", "b", "13", "11", "101", "1,1", "1,0,2", "1:1", "1:0:1", "-1", "1/2", "1-2", "2-1", "-", "+", "*", "^", "(", ")", "[", "]",
             "[1", "1]", "[1 2]", "[[1 0][0 1]]", "[[1]", "==", "-e", "-i", "-p", "-a", "-u", "-r", "-1", "-mp", "-m", "", " ", "x", "det", "inv"]
    argv = [name] + [r.choice(small) for _ in range(r.randint(0, 6))]
    survive(c, argv, "answered", r.choice([None, "", "1 0\n0 1\n", "1\n"]))

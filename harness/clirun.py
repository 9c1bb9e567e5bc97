"""Runs spiff (sanitized build) on generated command lines and judges what it prints."""
import hashlib, os, random, re, resource, shutil, subprocess, tempfile

import pyref

CPU = 20
OUTMAX = 64 << 20


class Result:
    def __init__(self, argv, rc, out, err):
        self.argv, self.rc, self.out, self.err = argv, rc, out, err

    @property
    def hang(self):
        return self.rc in (-24, -9) or "FW-WALL" in self.err

    @property
    def flood(self):
        return self.rc == -25 or len(self.out) >= OUTMAX

    @property
    def crash(self):
        if "runtime error:" in self.err or "AddressSanitizer" in self.err or "LeakSanitizer" in self.err:
            return True
        return self.rc < 0 and not self.hang

    def describe(self):
        return "rc=%s out=%r err=%r" % (self.rc, self.out[:300], self.err[:600])


def _limits():
    resource.setrlimit(resource.RLIMIT_CPU, (CPU, CPU + 2))
    resource.setrlimit(resource.RLIMIT_FSIZE, (OUTMAX, OUTMAX))


def spawn(libdir, argv, env, stdin=None, cwd=None, prog="spiff"):
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        fi = subprocess.DEVNULL
        tf = None
        if stdin is not None:
            tf = tempfile.TemporaryFile()
            tf.write(stdin.encode("latin-1"))
            tf.seek(0)
            fi = tf
        try:
            exe = os.path.join(libdir, prog)
            if prog == "PATH":  # found the way a shell finds it
                exe, env = "spiff", dict(env, PATH=libdir + ":" + env.get("PATH", "/usr/bin:/bin"))
            p = subprocess.run([exe] + [a.encode("latin-1") for a in argv], stdin=fi, stdout=fo,
                               stderr=fe, env=env, cwd=cwd, preexec_fn=_limits, timeout=20 * CPU, start_new_session=True)
            rc, extra = p.returncode, ""
        except subprocess.TimeoutExpired:
            rc, extra = -9, "FW-WALL"
        if tf:
            tf.close()
        fo.seek(0)
        fe.seek(0)
        return Result(argv, rc, fo.read(OUTMAX).decode("latin-1"), fe.read(1 << 20).decode("latin-1") + extra)


class Case:
    def __init__(self, section, seed, idx, tier, libdir, env, cwd, res):
        self.r = random.Random("%s/%s/%d" % (seed, section, idx))
        self.section, self.idx, self.tier, self.libdir, self.env, self.cwd, self.res = section, idx, tier, libdir, env, cwd, res
        self.seed = seed
        self.cmds = []

    def run(self, argv, stdin=None, prog="spiff"):
        """Runs one command; anything abnormal is a finding whatever the suite."""
        rec = argv if len(str(argv)) < 4000 else [str(argv)[:4000]]
        files = getattr(self, "files", None)
        self.cmds.append(rec if stdin is None and prog == "spiff" and not files else dict(argv=rec, stdin=stdin, prog=prog, files=files))
        r = spawn(self.libdir, argv, self.env, stdin, self.cwd, prog)
        self.event("exit")
        if r.crash:
            import check
            kind, _ = check.crash_key(r.err, r.rc)
            self.fail("crash:%s:%s" % (argv[0] if argv else "", kind), "%r ended abnormally: %s" % (short(argv), check.excerpt(r.err)))
        return r

    def input(self, s, nontrivial=True):
        self.res["inputs"] += 1
        if nontrivial:
            self.res["hashes"].add(hashlib.blake2b(str(s).encode(), digest_size=8).digest())

    def event(self, k, n=1):
        self.res["events"][k] = self.res["events"].get(k, 0) + n

    def sample(self, s):
        if len(self.res["samples"]) < 2:
            self.res["samples"].append(s[:300])

    def fail(self, key, detail):
        if sum(1 for f in self.res["fails"] if f["key"] == key) < 3:
            self.res["fails"].append(dict(key=key, case=self.idx, detail=detail[:1500], section=self.section, driver="spiff",
                                          seed=self.seed, cmds=self.cmds[-3:], t="fail"))

    def check(self, ok, key, detail):
        self.event(key)
        if not ok:
            self.fail(key, detail() if callable(detail) else detail)
        return ok

    def value(self, argv, stdin=None):
        """A command that must answer: returns its output."""
        r = self.run(argv, stdin)
        if not r.crash:
            self.check(not r.hang and not r.flood and r.err == "", "answered", lambda: "%r: %s" % (short(argv), r.describe()))
        return r

    def refused(self, argv, why, stdin=None):
        """A command that has no answer: a diagnostic and nothing that looks like a value."""
        r = self.run(argv, stdin)
        if not r.crash:
            self.check(not r.hang and not r.flood and r.err.strip() != "" and r.out.strip() == "", "refused",
                       lambda: "%r has no value (%s): %s" % (short(argv), why, r.describe()))
        return r


def short(argv):
    return [a if len(a) < 120 else a[:100] + "..." for a in argv]


def run_chunk(job, seed, tier, tmp, libdir, env):
    import clisuites, clibrace, clivals, climal
    res = dict(section=job["section"], driver="spiff", cases=0, inputs=0, events={}, samples=[], fails=[], hashes=set(),
               leak_checked=0, allocs=0, errors=[])
    fn = clisuites.SUITES[job["section"]]
    cwd = tempfile.mkdtemp(prefix="cli.", dir=tmp)
    try:
        for i in range(job["start"], job["start"] + job["count"]):
            c = Case(job["section"], seed, i, tier, libdir, env, cwd, res)
            for _ in range(50):
                try:
                    fn(c)
                    break
                except pyref.Unrep:
                    continue
            res["cases"] += 1
            if len(res["fails"]) >= 12:
                break
    finally:
        shutil.rmtree(cwd, ignore_errors=True)
    return res

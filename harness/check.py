#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property on /repo's working tree.

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=.. replay=..": broken.
Exit 2: the check itself could not give an answer.
"""
import array, json, mmap, multiprocessing, os, re, shutil, struct, subprocess, sys, tempfile, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import registry

VERIF = build.VERIF
SANENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:handle_abort=1:handle_sigfpe=1:handle_segv=1:"
                    "hard_rss_limit_mb=3500:max_allocation_size_mb=2500:detect_stack_use_after_return=1:"
                    "strict_string_checks=1:alloc_dealloc_mismatch=1:quarantine_size_mb=64:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
}


def env():
    e = dict(os.environ)
    e.update(SANENV)
    sym = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
    if sym:
        e["ASAN_SYMBOLIZER_PATH"] = sym
        e["UBSAN_OPTIONS"] += ""
    return e


def crash_key(text, rc):
    """A stable name for an abnormal ending: kind of report + innermost project function."""
    kind = None
    if "FW-HANG" in text:
        return "hang", "a case used up its CPU limit"
    if "FW-EXIT-IN-CASE" in text:
        return "exit", "the library ended the program"
    m = re.search(r"runtime error: (.*)", text)
    if m:
        kind = "ub:" + re.sub(r"-?\b\d[\dxa-f]*\b", "N", m.group(1))[:60]
    if not kind:
        m = re.search(r"AddressSanitizer:? ([\w-]+)", text)
        if m:
            kind = "asan:" + m.group(1)
    if not kind:
        m = re.search(r"== (Invalid (?:read|write) of size|Conditional jump|Use of uninitialised value|Syscall param|Invalid free|Mismatched free)", text)
        if m:
            kind = "memcheck:" + m.group(1)
    if not kind:
        kind = "rc%s" % rc
    fr = None
    for m in re.finditer(r"(?:#\d+ 0x[0-9a-f]+ in|(?:at|by) 0x[0-9A-F]+:) ([^\n]*)", text):
        l = m.group(1)
        if "/spffl/" in l or "spffl::" in l or "/cli/" in l or re.match(r"t(vector|matrix|stack|facinfo)<", l):
            fr = re.sub(r"\(.*", "", re.sub(r" /.*", "", l)).strip()
            break
    return kind + ("@" + fr if fr else ""), (m.string if False else "")


def excerpt(text):
    i = min([x for x in (text.find("runtime error"), text.find("ERROR: AddressSanitizer"), text.find("FW-")) if x >= 0] or [0])
    i = max(0, text.rfind("\n", 0, i) + 1)
    return text[i:i + 1800]


class Driver:
    """Runs one chunk of one section, going on after cases that end the process."""

    def __init__(self, job, seed, tier, tmp, libdir):
        self.__dict__.update(job)
        self.seed, self.tier, self.tmp, self.libdir = seed, tier, tmp, libdir

    def once(self, start, count, tag):
        base = os.path.join(self.tmp, "%s_%s_%d" % (self.section, tag, start))
        out, prog, hsh, err = base + ".jsonl", base + ".prog", base + ".hash", base + ".err"
        cmd = [os.path.join(self.libdir, self.driver), "--section", self.section, "--seed", str(self.seed),
               "--start", str(start), "--count", str(count), "--out", out, "--progress", prog, "--hashes", hsh,
               "--cpu", str(self.cpu)]
        if self.leak:
            cmd.append("--leak")
        if self.tier == "thorough":
            cmd.append("--thorough")
        if self.valgrind:
            cmd = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no",
                   "--undef-value-errors=yes", "--track-origins=no"] + cmd
        with open(err, "wb") as fe:
            try:
                r = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=fe, env=env(),
                                   timeout=self.wall)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "wall"
        with open(err, "rb") as fe:
            text = fe.read()[-60000:].decode("latin-1")
        pos = start
        try:
            pos = struct.unpack("Q", open(prog, "rb").read(8))[0]
        except Exception:
            pass
        fails, done = [], None
        if os.path.exists(out):
            for l in open(out, errors="replace"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d["t"] == "fail":
                    fails.append(d)
                elif d["t"] == "done":
                    done = d
        hashes = set()
        if done and os.path.exists(hsh):
            a = array.array("Q")
            with open(hsh, "rb") as fh:
                a.frombytes(fh.read())
            hashes = set(a)
        for f in (out, prog, hsh, err):
            if os.path.exists(f):
                os.unlink(f)
        return rc, pos, text, fails, done, hashes

    def run(self):
        res = dict(section=self.section, driver=self.driver, cases=0, inputs=0, events={}, samples=[], fails=[],
                   hashes=set(), leak_checked=0, allocs=0, errors=[])
        start, end, crashes = self.start, self.start + self.count, 0
        while start < end:
            rc, pos, text, fails, done, hashes = self.once(start, end - start, "m")
            res["fails"] += [dict(f, section=self.section, driver=self.driver, seed=self.seed, leak=self.leak,
                                  valgrind=self.valgrind) for f in fails]
            if done and rc == 0:
                for k in ("cases", "inputs", "leak_checked", "allocs"):
                    res[k] += done[k]
                for k, v in done["events"].items():
                    res["events"][k] = res["events"].get(k, 0) + v
                res["samples"] += done["samples"]
                res["hashes"] |= hashes
                break
            if rc == "wall":
                res["errors"].append("wall-clock watchdog in %s at case %d" % (self.section, pos))
                break
            if rc == 98 or (rc == 127 and pos == start and not text):
                res["errors"].append("driver error %s in %s: %s" % (rc, self.section, text[-300:]))
                break
            # Cases start..pos-1 were judged; the one at pos ended the process.  Confirm it alone.
            rc2, pos2, text2, fails2, done2, _ = self.once(pos, 1, "c")
            if rc2 == 0 and rc == 97:
                pass  # a CPU limit that does not repeat is no finding
            else:
                if rc2 != 0:
                    rc, text = rc2, text2
                kind, _ = crash_key(text, rc)
                res["fails"].append(dict(key="crash:%s:%s" % (self.section, kind), case=pos, detail=excerpt(text),
                                         section=self.section, driver=self.driver, seed=self.seed, leak=self.leak,
                                         valgrind=self.valgrind))
            res["cases"] += pos - start + 1
            crashes += 1
            start = pos + 1
            if crashes >= 3:
                break
        return res


def narrowed(job, r):
    """C22 and C23 judge one aspect of an execution; what the values are is for the other properties."""
    if job.get("judge") == "leak":
        r["fails"] = [f for f in r["fails"] if f["key"].startswith("leak:")]
        r["events"] = {"windows_without_growth": r["leak_checked"]} if r["leak_checked"] else {}
    elif job.get("judge") == "clean":
        r["fails"] = [f for f in r["fails"] if f["key"].startswith("crash:")]
        r["events"] = {"memcheck_clean" if job.get("valgrind") else "sanitizer_clean": r["cases"]} if r["cases"] else {}
    return r


def run_job(a):
    kind, job, seed, tier, tmp, dirs = a
    try:
        if kind == "driver":
            return narrowed(job, Driver(job, seed, tier, tmp, dirs[job["config"]]).run())
        import clirun
        return narrowed(job, clirun.run_chunk(job, seed, tier, tmp, dirs[job["config"]], env()))
    except Exception:
        return dict(section=job["section"], driver=job.get("driver", "cli"), cases=0, inputs=0, events={}, samples=[],
                    fails=[], hashes=set(), leak_checked=0, allocs=0, errors=[traceback.format_exc()])


def load_known():
    known, fixed = [], []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(\S+) key=(\S+)(?: probe=(\S+))? (.*)", l)
            if m:
                known.append(dict(property=m.group(1), key=m.group(2), probe=m.group(3), what=m.group(4)))
    return known


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    budget = 780 if tier == "quick" else 6 * 3600
    plan = registry.plan(prop, tier)
    if not plan:
        print("no plan for", prop)
        return 2
    jobs = []
    needs = {}
    for j in plan:
        needs.setdefault(j["config"], set()).add(j["driver"])
        for x in j.get("also", []):
            needs[j["config"]].add(x)
        n, k = j["n"], j.get("chunks") or max(1, min(16 if tier == "quick" else 64, j["n"] // max(1, j.get("minchunk", 40))))
        step = (n + k - 1) // k
        s = 0
        while s < n:
            c = min(step, n - s)
            jobs.append((j["kind"], dict(j, start=s, count=c)))
            s += c
    dirs = {}
    try:
        for cfg, t in sorted(needs.items()):
            dirs[cfg] = build.build(cfg, sorted(t))
    except build.BuildError as e:
        print(e)
        print("BUILD-ERROR: /repo's working tree or a driver does not build")
        return 2
    tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="vrun.", dir=build.BUILD)
    results = []
    truncated = False
    known = [k for k in load_known() if k["property"] == prop]
    knownkeys = {k["key"]: k for k in known}
    nviol = 0
    try:
        # interleave the sections so that a truncated run has seen all of them
        jobs.sort(key=lambda j: (j[1]["start"] / max(1, j[1]["n"]), -j[1].get("weight", 1)))
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(int(os.environ.get("VERIF_JOBS", "8"))) as pool:
            it = pool.imap_unordered(run_job, [(k, j, seed, tier, tmp, dirs) for k, j in jobs])
            for _ in range(len(jobs)):
                try:
                    r = it.next(timeout=max(1, budget - (time.time() - t0)))
                except multiprocessing.TimeoutError:
                    truncated = True
                    break
                results.append(r)
                nviol += sum(1 for f in r["fails"] if f["key"] not in knownkeys)
                if nviol >= 40:
                    truncated = True
                    break
            pool.terminate()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    events, samples, fails, errors, hashes = {}, [], {}, [], set()
    per = {}
    tot = dict(cases=0, inputs=0, leak_checked=0, allocs=0)
    for r in results:
        for k in tot:
            tot[k] += r[k]
        p = per.setdefault(r["section"], dict(cases=0, judgements=0))
        p["cases"] += r["cases"]
        for k, v in r["events"].items():
            events[r["section"] + ":" + k if ":" not in k else k] = events.get(r["section"] + ":" + k if ":" not in k else k, 0) + v
            p["judgements"] += v
        if len(samples) < 24:
            have = sum(1 for s in samples if s.startswith(r["section"] + ": "))
            for s in r["samples"][:max(0, 2 - have)]:
                samples.append(r["section"] + ": " + s)
        errors += r["errors"]
        hashes |= {(r["section"], h) for h in r["hashes"]}
        for f in r["fails"]:
            fails.setdefault(f["key"], []).append(f)
    wall = time.time() - t0
    # Verdict
    rdir = os.path.join(VERIF, "replay")
    unlisted = 0
    for key in sorted(fails):
        fs = fails[key]
        if key in knownkeys:
            print("KNOWN-FINDING: property=%s %s (seen %d times)" % (prop, knownkeys[key]["what"], len(fs)))
            knownkeys[key]["seen"] = True
            continue
        unlisted += 1
        os.makedirs(rdir, exist_ok=True)
        f = fs[0]
        name = re.sub(r"[^A-Za-z0-9_.-]+", "_", "%s_%s" % (prop, key))[:120] + ".json"
        rp = os.path.join(rdir, name)
        with open(rp, "w") as fh:
            json.dump(dict(property=prop, key=key, tier=tier, seed=seed, occurrences=len(fs), first=f,
                           replay="python3 /verif/harness/replay.py " + rp), fh, indent=1)
        print("  %s [%s case %s] %s" % (key, f.get("section"), f.get("case"), str(f.get("detail"))[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    for k in known:
        if not k.get("seen"):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    judged = sum(v for v in events.values())
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=tot["cases"], distinct_nontrivial=len(hashes),
            rule=registry.rule(prop), samples=samples[:24] or ["(no sample recorded)"],
            judgements=judged, sections=per, events={k: events[k] for k in sorted(events)},
            leak_windows=tot["leak_checked"], allocations_tracked=tot["allocs"], truncated=truncated),
        assumptions=registry.assumptions(prop), wall_s=round(wall, 2), build_s=round(tb, 2), violations=unlisted)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct inputs, %d judgements, %d violations, build %.1fs, wall %.1fs" % (
        prop, tier, seed, tot["cases"], len(hashes), judged, unlisted, tb, wall))
    if unlisted:
        return 1
    for e in errors[:5]:
        print("ERROR:", e)
    if errors:
        return 2
    planned = sum(j["n"] for j in plan)
    if tot["cases"] < planned // 2 or judged == 0 or len(hashes) == 0:
        print("INCONCLUSIVE: only %d of %d cases were run" % (tot["cases"], planned))
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)

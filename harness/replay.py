#!/usr/bin/env python3
"""replay.py FILE: runs the recorded case again against /repo's working tree."""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, check, clirun
d = json.load(open(sys.argv[1]))
f = d["first"]
if f["driver"] == "spiff":
    libdir = build.build("san", ["spiff", "cli_cli_gcd", "cli_cli_psdes"])
    tmp = tempfile.mkdtemp()
    for cmd in f.get("cmds", []):
        stdin, prog = None, "spiff"
        if isinstance(cmd, dict):
            for n, text in (cmd.get("files") or {}).items():
                with open(os.path.join(tmp, n), "w") as g:
                    g.write(text)
            cmd, stdin, prog = cmd["argv"], cmd["stdin"], cmd["prog"]
            if prog.startswith("/"):
                prog = "spiff"
        print("$", prog, " ".join(repr(x) for x in cmd), "" if stdin is None else "< " + repr(stdin))
        r = clirun.spawn(libdir, cmd, check.env(), stdin, tmp, prog=prog)
        print(r.describe())
    print("oracle:", f["detail"])
else:
    cfg = "plain" if f.get("valgrind") else "san"
    libdir = build.build(cfg, [f["driver"]])
    cmd = [os.path.join(libdir, f["driver"]), "--section", f["section"], "--seed", str(f["seed"]), "--start", str(f["case"]), "--count", "1"]
    if f.get("leak"):
        cmd.append("--leak")
    if d["tier"] == "thorough":
        cmd.append("--thorough")
    if f.get("valgrind"):
        cmd = ["valgrind", "-q"] + cmd
    print(" ".join(cmd))
    sys.exit(subprocess.run(cmd, env=check.env()).returncode)

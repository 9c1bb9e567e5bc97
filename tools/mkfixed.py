#!/usr/bin/env python3
"""Rewrites the `fixed:` lines of known_findings.txt from /repo's log (a developer tool; no check runs it)."""
import re, subprocess
T = open(__file__.replace("mkfixed.py", "fixes.txt")).read()
props = {}
for l in T.splitlines():
    m = re.match(r"(\S+) (.*)", l)
    if m:
        props[m.group(2)] = m.group(1).split(",")
out = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    if s[5:] not in props:
        print("no property for:", s[5:])
        continue
    for p in props[s[5:]]:
        out.append("fixed: property=%s %s %s" % (p, h, s[5:]))
p = "/verif/known_findings.txt"
keep = [l for l in open(p).read().splitlines() if not l.startswith("fixed:")]
open(p, "w").write("\n".join(keep + out) + "\n")

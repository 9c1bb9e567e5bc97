"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"
s = open(p).read()
if "## Planted bugs" in s:
    s = s[:s.index("## Planted bugs")]
o = """## Planted bugs

Each was written from a property's text and the code, in a scratch copy, and kept only when it built, passed the 118 stable
tests and its demonstration told the two trees apart. The check of the property in the second column reports every one
of them (exit 1). When first tried, five were missed, and what that changed: `diagonalize-max-degree` (wider matrices with
factors of coprime degrees), `facinfo-merge-unit` (units other than 1), `f2n-random-constant-term` (a judgement per coefficient),
`kernel-basis-early-leak` (full-rank kernels among the leak windows), `mixed-moduli-order` (all four comparisons, and moduli of one
degree). A later batch of 23 written the same way had three that were missed: `recip-cache-low-bits` and `convert-log-cache` (the purity
monitor was written for them and for what is like them) and `scalar-aliases-element` (a scalar taken from inside the container). Besides these, several hundred one-line mutations of the library and the tool were run through the checks by a
script; those that no check reported were either equivalent or became a new judgement.

| planted bug | caught by | what it needs |
|---|---|---|
"""
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f))
    o += "| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), d["property"], d["needs"])
open(p, "w").write(s.rstrip() + "\n\n" + o)

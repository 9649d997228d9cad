#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md"""
import glob
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fn = os.path.join(HERE, "DESIGN.md")
s = open(fn).read()
rows = []
for d in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json")), key=lambda x: [int(y) if y.isdigit() else y for y in re.split(r"(\d+)", x)]):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"].replace("\n", " ").replace("|", "\\|")))
s, n = re.subn(r"(\|---\|---\|---\|\n)(\| s.*\n)+", lambda m: m.group(1) + "".join(rows), s)
assert n == 1
n = sum(ln.startswith("fixed:") for ln in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")))
s, k = re.subn(r'what failed"\), \d+ of', 'what failed"), %d of' % n, s)
assert k == 1
open(fn, "w").write(s)
print(len(rows), "planted bugs,", n, "repairs")

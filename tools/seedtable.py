#!/usr/bin/env python3
"""Rewrites the table of seeded bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# bugs that a check missed when they were planted, and what was added
missed = {
 "C01-many-lengths": "section repeats", "C07-wrap": "section wide", "C17-pool-cap": "waves in ladder/random",
 "C13-underscore": "list of near-literals", "C11-byte-state": "section long-lengths",
 "C15-closed-writer": "section command-grid", "C09-signed-exponent": "section long-targets",
}
extra = os.path.join(root, "tools", "missed.json")
if os.path.exists(extra):
    missed.update(json.load(open(extra)))
rows = ["| bug | needs | caught by | added for it |", "|-|-|-|-|"]
sd = os.path.join(root, "seeded")
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    rows.append("| %s | %s | %s quick | %s |" % (d, m["needs"].replace("|", "\\|"), m["property"], missed.get(d, "")))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
b, e = "<!-- seeds -->\n", "<!-- /seeds -->"
i, j = s.index(b) + len(b), s.index(e)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])

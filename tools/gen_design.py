#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md: the list of repairs and the table of planted changes."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(V, "DESIGN.md")
s = open(path).read()


def put(name, text):
    global s
    a, b = "<!-- %s -->\n" % name, "<!-- end of %s -->\n" % name
    block = a + text + b
    if "@@%s@@" % name.upper() in s:
        s = s.replace("@@%s@@\n" % name.upper(), block)
    else:
        i, j = s.index(a), s.index(b) + len(b)
        s = s[:i] + block + s[j:]


k = json.load(open(os.path.join(V, "known_findings.json")))
t = "## Genuine defects found, and repaired in /repo\n\n%d `fix:` commits (`known_findings.json`); none is left unrepaired:\n\n" % len(k["fixed"])
for f in k["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", f)
    t += "* %s (`%s`): %s\n" % m.groups()
put("fixes", t)

# those that were not caught at first, and what was done
FIRST = {}
for l in open(os.path.join(V, "tools", "missed.txt")):
    if l.strip():
        i, what = l.rstrip("\n").split(": ", 1)
        FIRST[i] = what
t = "| Change | Property | Needs | First missed |\n|-|-|-|-|\n"
d = os.path.join(V, "seeded")
rows = []
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, "meta.json")))
    rows.append((m["property"], i, m["needs"]))
for p, i, n in sorted(rows):
    t += "| %s | %s | %s | %s |\n" % (i, p, n.replace("|", "\\|"), FIRST.get(i, ""))
t += "\n%d changes; the quick check of the property named catches each of them.\n" % len(rows)
put("seeded", t)
open(path, "w").write(s)

#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md; run from /verif after a build."""
import json, os, re, subprocess
t = open("DESIGN.md").read()
def put(name, lines):
    global t
    a, b = "<!-- %s -->\n" % name, "<!-- /%s -->" % name
    i, j = t.index(a) + len(a), t.index(b)
    t = t[:i] + "\n".join(lines) + "\n" + t[j:]
rows = ["| part | quick | thorough | cases and when they are non-trivial |", "|---|---|---|---|"]
for l in sorted(subprocess.run(["build/vharness", "list"], capture_output=True, text=True).stdout.splitlines()):
    p, n, race, q, th, rule = l.split("\t")
    rows.append("| %s/%s%s | %s | %s | %s |" % (p, n, " (race)" if race == "true" else "", q, th, rule.replace("|", "\\|")))
put("parts", rows)
rows = ["| bug | property | needs |", "|---|---|---|"]
for d in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "\\|").replace("\n", " ")))
put("seeds", rows)
open("DESIGN.md", "w").write(t)

#!/usr/bin/env python3
"""Replaces the table of planted changes at the end of DESIGN.md."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append("| `%s` | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"]))
head = "| planted | property | what it breaks | needs |\n|---|---|---|---|\n"
t = open(V + "/DESIGN.md").read()
i = t.index(head) + len(head)
open(V + "/DESIGN.md", "w").write(t[:i] + "\n".join(rows) + "\n")
print(len(rows), "planted changes")

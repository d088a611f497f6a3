#!/usr/bin/env python3
"""Rewrites DESIGN.md's table of planted changes from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = sorted((json.load(open(m))["property"], os.path.basename(os.path.dirname(m)), json.load(open(m))["needs"]) for m in glob.glob(V + "/seeded/*/meta.json"))
p = V + "/DESIGN.md"
s = open(p).read()
head = "| property | planted change | needs in order to show | caught by |\n|---|---|---|---|\n"
i = s.index(head) + len(head)
open(p, "w").write(s[:i] + "".join("| %s | %s | %s | %s quick |\n" % (a, b, c, a) for a, b, c in rows))

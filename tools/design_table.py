#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
first_missed = set("""c03-epsilon c03-hess-star c04-small-couplings c05-threshold c27-direct-sum-dtype c13-closure-rounds c13-little-group-tol
c13-match-tolerance c14-copy-shared c17-bandgap-empty c17-secant-steps c18-naive-spin c26-duplicates c23-asym-batch-error
c29-translation-any c29-disk-input-cutoff""".split())
extra = os.path.join(here, "tools", "first_missed.txt")
if os.path.exists(extra):
    first_missed |= set(open(extra).read().split())
missed = set()
extra = os.path.join(here, "tools", "missed.txt")
if os.path.exists(extra):
    missed |= set(open(extra).read().split())
rows = ["| property | planted change | what it breaks | caught |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    w = " ".join(m["what_it_breaks"].split()).replace("|", "/")
    rows.append(f"| {m['property']} | {d} | {w} | " + ("no" if d in missed else "yes, after the check was strengthened" if d in first_missed else "yes") + " |")
t = open(os.path.join(here, "DESIGN.md")).read()
a, b = "<!-- seeds -->", "<!-- /seeds -->"
if a not in t:
    t = t.replace("SEEDTABLE", a + "\n" + b)
t = t[:t.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + t[t.index(b):]
open(os.path.join(here, "DESIGN.md"), "w").write(t)

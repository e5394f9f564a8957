#!/usr/bin/env python3
"""seed_table.py: rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
V = "/verif"
MISSED = {  # missed at first: what was strengthened
 "B05-case-fold": "names that differ by case added", "E01-limit-rows": "results longer than the default page",
 "F01-backward-resync": "clock jumps of more than a second", "N01-payload-cache": "equal payloads, callbacks that change them",
 "Q01-unlimited-page": "unlimited queries of at least a page of rows", "S01-view-order": "views in several schemas",
 "S02-index-spaces": "column names with spaces", "G01-drop-case": "dropped columns with capitals",
 "N01-idle-outage": "an idle minute added (the seed was written with it)",
}
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    f = V + "/seeded/" + i + "/meta.json"
    if os.path.exists(f):
        m = json.load(open(f))
        rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], ("caught; at first missed: " + MISSED[i]) if i in MISSED else "caught"))
head = "\n## Table of planted bugs\n"
s = open(V + "/DESIGN.md").read().split(head)[0].rstrip("\n") + "\n"
s += head + """
Each is caught by the quick check of its own property (the second column), run by
`tools/run_seeds.py` on a scratch copy.

| bug | check | needs | result |
|---|---|---|---|
""" + "\n".join(rows) + """

Mutants outside this list that were missed and led to stronger checks: paths of
migrations sorted (C01), a listener's "no cases" result taken for success (N01).
Removed, because they touched only lines that repairs had added or were exposed by
existing tests: Q03-flags-after-name, S02-inlined-name, S02-null-default,
T01-cancel-detached, T01-readonly-lost.
"""
open(V + "/DESIGN.md", "w").write(s)

#!/usr/bin/env python3
"""Writes DESIGN.md: the fixed text below, the properties (titles from properties.jsonl) and the table
of planted bugs (from seeded/*/meta.json)."""
import glob, json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]

HEAD = open(os.path.join(H, "tools", "design_head.md")).read()
TAIL = open(os.path.join(H, "tools", "design_tail.md")).read()
PROPS = json.load(open(os.path.join(H, "tools", "design_props.json")))

# Planted bugs which the checks missed when they were planted, and what was done.
MISSED = json.load(open(os.path.join(H, "tools", "design_missed.json")))

out = [HEAD.rstrip(), "", "## Properties and how each is decided", ""]
for p in P:
    d = PROPS[p["id"]]
    out += ["### %s %s" % (p["id"], p["title"]), ""]
    out += ["*Observed.* " + d["obs"], "", "*Oracle.* " + d["oracle"], "",
            "*Workload and bounds.* " + d["work"], "", "*Beyond the tests.* " + d["why"], ""]
out += [TAIL.rstrip(), "", "## Planted bugs", "",
        "Every one builds, passes the stable tests and is shown by its own demo. \"missed\" marks those the",
        "checks did not catch when the bug was planted; what was then added is given. All are caught now.", "",
        "| planted bug | check | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    i = f.split("/")[-2]
    c = lambda s: s.replace("|", "\\|").replace("\n", " ")
    out.append("| %s | %s | %s | %s |" % (i, m["property"] + (" (missed at first: %s)" % MISSED[i] if i in MISSED else ""),
                                      c(m["what_it_breaks"]), c(m["needs"])))
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out) + "\n")

#!/usr/bin/env python3
"""Rewrite the tables of DESIGN.md: planted bugs, and coverage from the evidence of a full
quick run."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seeds():
    v = ["| planted bug | property whose check catches it | what it needs |", "|----|----|----|"]
    d = os.path.join(root, "seeded")
    for i in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, i, "meta.json")))
        v.append("| %s | %s | %s |" % (i, m["property"], m["needs"]))
    return v


def coverage():
    v = ["| id | scenarios | executions | states | transitions | exhaustive | seconds |",
         "|----|----|----|----|----|----|----|"]
    for l in open(os.path.join(root, "properties.jsonl")):
        i = json.loads(l)["id"]
        p = os.path.join(root, "evidence", i + ".json")
        if not os.path.exists(p):
            continue
        e = json.load(open(p))
        c = e["coverage"]
        s = c.get("scenarios", [])
        done = sum(1 for x in s if x.get("exhaustive"))
        v.append("| %s | %d | %s | %s | %s | %d of %d | %.0f |" % (
            i, len(s), c.get("executions", c.get("traces_validated_against_impl")),
            c["states"], c["transitions"], done, len(s), e["wall_s"]))
    return v


p = os.path.join(root, "DESIGN.md")
s = open(p).read()
for name, table in (("seeds", seeds()), ("coverage", coverage())):
    a = s.index("<!-- %s -->" % name)
    b = s.index("<!-- end -->", a)
    s = s[:a] + "<!-- %s -->\n" % name + "\n".join(table) + "\n" + s[b:]
open(p, "w").write(s)

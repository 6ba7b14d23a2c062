#!/usr/bin/env python3
"""Rewrites the tables of DESIGN.md (between the marks) from the plans and the planted bugs."""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.join(HERE, "..")
sys.path.insert(0, ROOT)
from vt import plans

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]


def params(m):
    return m[0] + ("(thorough: %s)" % ", ".join("%s=%s" % x for x in m[2].items()) if m[2] else "")


def table():
    out = ["| property | design checks, enumerated cases | recorded cases (quick) | covers |", "|---|---|---|---|"]
    for p in props:
        pl = plans.PLANS[p["id"]]
        left = [params(m) for m in pl.models] + ["%s -> %s" % (g[1] + ("(%s)" % ", ".join("%s=%s" % x for x in g[3].items()) if g[3] else ""), g[0]) for g in pl.generated]
        right = ", ".join("%s %d" % x for x in pl.random)
        out.append("| %s %s | %s | %s | %s |" % (p["id"], p["title"], "; ".join(left) or "-", right, plans.COVERS[p["id"]]))
    return "\n".join(out)


def planted():
    out = ["| planted bug | what it breaks | needs |", "|---|---|---|"]
    base = os.path.join(ROOT, "seeded")
    for d in sorted(os.listdir(base)):
        m = json.load(open(os.path.join(base, d, "meta.json")))
        one = lambda s: re.sub(r"\s+", " ", s).replace("|", "\\|")
        out.append("| %s | %s | %s |" % (d, one(m["what_it_breaks"]), one(m["needs"])))
    return "\n".join(out)


path = os.path.join(ROOT, "DESIGN.md")
s = open(path).read()
for name, f in (("properties", table), ("planted", planted)):
    a, b = "<!-- %s -->" % name, "<!-- end %s -->" % name
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + "\n" + f() + "\n" + s[j:]
open(path, "w").write(s)

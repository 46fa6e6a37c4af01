#!/usr/bin/env python3
"""Assembles /verif/DESIGN.md."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R, R + "/tools"]
from harness.registry import REG
from design_props import D
rd = lambda f: open(os.path.join(R, f)).read()
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
o = [rd("tools/design_head.md").rstrip(), ""]
for p in props:
    i = p["id"]
    s, e, r = D[i]
    g = REG[i]
    mc = "; ".join("%s (%s)" % (m, ", ".join(c.get("const", []))) for m, c in g["mc"]["quick"])
    th = "; ".join("%s (%s)" % (m, ", ".join(c.get("const", []))) for m, c in g["mc"]["thorough"])
    o += ["### %s %s" % (i, p["title"]), "",
          "* **Specification**: " + s,
          "* **Enumerated** (`%s`, thorough `%s`): %s" % (mc, th, e),
          "* **Recorded and judged** (`drivers/%s.py` -> `%s`): %s" % (i.lower(), g["tr"]["module"], r),
          "* **Beyond the tests**: " + p["why_tests_cant"] + ".", ""]
o += [rd("tools/design_mid.md").rstrip(), "", "| change | needs | breaks | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(R + "/seeded")):
    m = json.loads(rd("seeded/%s/meta.json" % d))
    c = m.get("caught", "check " + m["property"])
    o.append("| %s | %s | %s | %s |" % (d, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), c))
n = sum(1 for l in rd("known_findings.txt").splitlines() if l.startswith("fixed:"))
o += ["", rd("tools/design_tail.md").replace("@NFIX@", str(n)).rstrip(), ""]
open(R + "/DESIGN.md", "w").write("\n".join(o))

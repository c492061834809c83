#!/usr/bin/env python3-vt
"""Write DESIGN.md from tools/design, the checks and tools/bug_results.json."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run                      # noqa: E402
from vf import core             # noqa: E402

D = os.path.join(V, "tools", "design")
ns = {}
exec(open(os.path.join(D, "2_props.py")).read(), ns)
titles = {}
for ln in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(ln)
    titles[d["id"]] = d["title"]
out = [open(os.path.join(D, "1_head.md")).read(), "## 2. Per property: oracle and reach\n"]
for pid in sorted(ns["P"]):
    out.append("**%s - %s.** %s\n" % (pid, titles[pid], ns["P"][pid]))
out.append("## 3. Facets: what is generated, quick budget, and the rule of non-triviality\n")
out.append("The thorough tier runs 20 times the quick budget of every facet (other seeds\n"
           "follow from VERIF_SEED), within 50 minutes. Quick runs take 5 to 40 s on 8 cores.\n")
out.append("| check | facet | cases (quick) | rule |\n|---|---|---|---|")
for pid in sorted(ns["P"]):
    for f in core.load(pid).facets():
        out.append("| %s | %s | %d | %s |" % (pid, f.name, int(f.quick * run.SCALE[pid]),
                                              f.rule.replace("|", "/")))
out.append("")
kf = json.load(open(os.path.join(V, "known_findings.json")))
find = "Open:\n" + "\n".join("* %s (%s): %s" % (k["property"], k["signature"], k["what"])
                             for k in kf if k["status"] == "open")
find += "\n\nRepaired (each one commit in /repo):\n" + "\n".join(
    "* " + k["what"][len("fixed: "):].replace("property=", "") for k in kf if k["status"] == "fixed")
br = json.load(open(os.path.join(V, "tools", "bug_results.json")))
rows = ["| bug | what it needs | caught by |", "|---|---|---|"]
nc = nb = 0
for b in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
    r = br.get(b, {})
    nb += 1
    got = r.get("caught_by", "?")
    nc += m["property"] in got.split(",")
    rows.append("| %s | %s | %s |" % (b, m["needs"].replace("|", "/"), got))


def note(n):
    p = os.path.join(D, n)
    return open(p).read().strip() if os.path.exists(p) else ""


out.append(open(os.path.join(D, "4_rest.md")).read() % {
    "findings": find, "bugs": "\n".join(rows), "nb": nb, "nc": nc,
    "mut": note("mut.txt"), "ref": note("ref.txt")})
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write("\n".join(out))
print(nb, nc)

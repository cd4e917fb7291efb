"""Regenerates the generated tables of DESIGN.md (between <!-- begin X --> and <!-- end X -->)."""
import glob
import json
import os
import re

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def table(name, text):
    global doc
    doc = re.sub(r"(<!-- begin %s -->\n).*?(<!-- end %s -->)" % (name, name), lambda m: m.group(1) + text + m.group(2), doc, flags=re.S)


doc = open(os.path.join(H, "DESIGN.md")).read()
rows = ["| bug | check that reports it | what it breaks | needs |\n|---|---|---|---|\n"]
for f in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"], m["needs"]))
table("seeds", "".join(rows))
by = {}
for f in json.load(open(os.path.join(H, "known_findings.json"))):
    if f["status"] == "fixed":
        by.setdefault(f["property"], []).append(f["what"])
rows = ["| property | repaired | what failed |\n|---|---|---|\n"]
for p in sorted(by):
    rows.append("| %s | %d | %s |\n" % (p, len(by[p]), "; ".join(by[p])))
table("fixes", "".join(rows))
obs = {}
for f in sorted(glob.glob(os.path.join(H, "evidence", "C*.json"))):
    e = json.load(open(f))
    obs[e["property"]] = (e["coverage"]["obligations"], e["coverage"]["functions_analysed"])
if obs:
    table("counts", "".join("%s %d obligations / %d functions; " % (p, *obs[p]) for p in sorted(obs)) + "in all %d obligations.\n" % sum(o[0] for o in obs.values()))
open(os.path.join(H, "DESIGN.md"), "w").write(doc)

#!/usr/bin/env python3
"""Regenerates /verif/DESIGN.md from tools/design/*.md, properties.jsonl, MANIFEST.json, known_findings.json and seeded/."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
M = json.load(open(V + "/MANIFEST.json"))
K = json.load(open(V + "/known_findings.json"))
checks = {c["property"]: c for c in M["checks"]}
na = {c["property"]: c["reason"] for c in M.get("not_applicable", [])}
notes = {}
for l in open(V + "/tools/design/notes.md"):
    m = re.match(r"^([A-Z]\d\d): (.*)", l)
    if m:
        notes.setdefault(m.group(1), []).append(m.group(2))
out = [open(V + "/tools/design/head.md").read()]
groups = dict(M="Mappings and path-steps (`mappings.py`)", P="Path-steps (`mappings.py`)", D="Data model (`pandata.py`)", X="Excel references (`xleash/`)",
              U="Utilities (`utils.py`)", V="Excel/VBA utilities (`xlsutils.py`)", K="Components (`components.py`)", B="Release script (`bin/bumpver.py`)")
last = None
for p in P:
    g = p["id"][0]
    if g != last:
        out.append("### %s\n" % groups[g])
        last = g
    out.append("**%s – %s.**" % (p["id"], p["title"]))
    if p["id"] in checks:
        c = checks[p["id"]]
        out.append("*Decided by*: %s.  *Within*: %s" % (c["technique"].replace("static analysis: ", "").rstrip("."), c["level_note"]))
    else:
        out.append("*Not claimed*: " + na.get(p["id"], "?"))
    out += notes.get(p["id"], [])
    f = [x for x in K["fixed"] if "property=%s " % p["id"] in x]
    if f:
        out.append("*Defects repaired*: " + "; ".join(re.sub(r"^fixed: property=\w+ ", "", x) for x in f) + ".")
    out.append("")
out.append(open(V + "/tools/design/tail.md").read())
out.append("| bug | property | what it breaks | needs |\n|---|---|---|---|")
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    out.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
out.append("")
out.append(open(V + "/tools/design/end.md").read())
open(V + "/DESIGN.md", "w").write("\n".join(out))

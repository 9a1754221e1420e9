#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the registered checks and tools/not_applicable.json."""
import json, os, sys
V = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from pa import checks, harness
checks.load_all()
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
m = dict(version=1, setup_cmd="/usr/bin/python3 -c 'import ast, sys; sys.exit(sys.version_info < (3, 8))'", checks=[], not_applicable=[])
for i in ids:
    if i in harness.REGISTRY:
        f, tech, note = harness.REGISTRY[i]
        m["checks"].append(dict(property=i, quick_cmd="/usr/bin/python3 check.py %s" % i, thorough_cmd="/usr/bin/python3 check.py %s" % i,
                                technique="static analysis: " + tech, level="other", level_note=note))
    else:
        m["not_applicable"].append(dict(property=i, reason=na.get(i, "no check built yet")))
m["notes"] = "Static analysis only: pa/ is an abstract interpreter over the syntax trees of /repo's current source; see DESIGN.md. " \
             "UNDECIDED lines name obligations left open, which are listed in the evidence and never counted as held."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")

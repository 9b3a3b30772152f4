#!/usr/bin/env python3
"""Writes DESIGN.md: docs/head.md, a section per property from the facets, docs/tail.md, and the table of planted bugs."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
out = [open(os.path.join(HERE, "docs/head.md")).read().rstrip(), "", "## The properties and how each is decided", "",
       "Generated from the facets by `tools/gen_design.py`. Counts are cases in the quick / thorough tier; cases inside bulk runs are not included in them.", ""]
man = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}
notes = json.load(open(os.path.join(HERE, "docs/notes.json")))
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    out += ["### %s %s" % (i, p["title"]), "", "*Quantified over:* %s." % p["quantifier"]["text"],
            "*Tests cannot settle it:* %s" % p["why_tests_cant"], "*Technique:* %s. %s" % (man[i]["technique"], notes.get(i, "")), "",
            "| facet | driver | cases | what is generated; when it counts as non-trivial |", "|---|---|---|---|"]
    for f in importlib.import_module("vf.props." + i.lower()).FACETS:
        out.append("| %s | %s, %s | %s / %s | %s |" % (f.name, f.driver, f.variant, f.quick, f.thorough, f.rule.replace("|", "\\|")))
    out.append("")
out += [open(os.path.join(HERE, "docs/tail.md")).read().rstrip(), "", "## Planted bugs and the checks that catch them", "",
        "Each is in `seeded/<id>/` with a demonstration unless marked; result of the quick check of the property it was written from.", "",
        "| bug | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(os.path.join(HERE, "docs/caught.json")))
for b in sorted(res):
    m = res[b]
    out.append("| %s%s | %s | %s | %s |" % (b, "" if os.path.isdir(os.path.join(HERE, "seeded", b)) else " (no demo kept)", m["property"], m["needs"].replace("|", "\\|"), m["by"].replace("|", "\\|")))
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")

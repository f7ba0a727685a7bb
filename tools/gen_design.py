#!/usr/bin/env python3
"""Writes DESIGN.md from design_intro.md, cases.py, properties.jsonl and seeded/."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, ROOT)
import cases

props = {}
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    props[p["id"]] = p
rows = ["| Change | Property | Needs | Breaks | Caught by |", "| --- | --- | --- | --- | --- |"]
caught = json.load(open(os.path.join(HERE, "seeded_results.json")))
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    rows.append("| `%s` | %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"], caught.get(d, "")))
out = []
for pid in sorted(props):
    if pid not in cases.CHECKS:
        continue
    c = cases.CHECKS[pid]
    out.append("### %s %s\n" % (pid, props[pid]["title"]))
    out.append(props[pid]["statement"] + "\n")
    for k in c["cases"]:
        name = "*%s*" % k.name if k.tier == "thorough" else k.name
        out.append("- %s (`%s`): %s" % (name, k.harness, k.bounds))
    out.append("- Outside: %s.\n" % c["outside"])
text = open(os.path.join(HERE, "design_intro.md")).read()
text = text.replace("SEEDED_TABLE", "\n".join(rows))
text = text.replace("NOT_APPLICABLE_LIST", "\n".join("- **%s** %s: %s" % (k, props[k]["title"], v) for k, v in cases.NOT_APPLICABLE.items()))
text = text.replace("PROPERTY_LIST", "\n".join(out))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(text.rstrip() + "\n")

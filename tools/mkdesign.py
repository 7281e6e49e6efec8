#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (between the markers)."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(R + "/tools/notes.json"))
models = json.load(open(R + "/bin/models.json"))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
counts = dict(re.findall(r'"(C\d\d)": \{(\d+, \d+)\}', open(R + "/harness/drv/props.go").read()))
t = ["| Property | Models (quick/thorough length of histories or texts) | Random sessions quick/thorough | How it is decided |", "|---|---|---|---|"]
for p in props:
    i = p["id"]
    ms = models.get(i, [])
    s = "; ".join("%s%s %s/%s" % (m["module"], "(" + m["alphabet"] + ")" if m.get("alphabet") else "", m["L"]["quick"], m["L"]["thorough"]) for m in ms) or "-"
    t.append("| %s %s | %s | %s | %s |" % (i, p["title"], s, counts.get(i, "-").replace(", ", "/"), notes[i]["note"]))
b = ["| Planted bug | Property, caught by its check | Needs |", "|---|---|---|"]
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    d = json.load(open(f))
    b.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), d["property"], d["needs"]))
s = open(R + "/DESIGN.md").read()
for name, rows in (("PROPERTIES", t), ("BUGS", b)):
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s, flags=re.S)
open(R + "/DESIGN.md", "w").write(s)

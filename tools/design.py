#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md (prose), tools/props/*.json and seeded/*/meta.json."""
import json, os, glob
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
t = open(os.path.join(here, "design.md")).read()
props = [json.load(open(f)) for f in sorted(glob.glob(os.path.join(here, "props", "*.json")))]
det = {}
cur = None
for l in open(os.path.join(here, "oracles.md")):
    if l.startswith("## "): cur = l[3:].strip(); det[cur] = ""
    elif cur: det[cur] += l
out = ""
for p in props:
    out += f"### {p['id']} {p['title']}\n\n{p['statement']}\n\nQuantified over {p['quantifier']}. Why the tests cannot settle it: {p['why']}\n\n{det.get(p['id'], '').strip()}\n\nLimits: {p['level_note']}\n\n"
t = t.replace("@PROPERTIES@", out.strip())
rows = ""
for d in sorted(glob.glob(os.path.join(root, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    c = {}
    if os.path.exists(os.path.join(here, "catches.json")): c = json.load(open(os.path.join(here, "catches.json")))
    b = os.path.basename(d)
    rows += f"| {b} | {m['property']} | {m['needs']} | {c.get(b, m['property'])} |\n"
t = t.replace("@SEEDED@", rows.strip())
open(os.path.join(root, "DESIGN.md"), "w").write(t)

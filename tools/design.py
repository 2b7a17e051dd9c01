#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the per-property notes below, the
Rule and Assumptions strings of the checks themselves, tools/design_tail.md and
the seeded bugs' table (tools/seedtable.json, written by tools/seedtable.py)."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from design_notes import NOTES
src = "\n".join(open(f).read() for f in sorted(glob.glob(root + "/harness/props*/*.go")))
rules = {}
for m in re.finditer(r'mc\.Prop\{ID: "(P\d+)".*?\}\)', src, re.S):
    b = m.group(0)
    rule = re.search(r'Rule:\s*"((?:[^"\\]|\\.)*)"', b)
    ass = re.search(r'Assumptions:\s*\[\]string\{(.*?)\}\}?\)', b, re.S)
    un = lambda s: s.encode().decode('unicode_escape').encode('latin1', 'ignore').decode('utf8', 'ignore') if '\\' in s else s
    rules[m.group(1)] = (un(rule.group(1)) if rule else "", [un(x) for x in re.findall(r'"((?:[^"\\]|\\.)*)"', ass.group(1))] if ass else [])
out = [open(root + "/tools/design_head.md").read()]
for l in open(root + "/properties.jsonl"):
    d = json.loads(l)
    i = d["id"]
    n = NOTES.get(i, {})
    rule, ass = rules.get(i, ("", []))
    out.append(f"\n### {i} {d['title']}\n")
    out.append(f"*Explored:* {rule}\n")
    if n.get("oracle"): out.append(f"*Oracle:* {n['oracle']}\n")
    if ass: out.append("*Assumptions and bounds:* " + "; ".join(ass) + ".\n")
    if n.get("why"): out.append(f"*Why tests cannot:* {n['why']}\n")
    if n.get("cost"): out.append(f"*Cost (8 cores):* {n['cost']}\n")
out.append(open(root + "/tools/design_tail.md").read())
p = root + "/tools/seedtable.json"
if os.path.exists(p):
    out.append("\n| seeded change | property | what it needs to manifest | caught by |\n|---|---|---|---|\n")
    for r in json.load(open(p)):
        out.append(f"| {r['id']} | {r['property']} | {r['needs']} | {r['caught']} |\n")
open(root + "/DESIGN.md", "w").write("".join(out))

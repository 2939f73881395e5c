#!/usr/bin/env python3
"""Assembles DESIGN.md from dev/design-*.md and the rule modules' own descriptions."""
import json, os, sys, importlib, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/vz")
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
tech = json.load(open(R + "/techniques.json"))
na = json.load(open(R + "/not_applicable.json"))
notes = {}
cur = None
for l in open(R + "/dev/design-notes.md"):
    m = re.match(r"## (C\d\d)", l)
    if m:
        cur = m.group(1)
        notes[cur] = ""
    elif cur:
        notes[cur] += l
out = open(R + "/dev/design-head.md").read().rstrip() + "\n\n## 3. Per property\n"
for p in props:
    i = p["id"]
    out += f"\n### {i} — {p['title']}\n\n"
    f = f"{R}/vz/rules/{i.lower()}.py"
    if os.path.exists(f):
        m = importlib.import_module("rules." + i.lower())
        out += f"*Technique.* {tech[i]['technique'].rstrip('.')}.\n\n*What is decided.* {m.EXPLAIN}\n"
        a = list(getattr(m, "ASSUME", None) or [])
        if a:
            out += "\n*Assumptions.* " + "; ".join(a) + ".\n"
    else:
        out += f"*Not claimed.* {na[i]}\n"
    if notes.get(i, "").strip():
        out += "\n" + notes[i].strip() + "\n"
out += "\n" + open(R + "/dev/design-tail.md").read()
s = "| planted bug | property | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(f"{R}/seeded/{d}/meta.json"))
    s += f"| {d} | {m['property']} | {m['needs']} | {m.get('caught', m['property'])} |\n"
out = out.replace("@SEEDED@", s)
open(R + "/DESIGN.md", "w").write(out)

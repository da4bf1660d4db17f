#!/usr/bin/env python3
"""fills the tables of DESIGN.md from tools/design.md, properties.jsonl, claims.json and seeded/*/meta.json"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/tools/design.md").read()
claims = json.load(open(V + "/tools/claims.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
rows = []
for p in props:
    i = p["id"]
    c = claims["checks"].get(i)
    if c:
        rows.append(f"* **{i} {p['title']}** — *{c['level']}*. {c['technique']}. {c['note']} {c.get('design', '')}".rstrip())
    else:
        rows.append(f"* **{i} {p['title']}** — *not applicable*: {claims['na'].get(i, 'not yet claimed')}")
t = t.replace("@@TABLE@@", "\n".join(rows))
seeds = []
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for n in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{n}/meta.json"))
    seeds.append(f"* `{n}` ({m['property']}): {m['what_it_breaks']}; needs {m['needs']}. {caught.get(n, '')}")
t = t.replace("@@SEEDS@@", "\n".join(seeds))
open(V + "/DESIGN.md", "w").write(t)

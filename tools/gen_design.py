#!/usr/bin/env python3
"""Fills the tables of DESIGN.md (between markers) from evidence/ and seeded/."""
import json, os, re, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(R + "/properties.jsonl")]
def table():
    out = ["| id | property | harnesses | paths | queries | number models | wall s |", "|---|---|---|---|---|---|---|"]
    for p in P:
        try: e = json.load(open(f"{R}/evidence/{p['id']}.json"))
        except OSError: continue
        c = e["coverage"]
        nm = c.get("number_models", [])
        nm = ", ".join(n if isinstance(n, str) else str(n) for n in nm) or "-"
        out.append(f"| {p['id']} | {p['title']} | {len(c.get('harnesses', []))} | {c['states']} | {c['solver_queries']} | {nm} | {e['wall_s']:.0f} |")
    return "\n".join(out)
def seeded():
    out = ["| id | property | needs | what breaks |", "|---|---|---|---|"]
    for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
        m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
        out.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |".replace("\n", " "))
    return "\n".join(out)
f = R + "/DESIGN.md"; s = open(f).read()
for tag, fn in (("TABLE", table), ("SEEDED", seeded)):
    s = re.sub(rf"<!--{tag}-->.*?<!--/{tag}-->", lambda _: f"<!--{tag}-->\n{fn()}\n<!--/{tag}-->", s, flags=re.S)
open(f, "w").write(s)

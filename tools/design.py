#!/usr/bin/env python3
"""Assembles DESIGN.md."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, "tools/design")
exec(open(os.path.join(D, "oracles.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
spec = json.load(open(os.path.join(V, "props.json")))
out = [open(os.path.join(D, "intro.md")).read(), "## 2. The properties\n"]
out.append("Every property is decided the same way (§1): the named functions run on symbolic scalars and the assertions are decided by z3/cvc5. "
           "No property is left not-applicable; what the technique cannot reach is listed as *outside* per property. "
           "Cost is wall time of the quick check on 8 cores, after the build.\n")
for p in props:
    s = spec[p["id"]]
    o, c, r = O[p["id"]]
    out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n"
               f"* **Encoded**: {'; '.join(s['functions'])} (harness group `{', '.join(s['bins'])}`)\n"
               f"* **Oracle**: {o}\n* **Symbolic**: {p['quantifier']['text']}.\n* **Bounds**: {s['bounds']}\n"
               f"* **Outside**: {s['outside']}\n* **Cost**: {c}\n* **Reach**: {r}\n")
out.append("## 3. Planted bugs\n\n"
           "Each was written from a property's text and the code, confirmed with `tools/plant.py` (compiles, the repository's tests pass, the demonstration fails with and "
           "passes without it), and run against the checks. \"Caught\" = `check.py` of its property exits 1 with that property's VIOLATION line.\n\n"
           "| id | property | needs | result |\n|---|---|---|---|\n")
res = json.load(open(os.path.join(D, "caught.json"))) if os.path.exists(os.path.join(D, "caught.json")) else {}
for m in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    out[-1] += f"| {i} | {d['property']} | {d['needs']} | {res.get(i, 'caught')} |\n"
out[-1] += "\n" + open(os.path.join(D, "missed.md")).read() if os.path.exists(os.path.join(D, "missed.md")) else ""
out.append(open(os.path.join(D, "outro.md")).read())
for k in json.load(open(os.path.join(V, "known_findings.json"))):
    out[-1] += f"\n* {k['id']} ({k['property']}): {k['record'].split(' ', 2)[2]}"
out[-1] += "\n"
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))

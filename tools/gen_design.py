#!/usr/bin/env python3
"""Assembles DESIGN.md: notes/design_head.md, one section per property (harness directives), notes/design_tail.md, seeds."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(V + "/notes/design_head.md").read(), "## Properties\n"]
man = {x["property"]: x["reason"] for x in json.load(open(V + "/MANIFEST.json"))["not_applicable"]}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    if i in man: out.append("Not claimed: " + man[i] + "\n"); continue
    d = {}
    for s in sorted(glob.glob(f"{V}/checks/{i}.cpp") + glob.glob(f"{V}/checks/{i}_*.cpp")):
        first = open(s).readline().lstrip("/ ").strip()
        d.setdefault("What", []).append(first)
        for t in open(s):
            m = re.match(r"//\s*MC_(BOUNDS|ASSUME|DESIGN):\s*(.*)", t)
            if m: d.setdefault(m.group(1), []).append(m.group(2).strip())
    out.append("- Decides: " + " ".join(d["What"]))
    out.append("- Explored space: " + " ".join(d.get("BOUNDS", [])))
    out.append("- Beyond the tests: " + p["why_tests_cant"])
    if "DESIGN" in d: out.append("- Notes: " + " ".join(d["DESIGN"]))
    if "ASSUME" in d: out.append("- Assumes: " + "; ".join(d["ASSUME"]))
    out.append("")
out.append("## Genuine defects\n"); out.append("Each was reported by the named check on the then current tree with a concrete failing history or input against the real code.\n")
for l in open(V + "/known_findings.txt"):
    if l.startswith(("fixed:", "finding:")): out.append("- " + l.strip())
out.append("")
t = V + "/notes/design_tail.md"
if os.path.exists(t): out.append(open(t).read())
out.append("## Seeded bugs and what catches them\n")
res = json.load(open(V + "/notes/seeds.json")) if os.path.exists(V + "/notes/seeds.json") else {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    sid = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    out.append(f"- `{sid}` ({d['property']}): {d['what_it_breaks']} Needs: {d['needs']} -> {res.get(sid, 'not run')}")
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")

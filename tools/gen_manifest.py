#!/usr/bin/env python3
"""Generates MANIFEST.json from properties.jsonl and the harnesses present in checks/."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
NOTE = {}
checks, na = [], []
for p in props:
    i = p["id"]
    src = sorted(glob.glob(f"{V}/checks/{i}.cpp") + glob.glob(f"{V}/checks/{i}_*.cpp"))
    if not src or i in NA:
        na.append(dict(property=i, reason=NA.get(i, "no check was finished for this property"))); continue
    b, a = [], []
    for s in src:
        for l in open(s):
            m = re.match(r"//\s*MC_(BOUNDS|ASSUME):\s*(.*)", l)
            if m: (b if m.group(1) == "BOUNDS" else a).append(m.group(2).strip())
    if i == "C20":
        tech = "stateless model checking of the real code: exhaustive enumeration of thread schedules up to a preemption bound under a controlled scheduler"
    else:
        tech = "explicit-state / stateless model checking of the real code: exhaustive enumeration of bounded inputs, choices and operation histories, each execution monitored against a naive reference"
    checks.append(dict(property=i, quick_cmd=f"python3 run.py {i}", thorough_cmd=f"python3 run.py {i} --tier thorough",
        evidence_file=f"evidence/{i}.json", technique=tech, level="model_checking",
        level_note="Every execution within the stated bounds was run on the compiled sources of /repo and judged; nothing is claimed beyond them. Bounds: "
                   + " ".join(b) + ((" Assumes: " + "; ".join(a) + ".") if a else "") + " Trusts clang/libc++ and the reference oracle in the harness."))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
    notes="No hooks in /repo: the checks drive the public interface of the real sources. run.py builds into a private directory outside /repo."), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")

#!/usr/bin/env python3
"""Runs the property's quick check against every planted bug (scratch copies bind-mounted over /repo) and records the outcome in
notes/seeds.json. usage: runseeds.py [ids]"""
import sys, os, json, subprocess, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); import mkseed
V = mkseed.V; N = V + "/notes/seeds.json"; notes = json.load(open(N)) if os.path.exists(N) else {}
for sid in (sys.argv[1:] or sorted(os.listdir(V + "/seeded"))):
    d = f"{V}/seeded/{sid}"; prop = json.load(open(d + "/meta.json"))["property"]; s = tempfile.mkdtemp(prefix="sr.")
    subprocess.check_call(f"cp -a /repo/. {s}/ && git -C {s} apply {d}/patch.diff", shell=True)
    r = mkseed.check(s, prop); shutil.rmtree(s, ignore_errors=True); print(sid, r, flush=True)
    notes[sid] = ("caught by " if "exit 1" in r and "VIOLATION property=" + prop in r else "MISSED by ") + prop
    json.dump(notes, open(N, "w"), indent=1, sort_keys=True)

#!/usr/bin/env python3
"""Mutation survey: applies small syntactic changes to the anchored headers (in scratch copies) and reports which of them the
property's check does not notice.  usage: mutate.py OUT [-n N per property] [-w workers] [-s seed] CID[:file,file] ...
Survivors are candidates for gaps (or equivalent changes); they are read by hand. No registered check uses this."""
import sys, os, re, json, random, shutil, subprocess, threading, queue, argparse
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("-n", type=int, default=20); ap.add_argument("-w", type=int, default=6); ap.add_argument("-s", type=int, default=1); ap.add_argument("--src", default="/repo"); ap.add_argument("cids", nargs="+"); a = ap.parse_args()
props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
RULES = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ 1\b", " + 2"), (r" \+ ", " - "), (r" - ", " + "), (r" && ", " || "), (r" \|\| ", " && "), (r" \+= ", " -= "), (r" -= ", " += "), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bmax\(", "min("), (r"\bmin\(", "max("), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "), (r"\+\+", "--"), (r"!(?=[a-z(])", ""), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"\bleft\b", "right"), (r"\bright\b", "left"), (r"\bbegin\b", "end"), (r"<<", ">>"), (r">>(?=[ \w])", "<<")]
def sites(path):
    lines = open(path, "rb").read().decode("utf8", "replace").split("\n"); out = []; com = False
    for i, l in enumerate(lines):
        s = l.strip()
        if com: com = "*/" not in s; continue
        if s.startswith("/*"): com = "*/" not in s; continue
        if not s or s.startswith(("//", "#", "template", "typedef", "using", "namespace", "}", "static_assert")): continue
        code = l.split("//")[0]
        for k, (r, t) in enumerate(RULES):
            for m in re.finditer(r, code): out.append((i, m.start(), m.end(), t))
        if re.match(r"^\s+[\w\.\[\]\->:\*\(\), ]+(=|\+=|-=|\(|\+\+|--).*;\s*$", code) and not re.match(r"^\s*(return|const|auto|typedef|int|bool|T|I|char|for|if|while|else|std::\w+<.*> \w+)\b", code) : out.append((i, 0, len(code.rstrip()), ";"))
    return lines, out
jobs = queue.Queue(); res = []; lock = threading.Lock(); rnd = random.Random(a.s); todo = []
for c in a.cids:
    cid, _, fs = c.partition(":"); files = fs.split(",") if fs else [f for f in props[cid]["anchors"]["files"] if f.endswith((".h", ".cpp"))]
    pool = []
    for f in files:
        lines, ss = sites(a.src + "/" + f); pool += [(cid, f) + s for s in ss]
    rnd.shuffle(pool); todo += pool[:a.n]
for t in todo: jobs.put(t)
def work(k):
    base = f"/tmp/mut/{os.getpid()}.{k}"; shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    for d in ("include", "experimental", "src"): shutil.copytree(f"{a.src}/{d}", f"{base}/repo/{d}")
    for d in ("lib", "checks"): shutil.copytree(f"{V}/{d}", f"{base}/verif/{d}")
    for f in ("run.py", "known_findings.txt"): shutil.copy(f"{V}/{f}", f"{base}/verif/{f}")
    while True:
        try: cid, f, i, b, e, t = jobs.get_nowait()
        except queue.Empty: break
        raw = open(f"{a.src}/{f}", "rb").read(); lines = raw.decode("utf8", "replace").split("\n"); old = lines[i]; lines[i] = old[:b] + t + old[e:]
        open(f"{base}/repo/{f}", "wb").write("\n".join(lines).encode())
        try:
            p = subprocess.Popen(["nice", "python3", f"{base}/verif/run.py", cid, "--budget", "200"], env=dict(os.environ, MC_REPO=f"{base}/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
            try: o, _ = p.communicate(timeout=300); rc = p.returncode
            except subprocess.TimeoutExpired: os.killpg(p.pid, 9); o = ""; rc = 99
        finally: open(f"{base}/repo/{f}", "wb").write(raw)
        kind = "caught" if rc == 1 else "SURVIVED" if rc == 0 else "nocompile" if "COMPILE ERROR" in o else "hang" if rc == 99 else "other"
        with lock:
            res.append(kind)
            with open(a.out, "a") as w: w.write(f"{kind} {cid} {os.path.basename(f)}:{i+1}: {old.strip()[:150]}   =>   {lines[i].strip()[:150]}\n" + (("   " + " | ".join(o.strip().splitlines()[-2:])[:200] + "\n") if kind == "other" else ""))
    shutil.rmtree(base, ignore_errors=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(a.w)]
[x.start() for x in ts]; [x.join() for x in ts]
print({k: res.count(k) for k in set(res)})

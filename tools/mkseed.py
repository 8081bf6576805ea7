#!/usr/bin/env python3
"""Creates and confirms a planted bug. usage: mkseed.py SPEC   (SPEC: python file defining id, prop, needs, breaks,
edits=[(file, old, new)], demo = C++ source). Works on a scratch copy of /repo bind-mounted over /repo in a private
mount namespace, so that the real /repo is never touched. Writes /verif/seeded/<id>/ only when everything is confirmed."""
import sys, os, subprocess, shutil, json, tempfile
V = "/verif"
DEMO = """#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
clang++-18 -stdlib=libc++ -std=gnu++14 -pthread -O1 -g1 -w %s -fms-extensions -fms-compatibility -fms-compatibility-version=19.30 -U_MSC_VER \\
  -fno-delayed-template-parsing -include "$d/gnuc_macros.h" -include utility -I/repo/include -I/repo/experimental/include "$d/demo.cpp" %s -o $t/demo || exit 3
timeout 120 $t/demo
"""
def sh(cmd, **k): return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, errors="replace", **k)
def ns(scratch, cmd, timeout=1500):
    return sh(["unshare", "-Urm", "bash", "-c", f"mount --bind {scratch} /repo && mkdir -p {scratch}/.mc/e {scratch}/.mc/r && mount --bind {scratch}/.mc/e /verif/evidence && mount --bind {scratch}/.mc/r /verif/replays && cd /repo && {cmd}"], timeout=timeout)
def main():
    env = {}; exec(open(sys.argv[1]).read(), env); only = [a for a in sys.argv[2:] if not a.startswith("--")]
    for s in env["SEEDS"]:
        if only and s["id"] not in only: continue
        print("==", s["id"], s["prop"], flush=True); one(s)
def one(spec):
    sid = spec["id"]; run_check = "--nocheck" not in sys.argv
    scratch = tempfile.mkdtemp(prefix="sr.")
    out = tempfile.mkdtemp(prefix="seed.")
    try:
        subprocess.check_call(f"cp -a /repo/. {scratch}/", shell=True)
        for f, old, new in spec["edits"]:
            r = sh(["python3", V + "/tools/edit.py", f"{scratch}/{f}"], input=old.strip("\n") + "\n====\n" + new.strip("\n") + "\n")
            if r.returncode: print("EDIT FAILED", f, r.stdout, r.stderr); return 1
        d = subprocess.run(["git", "-C", scratch, "diff", "--binary"], capture_output=True).stdout
        open(out + "/patch.diff", "wb").write(d)
        open(out + "/demo.cpp", "w").write(spec["demo"])
        shutil.copy(V + "/lib/gnuc_macros.h", out + "/gnuc_macros.h")
        open(out + "/demo.sh", "w").write((DEMO % (spec.get("flags", ""), spec.get("libs", "/repo/_build/libaltruct_lib.a")))); os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=spec["prop"], needs=spec["needs"], what_it_breaks=spec["breaks"]), open(out + "/meta.json", "w"), indent=1)
        r = sh(f"git -C /repo apply --check {out}/patch.diff")
        if r.returncode: print("PATCH DOES NOT APPLY", r.stderr); return 1
        r = sh(f"cd /repo && bash {out}/demo.sh")
        if r.returncode: print("DEMO FAILS ON UNCHANGED", r.returncode, r.stdout[-2000:], r.stderr[-2000:]); return 1
        r = ns(scratch, f"bash /opt/vp/build.sh >{out}/b.log 2>&1 || {{ tail -30 {out}/b.log; exit 7; }}; bash /opt/vp/test.sh {out}/o.json >/dev/null 2>&1; cat {out}/o.json")
        if r.returncode == 7: print("BUILD FAILED", r.stdout[-3000:]); return 1
        res = json.loads(r.stdout); base = json.load(open("/opt/vp/BASELINE.json"))
        bl = base["stable"]
        lost = set(map(str, bl)) - set(map(str, res["passed"]))
        if lost: print("TESTS CATCH IT", list(lost)[:5]); return 1
        r = ns(scratch, f"bash {out}/demo.sh")
        if r.returncode == 0: print("DEMO PASSES WITH PATCH"); return 1
        print("demo with patch:", r.returncode, r.stdout.strip()[-300:], r.stderr.strip()[-300:])
        dst = f"{V}/seeded/{sid}"; shutil.rmtree(dst, ignore_errors=True); shutil.copytree(out, dst, ignore=shutil.ignore_patterns("*.log", "o.json"))
        print("KEPT", sid)
        if run_check: print(check(scratch, spec["prop"]))
    finally:
        shutil.rmtree(scratch, ignore_errors=True); shutil.rmtree(out, ignore_errors=True)
    return 0
def check(scratch, prop):
    r = ns(scratch, f"cd /verif && python3 run.py {prop} --budget 400")
    t = [l for l in r.stdout.splitlines() if l.startswith(("FOUND", "VIOLATION property", "ok:", "COMPILE", "harness", "VIOLATED", "INTERNAL"))]
    return f"CHECK {prop} exit {r.returncode}: " + " | ".join(t[:2] + t[-1:])[:500]
if __name__ == "__main__": sys.exit(main())

#!/usr/bin/env python3
"""Runs the check of one property: builds checks/<ID>*.cpp against /repo's working tree, explores, replays
any violation in a fresh process before reporting it, and writes evidence/<ID>.json.
usage: run.py ID [--tier quick|thorough] [--replay FILE] [--only SCENARIO] [--keep]"""
import sys, os, re, json, glob, subprocess, time, shutil, argparse, tempfile
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
CXX = "/usr/bin/clang++-18"
BASE = ["-stdlib=libc++", "-std=gnu++14", "-pthread", "-w", "-fms-extensions", "-fms-compatibility",
        "-fms-compatibility-version=19.30", "-U_MSC_VER", "-fno-delayed-template-parsing",
        "-include", V + "/lib/gnuc_macros.h", "-include", "utility"]
INC = ["-I" + REPO + "/include", "-I" + REPO + "/experimental/include", "-I" + V + "/lib"]
SAN = {"asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
       "asan2": ["-O2", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
       "none": ["-O2", "-g1"],
       "ubsan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]}
ENV = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS", "CPATH", "CPLUS_INCLUDE_PATH", "LD_PRELOAD")}

def directives(path):
    d = {}
    for l in open(path):
        m = re.match(r"//\s*(MC_[A-Z_]+):\s*(.*)", l)
        if m: d.setdefault(m.group(1), []).append(m.group(2).strip())
    return d

def build(pid, bdir):
    srcs = sorted(glob.glob(f"{V}/checks/{pid}.cpp") + glob.glob(f"{V}/checks/{pid}_*.cpp"))
    if not srcs: print("no harness for", pid); sys.exit(2)
    D = {}
    for s in srcs:
        for k, v in directives(s).items(): D.setdefault(k, []).extend(v)
    san = (D.get("MC_SAN") or ["asan"])[0]
    flags = SAN[san]; ld = sum((x.split() for x in D.get("MC_LD", [])), [])
    shutil.rmtree(bdir, ignore_errors=True); os.makedirs(bdir)
    units = [(s, sum((x.split() for x in directives(s).get("MC_FLAGS", [])), [])) for s in srcs + [V + "/lib/mc.cpp"]]
    if D.get("MC_REPO_SRC", ["yes"])[0] != "no":
        units += [(s, []) for s in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))]
    procs, objs = [], []
    for i, (s, fl) in enumerate(units):
        o = f"{bdir}/{i}.{os.path.basename(s)}.o"; objs.append(o)
        log = open(o + ".log", "w")
        extra = [] if s.startswith(REPO + "/src") else fl
        procs.append((s, o, subprocess.Popen([CXX] + BASE + flags + extra + INC + ["-c", s, "-o", o], stdout=log, stderr=log, env=ENV)))
        while sum(p.poll() is None for _, _, p in procs) >= 8: time.sleep(0.02)
    ok = True
    for s, o, p in procs:
        if p.wait() != 0:
            ok = False; print("COMPILE ERROR in", s); print(open(o + ".log").read()[:6000])
    if not ok: sys.exit(2)
    exe = bdir + "/harness"
    r = subprocess.run([CXX] + BASE[:3] + flags + objs + ["-o", exe] + ld, env=ENV, capture_output=True, text=True)
    if r.returncode: print("LINK ERROR\n", r.stderr[:6000]); sys.exit(2)
    return exe, D

def known_entries(pid):
    out = []
    f = V + "/known_findings.txt"
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) key=(\S+)\s*(.*)", l)
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--only"); ap.add_argument("--keep", action="store_true"); ap.add_argument("--budget")
    a = ap.parse_args(); pid = a.id; t0 = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    tmp = tempfile.mkdtemp(prefix=f"mc.{pid}.")
    try: rc = check(pid, a, tier, tmp, t0)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def check(pid, a, tier, tmp, t0):
    exe, D = build(pid, tmp + "/b")
    bt = time.time() - t0
    if a.replay:
        return subprocess.run([exe, "--replay", a.replay], env=ENV).returncode
    kn = known_entries(pid)
    kf = tmp + "/known"; open(kf, "w").write("".join(k + "\n" for k, _ in kn))
    os.makedirs(V + "/replays", exist_ok=True); os.makedirs(V + "/evidence", exist_ok=True)
    viol = f"{V}/replays/{pid}.txt"
    if os.path.exists(viol): os.unlink(viol)
    budget = a.budget or ("620" if tier == "quick" else "5400")
    cmd = [exe, "--out", tmp + "/out.json", "--known", kf, "--viol", viol, "--errdir", tmp, "--jobs", "8", "--budget", budget]
    if tier == "thorough": cmd.append("--thorough")
    if a.only: cmd += ["--only", a.only]
    r = subprocess.run(cmd, env=ENV, capture_output=True, text=True, errors="replace")
    print(r.stdout.strip()[-3000:])
    st = {}
    try: st = json.load(open(tmp + "/out.json"))
    except Exception as e: print("no stats", e)
    violation = None; status = 0
    if r.returncode == 1:
        txt = open(viol, errors="replace").read()
        msg = re.search(r"message (.*)", txt).group(1)
        if msg.startswith("internal:"): print("INTERNAL", msg); status = 2
        else:
            # replay before report: the single trace in a fresh process; if state carried over from earlier
            # executions is needed, the whole (deterministic) shard that found it
            ok = False
            for mode in ("trace", "shard"):
                open(viol, "w").write(txt.replace("mode trace", "mode " + mode))
                try:
                    rr = subprocess.run([exe, "--replay", viol, "--known", kf], env=ENV, capture_output=True, text=True, errors="replace", timeout=260)
                except subprocess.TimeoutExpired: continue
                if rr.returncode == 1: ok = True; break
            if ok:
                print("replayed (%s): " % mode); print(rr.stdout[-3000:]); 
                open(viol, "a").write("".join("# " + l + "\n" for l in rr.stdout[-6000:].splitlines()))
                violation = msg; status = 1
            else:
                print("violation did not reproduce on replay; message was:", msg); status = 2
    elif r.returncode != 0:
        print("harness error", r.returncode, r.stderr[-2000:]); status = 2
    seen_known = st.get("known", [])
    for k in seen_known:
        d = dict(kn).get(k["key"], "")
        print(f"KNOWN-FINDING: property={pid} {k['key']} {d} [{k['n']}x, e.g. {k['msg'][:160]}]")
    cov = dict(states=st.get("states", 0), transitions=st.get("transitions", 0),
               traces_validated_against_impl=st.get("executions", 0), samples=st.get("samples", []) or ["(no recorded steps)"],
               exhaustive=bool(st) and not st.get("capped", True) and status == 0,
               executions_cut_outside_bounds=st.get("cut", 0), executions_merged_into_visited_states=st.get("pruned", 0),
               longest_execution_choices=st.get("max_choices", 0), scenarios=st.get("scenarios", []),
               bounds=D.get("MC_BOUNDS", []), known_findings_seen=[k["key"] for k in seen_known], build_s=round(bt, 1))
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking", coverage=cov,
              assumptions=D.get("MC_ASSUME", []) + ["clang 18 and libc++ compile the harness and /repo faithfully",
              "64-bit hash compaction of visited/counted states: a collision could merge two states"],
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    if status == 1: print(f"VIOLATION property={pid} replay={viol}")
    return status

main()

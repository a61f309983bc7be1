#!/usr/bin/env python3
"""bugtest.py [--notest] ID...: applies each seeded bug to a scratch copy of /repo, builds it, runs the tests, the demo (with and without) and the check of its property."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/bugrepo"
notest = "--notest" in sys.argv
nocheck = "--nocheck" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
subprocess.run(["rsync", "-a", "--delete", "--exclude", ".git", "--exclude", "_build", "/repo/", S + "/"], check=False) if shutil.which("rsync") else None
if not shutil.which("rsync"):
    for x in os.listdir(S) if os.path.isdir(S) else []:
        if x not in ("_build",):
            p = os.path.join(S, x)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    os.makedirs(S, exist_ok=True)
    for x in os.listdir("/repo"):
        if x in (".git", "_build"):
            continue
        subprocess.run(["cp", "-a", "/repo/" + x, S + "/"], check=True)
subprocess.run(["git", "init", "-q"], cwd=S)
T = "/tmp/bugvp"
os.makedirs(T, exist_ok=True)
for f in ("build.sh", "test.sh", "run_tests.py", "results.py"):
    s = open("/opt/vp/" + f).read().replace("/repo", S).replace("/opt/vp", T)
    open(os.path.join(T, f), "w").write(s)
base = json.load(open("/opt/vp/BASELINE.json"))
base = set(base.get("passed") or base.get("stable") or base.get("tests"))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def demo(i):
    try:
        return sh(["bash", os.path.join(V, "seeded", i, "demo.sh")], cwd=S, timeout=300)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess([], 124, "timeout")


r = sh(["bash", T + "/build.sh"])
if r.returncode:
    print(r.stdout[-3000:]); sys.exit(1)
clean = {i: demo(i) for i in ids}
for i in ids:
    meta = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    out = ["demo-clean=%s" % ("ok" if clean[i].returncode == 0 else "BAD(%d) %s" % (clean[i].returncode, clean[i].stdout[-500:]))]
    a = sh(["git", "apply", os.path.join(V, "seeded", i, "patch.diff")], cwd=S)
    if a.returncode:
        print(i, "PATCH DOES NOT APPLY", a.stdout); continue
    try:
        r = sh(["bash", T + "/build.sh"])
        out.append("build=%s" % ("ok" if r.returncode == 0 else "BAD " + r.stdout[-800:]))
        d = demo(i)
        out.append("demo-bug=%s [%s]" % ("ok" if d.returncode not in (0, 3) else "BAD(%d)" % d.returncode, d.stdout.strip().splitlines()[-1][:120] if d.stdout.strip() else ""))
        if not notest:
            sh(["bash", T + "/test.sh", "/tmp/bug.json"])
            p = set(json.load(open("/tmp/bug.json"))["passed"])
            miss = sorted(base - p)
            out.append("tests=%s" % ("ok" if not miss else "FAIL " + str(miss[:4])))
        if not nocheck:
            t = time.time()
            c = sh([sys.executable, os.path.join(V, "check.py"), meta["property"], "quick"], env=dict(os.environ, ONION_REPO=S), cwd=V)
            out.append("check=%s %.0fs" % ("CAUGHT" if c.returncode == 1 and "VIOLATION property=" + meta["property"] in c.stdout else "MISSED(%d) %s" % (c.returncode, c.stdout[-300:] if c.returncode not in (0, 1) else ""), time.time() - t))
    finally:
        sh(["git", "apply", "-R", os.path.join(V, "seeded", i, "patch.diff")], cwd=S)
    print(i, " ".join(out), flush=True)
sh(["bash", T + "/build.sh"])

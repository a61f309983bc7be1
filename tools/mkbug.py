"""bug(id, prop, file(s) [(path, old, new)], needs, breaks, demo_cpp): writes /verif/seeded/<id>; used from throwaway scripts."""
import json, os, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/bugtree"


def tree():
    if not os.path.exists(W):
        subprocess.run(["git", "-C", "/repo", "worktree", "add", "--detach", W, "HEAD"], check=True, capture_output=True)
    subprocess.run(["git", "-C", W, "checkout", "-q", "--detach", subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()], check=True)
    subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."], check=True)


def bug(id, prop, edits, needs, breaks, demo, flags="", files={}, demosh=None):
    tree()
    for path, old, new in edits:
        p = os.path.join(W, path)
        s = open(p).read()
        assert s.count(old) == 1, (id, path, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(V, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    diff = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    if demo is not None:
        open(os.path.join(d, "demo.cpp"), "w").write(demo)
        shutil.copy(os.path.join(V, "tools/demo/mini.hpp"), d)
    sh = demosh or open(os.path.join(V, "tools/demo/demo.sh")).read().replace("@FLAGS@", flags)
    open(os.path.join(d, "demo.sh"), "w").write(sh)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for n, c in files.items():
        open(os.path.join(d, n), "w").write(c)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."], check=True)
    print("wrote", id, len(diff.splitlines()))

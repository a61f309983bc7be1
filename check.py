#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]   run one check against /repo's working tree
   check.py replay <file.replay>          replay a recorded violation verbosely
   check.py build <variant>               only build a library variant

Builds libonion (and whatever else the check needs) out of tree from /repo with
/repo's own CMake files, builds the harness of the property, runs it, writes
/verif/evidence/<PROPERTY>.json and exits 0 / 1 (with a VIOLATION line).
Any other exit status is an error of the check itself.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ONION_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, VERIF)
from registry import CHECKS, VARIANTS  # noqa

CMAKE_COMMON = ["-G", "Ninja", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DONION_USE_TESTS=false",
                "-DONION_EXAMPLES=false", "-Wno-dev"]


def log(*a):
    print("[check]", *a, flush=True)


def die(msg):
    print("CHECK-ERROR:", msg, flush=True)
    sys.exit(2)


def tree_hash():
    h = hashlib.sha256()
    for top in ("CMakeLists.txt", "CMakeModules", "src", "tools", "git-version-gen", "onion.pc.in"):
        p = os.path.join(REPO, top)
        files = []
        if os.path.isfile(p):
            files = [p]
        else:
            for d, _, fs in os.walk(p):
                files += [os.path.join(d, f) for f in fs]
        for f in sorted(files):
            h.update(f.encode())
            try:
                with open(f, "rb") as fd:
                    h.update(fd.read())
            except OSError:
                pass
    return h.hexdigest()[:16]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        print(r.stdout[-6000:])
        die("command failed (%d): %s" % (r.returncode, " ".join(cmd)[:300]))
    return r.stdout


def build_variant(name):
    """-> build directory of /repo in this variant (cached by content)"""
    v = VARIANTS[name]
    extra = "".join(sorted(virtual_symbols())) + "2" if v.get("redefine") else ""
    key = hashlib.sha256((tree_hash() + json.dumps(v, sort_keys=True) + extra).encode()).hexdigest()[:12]
    d = os.path.join(BUILD, "lib-%s-%s" % (name, key))
    if os.path.exists(os.path.join(d, "OK")):
        return d
    os.makedirs(BUILD, exist_ok=True)
    # keep the disk small: only the last builds of a variant
    old = [os.path.join(BUILD, o) for o in os.listdir(BUILD) if o.startswith("lib-%s-" % name) and os.path.join(BUILD, o) != d]
    for o in sorted(old, key=os.path.getmtime)[:-3]:
        shutil.rmtree(o, ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True)
    t = time.time()
    env = dict(os.environ, CC=v.get("cc", "gcc"), CXX=v.get("cxx", "g++"), HOME="/root", LANG="C.UTF-8")
    run(["cmake", "-S", REPO, "-B", d] + CMAKE_COMMON +
        ["-DCMAKE_C_FLAGS=-Wno-error -w " + v["cflags"], "-DCMAKE_CXX_FLAGS=-Wno-error -w " + v.get("cxxflags", v["cflags"])] + v.get("cmake", []), env=env)
    run(["ninja", "-C", d] + v["targets"], env=env)
    if v.get("redefine"):
        redefine(d)
    open(os.path.join(d, "OK"), "w").close()
    log("built variant %s in %.1fs" % (name, time.time() - t))
    return d


def virtual_symbols():
    return {m.group(1) for src in ("sched.cpp", "vk.cpp") for m in re.finditer(r"\bvk_([a-z0-9_]+)\(", open(os.path.join(VERIF, "harness", src)).read())}


def redefine(d):
    """one relocatable object of the whole library, whose calls to threads, memory, kernel and clocks go to harness/sched.cpp and
    harness/vk.cpp, and whose static data lies in sections of its own (so that every execution starts from the same statics)"""
    defined = virtual_symbols()
    syms = os.path.join(d, "redefine.txt")
    with open(syms, "w") as f:
        for s in sorted(defined):
            f.write("%s vk_%s\n" % (s, s))
    one = os.path.join(d, "one.o")
    out = os.path.join(d, "onion_sched.o")
    run(["ld", "-r", "--whole-archive", os.path.join(d, "src/onion/libonion_static.a"), "-o", one])
    run(["objcopy", "--redefine-syms=" + syms, "--rename-section", ".data=onion_data,alloc,load,data,contents",
         "--rename-section", ".data.rel=onion_data,alloc,load,data,contents", "--rename-section", ".data.rel.local=onion_data,alloc,load,data,contents",
         "--rename-section", ".bss=onion_bss,alloc,load,data,contents", one, out])


def defines():
    # feature defines used by /repo's CMake for this configuration; needed by types_internal.h
    return ["-DHAVE_GNUTLS", "-DHAVE_PTHREADS", "-D_DEFAULT_SOURCE", "-D_GNU_SOURCE"]


LIBS = ["-lxml2", "-lpam", "-lgcrypt", "-lgnutls", "-lsqlite3", "-lhiredis", "-lsystemd", "-lpthread", "-lrt", "-ldl"]


def build_harness(chk, workdir):
    v = VARIANTS[chk["variant"]]
    lib = build_variant(chk["variant"])
    exe = os.path.join(workdir, "harness")
    objs = []
    procs = []
    for src in chk["sources"]:
        sp = os.path.join(VERIF, "harness", src)
        o = os.path.join(workdir, src.replace("/", "_") + ".o")
        cc = v.get("cxx", "g++") if src.endswith(".cpp") else v.get("cc", "gcc")
        std = ["-std=c++17"] if src.endswith(".cpp") else []
        fl = v["harness_cflags"]
        if src in chk.get("plain", []) or src in v.get("plain", []):
            fl = "-O1 -g"
        cmd = [cc] + std + fl.split() + ["-w"] + defines() + [f.replace("@REPO@", REPO) for f in chk.get("cflags", [])] + \
            ["-I", os.path.join(REPO, "src"), "-I", os.path.join(lib, "src"), "-I", os.path.join(VERIF, "harness"),
             "-c", sp, "-o", o]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        objs.append(o)
    for cmd, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            print(out[-6000:])
            die("harness does not compile: " + " ".join(cmd)[-200:])
    libs = [os.path.join(lib, l) for l in chk.get("libs", ["src/onion/libonion_static.a"])]
    wrap = ["-Wl," + ",".join("--wrap=" + w for w in chk["wrap"])] if chk.get("wrap") else []
    run([v.get("cxx", "g++")] + v["link"].split() + objs + wrap + libs + chk.get("ldflags", []) + LIBS + ["-o", exe])
    return exe, lib


def known_keys(pid):
    f = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(f):
        return []
    return [k["key"] for k in json.load(open(f))["findings"] if k["property"] == pid and k.get("status") == "known"]


ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16:handle_segv=1",
       "UBSAN_OPTIONS": "halt_on_error=1:exitcode=99:print_stacktrace=1", "ONION_LOG": "noinfo nodebug", "ONION_DEBUG0": "", "TZ": "UTC"}


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        sys.exit(2)
    if sys.argv[1] == "build":
        print(build_variant(sys.argv[2]))
        return
    replay = None
    if sys.argv[1] == "replay":
        replay = os.path.abspath(sys.argv[2])
        pid = os.path.basename(replay).split("-")[0]
        tier = "quick"
    else:
        pid = sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    chk = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    workdir = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=BUILD)
    scratch = workdir
    if os.access("/dev/shm", os.W_OK) and os.statvfs("/dev/shm").f_bavail * os.statvfs("/dev/shm").f_frsize > 2 << 30:
        scratch = tempfile.mkdtemp(prefix="run-%s-" % pid, dir="/dev/shm")
    try:
        os.chmod(workdir, 0o755)
        os.chmod(scratch, 0o755)
        exe, lib = build_harness(chk, workdir)
        env = dict(os.environ, **ENV)
        env.update(chk.get("env", {}))
        env["ONION_LIBDIR"] = lib
        env["ONION_REPO"] = REPO
        if "prepare" in chk:
            chk["prepare"](dict(repo=REPO, lib=lib, workdir=workdir, verif=VERIF, tier=tier, env=env, run=run, die=die, build_variant=build_variant))
        frag = os.path.join(workdir, "out.json")
        cmd = [exe, "--tier", tier, "--property", pid, "--out", frag, "--replaydir", os.path.join(VERIF, "replays"), "--scratch", scratch]
        cmd += sys.argv[3:]
        for k in known_keys(pid):
            cmd += ["--known", k]
        if replay:
            cmd += ["--replay", replay]
        sys.stdout.flush()
        r = subprocess.run(cmd, env=env, cwd=workdir)
        if replay:
            sys.exit(r.returncode)
        if r.returncode not in (0, 1) or not os.path.exists(frag):
            die("harness exited with %d" % r.returncode)
        d = json.load(open(frag))
        wall = time.time() - t0
        cov = {
            "states": d["states"] or d["tree_nodes"],
            "transitions": d["choice_points"],
            "traces_validated_against_impl": d["executions"],
            "evaluations": d["executions"],
            "distinct_nontrivial": d["outcomes"],
            "rule": d["rule"],
            "exhaustive": r.returncode == 0,
            "sections": d["sections"],
            "samples": d["samples"][:12],
        }
        ev = {"property": pid, "tier": tier, "seed": seed, "level": chk.get("level", "model_checking"), "coverage": cov,
              "assumptions": d["assumptions"], "wall_s": round(wall, 2), "violations": d["violations"]}
        if d["message"]:
            ev["message"] = d["message"]
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log("%s %s: %s, %d executions, %d choice points, %.1fs" % (pid, tier, "held" if r.returncode == 0 else "VIOLATED", d["executions"], d["choice_points"], wall))
        sys.exit(r.returncode)
    finally:
        if os.environ.get("ONION_KEEP"):
            log("kept " + workdir)
            return
        shutil.rmtree(workdir, ignore_errors=True)
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()

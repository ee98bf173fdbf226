#!/usr/bin/env python3
"""Build and run the check of one property against /repo's working tree.

usage: run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE] [extra pbt options]
exit 0: the property held on everything explored; 1: VIOLATION line printed; 2: no answer."""
import glob, hashlib, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(HERE, "harness")
sys.path.insert(0, os.path.join(HERE, "tools"))
from targets import TARGETS, ENGINES, DISTS

SAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=shift-base", "-fno-sanitize-recover=undefined"]
OPT = ["-O2"]
TSAN = ["-O1", "-fsanitize=thread"]
BASE = ["g++", "-std=gnu++17", "-w", "-DBOOST_ENABLE_ASSERT_HANDLER", "-I" + os.path.join(REPO, "include"), "-I" + H]

def hash_files(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def common_hash():
    fs = []
    for root in (os.path.join(REPO, "include"), os.path.join(REPO, "src")):
        for d, ds, names in os.walk(root):
            fs += [os.path.join(d, f) for f in names]
    fs += glob.glob(os.path.join(H, "*.hpp")) + glob.glob(os.path.join(H, "*.inc"))
    return hash_files(sorted(fs))

def compile_one(job):
    out, cmd = job
    if os.path.exists(out):
        return 0, ""
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0:
        os.rename(tmp, out)
    return r.returncode, r.stdout

def build(prop):
    t = TARGETS[prop]
    flags = (OPT if t.get("opt") else TSAN if t.get("tsan") else SAN) + t.get("flags", [])
    bdir = os.path.join(HERE, "build")
    os.makedirs(bdir, exist_ok=True)
    files = sorted(glob.glob(os.path.join(bdir, "*")), key=os.path.getmtime)
    for f in files[:-400]:                      # keep the cache bounded
        try: os.unlink(f)
        except OSError: pass
    common = common_hash()
    jobs, objs = [], []
    def job(path, fl):
        cmd = BASE + fl + ["-c", path]
        o = os.path.join(bdir, os.path.basename(path)[:-4] + "-" + hash_files([path], common + " ".join(cmd))[:20] + ".o")
        jobs.append((o, cmd)); objs.append(o)
    for s in list(t["src"]) + (ENGINES if t.get("engines") else []) + (DISTS if t.get("dists") else []):
        job(os.path.join(REPO, s[5:]) if s.startswith("repo:") else os.path.join(H, s), flags)
    job(os.path.join(H, "pbt_main.cpp"), flags + ['-DPBT_PROPERTY="%s"' % prop])
    jobs.sort(key=lambda j: -os.path.getsize(j[1][-1]))
    with ThreadPoolExecutor(8) as ex:
        for (rc, log), (o, cmd) in zip(ex.map(compile_one, jobs), jobs):
            if rc:
                sys.stderr.write("compilation failed: %s\n%s\n" % (" ".join(cmd), log[:6000]))
                if os.path.basename(cmd[-1]) in t.get("conform", []):
                    refused(prop, cmd[-1], log)
                return None
    exe = os.path.join(bdir, prop + "-" + hashlib.sha256(" ".join(objs).encode()).hexdigest()[:20])
    rc, log = compile_one((exe, ["g++"] + flags + objs + t.get("libs", [])))
    if rc:
        sys.stderr.write("link failed\n" + log[:4000]); return None
    return exe

def refused(prop, src, log):
    """Code that the property says is valid does not compile: a violation, provided the library compiles by itself."""
    probe = subprocess.run(BASE + ["-fsyntax-only", "-x", "c++", "-"], input="#include <boost/random.hpp>\nint main() { boost::random::mt19937 g; boost::random::uniform_int_distribution<> d(1, 6); boost::random::normal_distribution<> n; return d(g) + (int)n(g) == -100; }\n", text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if probe.returncode:
        return
    first = [l for l in log.split("\n") if "error" in l][:3]
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    f = os.path.join(HERE, "replays", "%s-refused-%s.txt" % (prop, os.path.basename(src)))
    with open(f, "w") as o:
        o.write("property %s\nrefused %s\n%s\n" % (prop, os.path.basename(src), log[:20000]))
    print("FAILED %s/compile: valid code is refused: %s" % (prop, " | ".join(first)))
    print("VIOLATION property=%s replay=%s" % (prop, f))
    sys.exit(1)

def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    if prop == "--setup":      # nothing to install: each check builds what it needs
        sys.exit(subprocess.run(["g++", "--version"]).returncode)
    if "--replay" in args and open(args[args.index("--replay") + 1]).read().split("\n")[1:2][0].startswith("refused "):
        args = ["--list"]      # building is the replay
    t0 = time.time()
    exe = build(prop)
    if exe is None:
        sys.exit(2)
    tb = time.time() - t0
    if prop and "--build-only" in args:
        return
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    cmd = [exe]
    if "--replay" not in args and "--evidence" not in args and "--list" not in args:
        cmd += ["--evidence", os.path.join(HERE, "evidence", prop + ".json")]
    cmd += ["--replaydir", os.path.join(HERE, "replays")] + args
    kf = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(kf):
        for line in open(kf):
            f = line.strip().split(None, 2)
            if len(f) >= 2 and f[0] == "known" and f[1] == "property=" + prop:
                cmd += ["--known", f[2].split()[0]]
    sys.stdout.write("built %s in %.1fs\n" % (prop, tb)); sys.stdout.flush()
    rc = subprocess.run(cmd, cwd=HERE).returncode
    sys.exit(rc if rc in (0, 1) else 2)
main()

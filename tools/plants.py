#!/usr/bin/env python3
"""Development tool: validates planted changes (seeded/ID) in scratch copies,
several at a time: the patch applies to HEAD, builds, passes the stable tests,
the demonstration passes without and fails with it; then runs the check of the
property. For each one prints a line: build, missing tests, demo, checks.

  plants.py [--workers N] [--seeds 1,2] [--checks C01,..] ID...
"""
import argparse, json, os, queue, shutil, subprocess, sys, threading

ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*")
ap.add_argument("--workers", type=int, default=2)
ap.add_argument("--seeds", default="1")
ap.add_argument("--checks", default="")
ap.add_argument("--no-tests", action="store_true")
o = ap.parse_args()
SEED = "/verif/seeded"
ids = o.ids or sorted(os.listdir(SEED))
q = queue.Queue()
for i in ids:
    q.put(i)
lock, testlock = threading.Lock(), threading.Lock()
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, log, timeout=900, env=None):
    with open(log, "w") as f:
        try:
            return subprocess.run(cmd, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=env, stdin=subprocess.DEVNULL).returncode
        except subprocess.TimeoutExpired:
            return "timeout"


def worker(w):
    top = "/tmp/plants/%d" % w
    repo = top + "/repo"
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top + "/verif")
    subprocess.run("cd /verif && cp -a check.py py harness codec web known-findings.txt %s/verif/ && mkdir -p %s/verif/.build %s/verif/evidence && cp -a .build/target .build/repo-target %s/verif/.build/ ; cp -a /repo %s/repo; rm -rf %s/repo/artifacts" % ((top,) * 6), shell=True, check=True)
    os.makedirs(top + "/vp")
    for f in ("common.sh", "test.sh", "build.sh", "results.py"):
        s = open("/opt/vp/" + f).read().replace("/opt/vp/common.sh", top + "/vp/common.sh").replace("/opt/vp/results.py", top + "/vp/results.py").replace("/repo", repo)
        open(top + "/vp/" + f, "w").write(s)
    env = dict(os.environ, VERIF_REPO=repo)
    while True:
        try:
            i = q.get_nowait()
        except queue.Empty:
            break
        d = SEED + "/" + i
        L = "/tmp/plants/log." + i
        demo = top + "/demo." + i
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        sh(["bash", top + "/vp/build.sh"], repo, L + ".build0")
        clean = sh(["bash", demo + "/demo.sh"], repo, L + ".demo0", 300)
        line = "%s:" % i
        if subprocess.run(["git", "apply", d + "/patch.diff"], cwd=repo).returncode:
            line += " DOES NOT APPLY"
        else:
            b = sh(["bash", top + "/vp/build.sh"], repo, L + ".build")
            miss = "-"
            if b == 0 and not o.no_tests:
                with testlock:
                    sh(["bash", top + "/vp/test.sh", top + "/t.json"], repo, L + ".test")
                miss = len(stable - set(json.load(open(top + "/t.json")).get("passed", [])))
            bug = sh(["bash", demo + "/demo.sh"], repo, L + ".demo1", 300)
            ok = b == 0 and miss in (0, "-") and clean == 0 and bug != 0
            line += " %s build=%s missing=%s demo=%s/%s" % ("valid" if ok else "INVALID", b, miss, clean, bug)
            checks = o.checks.split(",") if o.checks else [json.load(open(d + "/meta.json"))["property"]]
            for c in checks if b == 0 else []:
                for s in o.seeds.split(","):
                    r = sh([sys.executable, top + "/verif/check.py", c, "--seed", s], top, "%s.%s.%s" % (L, c, s), 900, env)
                    v = [x for x in open("%s.%s.%s" % (L, c, s)) if x.startswith("VIOLATION")]
                    line += " %s/%s=%s" % (c, s, "caught" if r == 1 and v else "MISSED(%s)" % r)
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=repo)
        with lock:
            print(line, flush=True)
        shutil.rmtree(demo, ignore_errors=True)
    shutil.rmtree(top, ignore_errors=True)


ts = [threading.Thread(target=worker, args=(w,)) for w in range(o.workers)]
[t.start() for t in ts]
[t.join() for t in ts]

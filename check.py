#!/usr/bin/env python3
"""Entry point of the checks: builds what a check needs from /repo's working
tree and runs it.

  check.py --setup                     build everything
  check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]
"""
import argparse, fcntl, glob, hashlib, json, os, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
TARGET = os.path.join(BUILD, "target")
REPO_TARGET = os.path.join(BUILD, "repo-target")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")

HISTORY = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10",
           "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19"]


BINARY = ["C29"]
CODEC = ["C23", "C28"]
PYTHON = ["C24", "C25"]
HTTP = ["C20", "C21", "C22", "C26", "C27", "C30", "C31", "C32"]


def tree_hash():
    h = hashlib.sha256()
    for top, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target", "__pycache__", "node_modules"))
        for f in sorted(files):
            if f.endswith(".pyc"):
                continue
            p = os.path.join(top, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            with open(p, "rb") as fd:
                h.update(hashlib.sha256(fd.read()).digest())
    return h.hexdigest()


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def cargo(args, target, stamp):
    """Build; modification times are not trusted: when the sources changed by
    content, cargo's fingerprints of the crates of /repo are removed."""
    h = tree_hash()
    path = os.path.join(BUILD, stamp)
    old = open(path).read() if os.path.exists(path) else ""
    if old != h:
        for profile in ("debug", "release"):
            for d in glob.glob(os.path.join(target, profile, ".fingerprint", "pica*")):
                shutil.rmtree(d, ignore_errors=True)
    r = subprocess.run(["cargo", "build", "--offline", "--target-dir", target] + args,
                       env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        sys.stderr.write("\nbuild failed\n")
        sys.exit(3)
    with open(path, "w") as f:
        f.write(h)


def build_harness():
    with Lock():
        cargo(["--locked", "--manifest-path", os.path.join(VERIF, "harness/Cargo.toml")], TARGET, "stamp-harness")
    return os.path.join(TARGET, "debug", "pica-verif")


def build_codec():
    with Lock():
        cargo(["--locked", "--manifest-path", os.path.join(VERIF, "codec/Cargo.toml")], TARGET, "stamp-harness")
    return os.path.join(TARGET, "debug", "pica-codec-verif")


def build_repo():
    with Lock():
        cargo(["--locked", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--bins"], REPO_TARGET, "stamp-repo")
    return os.path.join(REPO_TARGET, "debug")


def run_python(opts):
    cmd = [sys.executable, os.path.join(VERIF, "py", "run.py"), opts.id, "--tier", opts.tier, "--seed", str(opts.seed),
           "--build", BUILD, "--evidence", os.path.join(VERIF, "evidence", opts.id + ".json"), "--repo", REPO]
    if opts.id in HTTP:
        cmd += ["--bin", build_repo()]
    if opts.id in CODEC:
        cmd += ["--codec", build_codec()]
    if opts.replay:
        cmd += ["--replay", opts.replay]
    return subprocess.run(cmd, env=dict(ENV, PYTHONDONTWRITEBYTECODE="1")).returncode


def signal_death(cmd, opts):
    """The whole process died: find the case that kills it."""
    for f in sorted(glob.glob(os.path.join(BUILD, "current", opts.id + "-*.json"))):
        r = subprocess.run(cmd[:1] + [opts.id, "--replay", f], stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL)
        if r.returncode < 0:
            os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
            dst = os.path.join(BUILD, "replay", "%s-crash.json" % opts.id)
            shutil.copy(f, dst)
            print("the process is killed by a signal on this case")
            print("VIOLATION property=%s replay=%s" % (opts.id, dst))
            return 1
    return None


def run_history(opts):
    exe = build_harness()
    if opts.id in BINARY:
        ENV["VERIF_PICA"] = os.path.join(build_repo(), "pica")
    cmd = [exe, opts.id, "--tier", opts.tier, "--seed", str(opts.seed), "--build", BUILD,
           "--evidence", os.path.join(VERIF, "evidence", opts.id + ".json")]
    # for tools/mutate.py
    for name in ("scale", "threads"):
        if os.environ.get("VERIF_" + name.upper()):
            cmd += ["--" + name, os.environ["VERIF_" + name.upper()]]
    if opts.replay:
        cmd += ["--replay", opts.replay]
    r = subprocess.run(cmd, env=ENV)
    if r.returncode < 0:
        return signal_death(cmd, opts) or 4
    return r.returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    opts = ap.parse_args()
    os.chdir(VERIF)
    if opts.setup:
        build_harness()
        build_codec()
        build_repo()
        return 0
    if opts.id in HISTORY + BINARY:
        return run_history(opts)
    if opts.id in HTTP + CODEC + PYTHON:
        return run_python(opts)
    print("unknown check", opts.id)
    return 2


if __name__ == "__main__":
    sys.exit(main())

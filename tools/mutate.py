#!/usr/bin/env python3
"""Mutation analysis, a tool of development (not a registered check): small
changes of pica's sources, each built and run against the checks in a scratch
copy; prints which checks notice which change.

  mutate.py OUT.jsonl [--workers N] [--sample N] [--scale S] [--seed N] [--files a,b] [--checks C01,C02]
"""
import argparse, json, os, random, re, shutil, subprocess, sys, threading, queue

SWAPS = [
    (r"==", "!="), (r"!=", "=="), (r" >= ", " > "), (r" > ", " >= "), (r" < ", " <= "), (r" <= ", " < "),
    (r"&&", "||"), (r"\|\|", "&&"), (r" \+= ", " -= "), (r" -= ", " += "), (r" \+ ", " - "), (r" - ", " + "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"),
    (r"\.is_none\(\)", ".is_some()"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_empty\(\)", ".len() != 0"),
    (r"if !", "if "), (r"\blocal\.", "remote."), (r"\bremote\.", "local."),
    (r"_le_bytes", "_be_bytes"), (r"_be_bytes", "_le_bytes"), (r"\.min\(", ".max("), (r"cmp::min", "cmp::max"),
    (r"\blittle\b", "big"), (r"\bwas_active\b(?! =)", "!was_active"),
    (r"Status::Ok\b", "Status::Failed"), (r"Status::Rejected\b", "Status::Failed"),
    (r"Status::Error\w+", "Status::Rejected"), (r"Status::InvalidParam", "Status::Failed"),
    (r"ReasonCode::\w+", "ReasonCode::ErrorInsufficientSlotsPerRr"),
    (r"SessionState::SessionStateIdle", "SessionState::SessionStateInit"),
    (r"SessionState::SessionStateActive", "SessionState::SessionStateIdle"),
    (r"SessionState::SessionStateInit", "SessionState::SessionStateIdle"),
    (r"DeviceState::DeviceStateReady", "DeviceState::DeviceStateActive"),
    (r"DeviceState::DeviceStateActive", "DeviceState::DeviceStateReady"),
    (r"MulticastUpdateStatus::\w+", "MulticastUpdateStatus::ErrorKeyFetchFail"),
    (r"DataTransferNtfStatusCode::\w+", "DataTransferNtfStatusCode::UciDataTransferStatusRepetitionOk"),
    (r"\b(\d+)\b", lambda m: str(int(m.group(1)) + 1)),
    (r"\b(\d+)\b", lambda m: "0" if m.group(1) != "0" else "2"),
    (r"MacAddressMode::Mode0", "MacAddressMode::Mode2"), (r"MacAddressMode::Mode2", "MacAddressMode::Mode0"),
    (r"\.contains\(", ".is_empty() || [0].contains(") if False else (r"\bas u16\b", "as u8 as u16"),
    (r" and ", " or "), (r" or ", " and "), (r"\bnot ", ""), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"),
    (r"===", "!=="), (r"!==", "==="), (r"Math.sin", "Math.cos"), (r" \* ", " / "), (r" / ", " * "),
    (r"\bas u32\b", "as u16 as u32"), (r"\bas usize\b", "as u8 as usize"),
]


def mutants(path, text):
    body = text.split("#[cfg(test)]")[0]
    lines = body.split("\n")
    for n, line in enumerate(lines):
        s = line.strip()
        if not s or s.startswith(("//", "#", "use ", "pub use", "log::", "import ", "from ", '"""')) or "log::" in line:
            continue
        code = line.split(" // ")[0].split("  # ")[0]
        for pat, rep in SWAPS:
            for m in re.finditer(pat, code):
                new = code[:m.start()] + m.expand(rep) if isinstance(rep, str) else code[:m.start()] + rep(m)
                yield n, line, new + code[m.end():]
        if re.match(r"^\s*[\w.&*()\[\]]+.*;$", line) and not s.startswith(("let ", "return", "use ", "pub ", "const ", "static ", "mod ", "}", "break", "continue", "print(")):
            yield n, line, re.match(r"^\s*", line).group(0) + "();"
        m = re.match(r"^(\s*)(if|} else if) (?!let)(.+) \{$", code)
        if m:
            yield n, line, "%s%s true || (%s) {" % m.groups()
            yield n, line, "%s%s false && (%s) {" % m.groups()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--workers", type=int, default=3)
    ap.add_argument("--sample", type=int, default=100)
    ap.add_argument("--scale", default="0.1")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--files", default="src/lib.rs,src/device.rs,src/session.rs,src/app_config.rs,src/packets.rs,src/mac_address.rs,src/pcapng.rs")
    ap.add_argument("--checks", default=",".join("C%02d" % i for i in range(1, 20)))
    ap.add_argument("--grep", default="")
    ap.add_argument("--first", action="store_true", help="stop at the first check that notices the change")
    o = ap.parse_args()
    todo = []
    for f in o.files.split(","):
        text = open("/repo/" + f).read()
        todo += [(f,) + m for m in mutants(f, text) if o.grep in m[1]]
    done = set()
    if os.path.exists(o.out):
        for l in open(o.out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    todo = [t for t in todo if (t[0], t[1] + 1, t[3].strip()) not in done]
    random.Random(o.seed).shuffle(todo)
    print(len(todo), "mutants", flush=True)
    q = queue.Queue()
    for t in todo[:o.sample]:
        q.put(t)
    lock = threading.Lock()

    def worker(w):
        top = "/tmp/mut/%d" % w
        shutil.rmtree(top, ignore_errors=True)
        os.makedirs(top + "/verif")
        subprocess.run("cd /verif && cp -a check.py py harness codec web known-findings.txt %s/verif/ && mkdir -p %s/verif/.build %s/verif/evidence && cp -a .build/target .build/repo-target %s/verif/.build/ ; mkdir %s/repo; cd /repo && git archive HEAD | tar x -C %s/repo" % ((top,) * 6), shell=True, check=True)
        env = dict(os.environ, VERIF_REPO=top + "/repo", VERIF_SCALE=o.scale, VERIF_THREADS="3")
        while True:
            try:
                f, n, old, new = q.get_nowait()
            except queue.Empty:
                break
            p = top + "/repo/" + f
            text = open("/repo/" + f).read()
            lines = text.split("\n")
            assert lines[n] == old
            lines[n] = new
            open(p, "w").write("\n".join(lines))
            compile = ["cargo", "check", "--offline", "--quiet", "--manifest-path", top + "/repo/Cargo.toml", "--target-dir", top + "/verif/.build/check", "--bins"]
            if f.endswith(".py"):
                compile = [sys.executable, "-m", "py_compile", p]
            elif not f.endswith(".rs"):
                compile = ["true"]
            b = subprocess.run(compile, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env)
            res = {"file": f, "line": n + 1, "old": old.strip(), "new": new.strip()}
            if b.returncode:
                res["build"] = False
            else:
                caught, odd = [], []
                checks = o.checks.split(",")
                if o.first:
                    random.shuffle(checks)
                for c in checks:
                    if o.first and caught:
                        break
                    try:
                        r = subprocess.run([sys.executable, top + "/verif/check.py", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                        if r.returncode == 1 and "VIOLATION property=" + c in r.stdout:
                            caught.append(c)
                        elif r.returncode:
                            odd.append("%s:%d" % (c, r.returncode))
                            if r.returncode == 3:
                                break
                    except subprocess.TimeoutExpired:
                        odd.append(c + ":timeout")
                res["caught"], res["odd"] = caught, odd
            with lock, open(o.out, "a") as fd:
                fd.write(json.dumps(res) + "\n")
            open(p, "w").write(text)
        shutil.rmtree(top, ignore_errors=True)

    ts = [threading.Thread(target=worker, args=(w,)) for w in range(o.workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == "__main__":
    main()

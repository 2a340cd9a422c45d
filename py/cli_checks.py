"""C31: the programs honour their command line."""
import fcntl, os, shutil, socket, struct, subprocess, tempfile, time
from common import Part, Skip, Violation, drop, smaller_values
from net import TIMEOUT, Http, Uci

LOOPBACK, ANY = "127.0.0.1", "0.0.0.0"


def sockets_of(pid):
    """{(address, port)} on which the process listens."""
    inodes = set()
    try:
        for fd in os.listdir("/proc/%d/fd" % pid):
            try:
                t = os.readlink("/proc/%d/fd/%s" % (pid, fd))
            except OSError:
                continue
            if t.startswith("socket:["):
                inodes.add(t[8:-1])
    except OSError:
        return set()
    found = set()
    for name in ("tcp", "tcp6"):
        try:
            with open("/proc/net/" + name) as f:
                rows = f.readlines()[1:]
        except OSError:
            continue
        for row in rows:
            w = row.split()
            if w[3] != "0A" or w[9] not in inodes:
                continue
            a, p = w[1].split(":")
            a = socket.inet_ntoa(struct.pack("=I", int(a, 16))) if len(a) == 8 else a
            found.add((a, int(p, 16)))
    return found


def free(port):
    for a in (LOOPBACK, ANY):
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        try:
            s.bind((a, port))
        except OSError:
            return False
        finally:
            s.close()
    return True


def gen_program(rng):
    http = rng.random() < 0.6
    case = {"http": http, "uci": rng.random() < 0.9, "web": http and rng.random() < 0.9,
            "dir": rng.choice([0, 0, 1, 1, 2, 3, 4, 5]), "spell": [rng.randrange(4) for _ in range(3)],
            "order": rng.randrange(6), "high": rng.random() < 0.1, "err": rng.choice([0, 0, 1, 2]),
            "log": rng.choice([None, "off", "info", "trace", "pica=debug,hyper=warn", "==,"]), "bad": None}
    if rng.random() < 0.3:
        case["bad"] = rng.choice(["number", "range", "negative", "empty", "missing", "unknown", "positional", "equal",
                                  "twice", "busy-uci", "busy-web", "float", "hex", "no-web"])
    return case


def gen(rng):
    return {"programs": [gen_program(rng) for _ in range(rng.choice([1, 1, 2, 3]))]}


class Started:
    pass


def applies(c):
    b = c["bad"]
    if b in ("equal", "busy-web"):
        return c["http"]
    if b == "no-web":
        return not c["http"]
    return b is not None


def start(c, ctx, top, n):
    """Run a program with the options of the case."""
    t = Started()
    t.case, t.bad = c, c["bad"] if applies(c) else None
    ports = []
    while len(ports) < 2:
        ctx.state["cli-port"] = k = ctx.state.get("cli-port", 0) + 1
        if c["high"]:
            p = 65535 - (k * 8 + ctx.worker) % 400
        else:
            p = 1100 + ctx.worker * 700 + (k + os.getpid() * 7) % 700
        if free(p):
            ports.append(p)
    t.uci, t.web = ports
    t.taken = []
    if not c["uci"]:
        t.uci = 7000
    if not c["web"]:
        t.web = 3000
    t.cwd = os.path.join(top, "work%d" % n)
    os.makedirs(t.cwd)
    t.dir = None
    given = None
    if c["dir"] == 1:
        given = t.dir = os.path.join(top, "traces %d" % n)
        os.makedirs(t.dir)
    elif c["dir"] == 2:
        given, t.dir = "deep/er", os.path.join(t.cwd, "deep/er")
        os.makedirs(t.dir)
    elif c["dir"] == 3:
        given, t.dir = ".", t.cwd
    elif c["dir"] == 4:
        given = "absent/really"
    elif c["dir"] == 5:
        given = "-odd=name"
        t.dir = os.path.join(t.cwd, given)
        os.makedirs(t.dir)
    options = []
    if c["uci"] or t.bad in ("number", "range", "negative", "empty", "float", "hex", "equal", "busy-uci"):
        options.append(["uci-port", str(t.uci)])
    if c["web"] or t.bad in ("equal", "busy-web"):
        options.append(["web-port", str(t.web)])
    if given is not None:
        options.append(["pcapng-dir", given])
    values = {"number": "port", "range": "65536", "negative": "-1", "empty": "", "float": "7.5", "hex": "0x1b58"}
    if t.bad in values:
        for o in options:
            if o[0] == "uci-port":
                o[1] = values[t.bad]
    if t.bad == "equal":
        for o in options:
            if o[0] == "web-port":
                o[1] = str(t.uci)
    if t.bad in ("busy-uci", "busy-web"):
        s = socket.socket()
        t.taken.append(s)
        try:
            s.bind((ANY, t.uci if t.bad == "busy-uci" else t.web))
        except OSError:
            raise Skip("the port is taken")
        s.listen()
    words = []
    order = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)][c["order"]]
    for i in order:
        if i < len(options):
            name, value = options[i]
            k = c["spell"][i]
            if value.startswith("-") and k in (0, 2):
                k += 1      # a value of its own must not look like an option
            words.append([["--" + name, value], ["--%s=%s" % (name, value)], ["-" + name[0], value],
                          ["-" + name[0] + (value if value else "=")]][k])
    words = [w for o in words for w in o]
    if t.bad == "missing":
        words += ["--uci-port"] if not c["uci"] else ["--pcapng-dir"] if given is None else ["-u"]
    elif t.bad == "unknown":
        words += ["--udp-port", "7001"]
    elif t.bad == "positional":
        words += ["7001"]
    elif t.bad == "no-web":
        words += ["--web-port", "3001"]
    elif t.bad == "twice":
        words += ["-u", str(t.uci), "--uci-port", str(t.uci)]
    env = dict(os.environ, RUST_BACKTRACE="0")
    env.pop("RUST_LOG", None)
    if c["log"] == "==," and c["err"]:
        pass    # the logger itself panics when its warning cannot be written
    elif c["log"] is not None:
        env["RUST_LOG"] = c["log"]
    if c["err"] == 2:
        r, w = os.pipe()
        os.close(r)
    else:
        w = os.open("/dev/full" if c["err"] == 1 else "/dev/null", os.O_WRONLY)
    try:
        t.p = subprocess.Popen([ctx.settings.exe["pica-http" if c["http"] else "pica"]] + words, cwd=t.cwd, env=env,
                               stdin=subprocess.DEVNULL, stdout=w, stderr=w)
    finally:
        os.close(w)
    t.words = " ".join(("pica-http" if c["http"] else "pica", *map(repr, words)))
    t.want = {(LOOPBACK, t.uci)} | ({(ANY, t.web)} if c["http"] else set())
    return t


def settle(t):
    """The program runs as told, or refuses to."""
    end = time.time() + TIMEOUT
    if t.bad:
        while t.p.poll() is None:
            if time.time() > end:
                raise Violation("%s: the program keeps running (%s)" % (t.words, t.bad))
            time.sleep(0.002)
        if t.p.returncode == 0:
            raise Violation("%s: the program ends with status 0 (%s)" % (t.words, t.bad))
        return
    while True:
        got = sockets_of(t.p.pid)
        if len(got) >= len(t.want) or t.p.poll() is not None:
            break
        if time.time() > end:
            raise Violation("%s: listens on %s, not on %s" % (t.words, sorted(got), sorted(t.want)))
        time.sleep(0.003)
    if t.p.poll() is not None:
        raise Violation("%s: the program ends with status %s" % (t.words, t.p.returncode))
    if got != t.want:
        raise Violation("%s: listens on %s, not on %s" % (t.words, sorted(got), sorted(t.want)))


def use(t, clients):
    """A client is served, appears in the scene and is traced."""
    t.clients = []
    for _ in range(clients):
        u = Uci(t.uci)
        t.clients.append(u)
        if u.cmd(0, 0, b"\0") != b"\0":
            raise Skip("a device cannot be reset")
        u.cmd(1, 5)


def check(t):
    if t.case["http"]:
        h = Http(t.web)
        try:
            end = time.time() + TIMEOUT
            while len(h.state()) != len(t.clients):
                if time.time() > end:
                    raise Violation("%s: %d clients are connected, the scene is %s" % (t.words, len(t.clients), h.state()))
                time.sleep(0.002)
        finally:
            h.close()
    files = sorted(os.path.relpath(os.path.join(d, f), t.cwd) for d, _, fs in os.walk(t.cwd) for f in fs)
    names = ["device-%d.pcapng" % i for i in range(len(t.clients))]
    if t.dir is None:
        if files:
            raise Violation("%s: leaves %s in the current directory" % (t.words, files))
    else:
        if sorted(os.listdir(t.dir)) != sorted(names):
            raise Violation("%s: the traces are %s, not %s" % (t.words, sorted(os.listdir(t.dir)), names))
        if t.dir != t.cwd and any(not t.dir.startswith(t.cwd) or f.split("/")[-1] not in names for f in files):
            raise Violation("%s: leaves %s in the current directory" % (t.words, files))
        for n in names:
            end = time.time() + TIMEOUT
            while True:
                with open(os.path.join(t.dir, n), "rb") as f:
                    d = f.read()
                # the packets of the client are in the trace
                if d[:4] == b"\x0a\x0d\x0d\x0a" and b"\x20\0\0\1\0" in d and b"\x41\5\0" in d:
                    break
                if time.time() > end:
                    raise Violation("%s: the trace %s has %d bytes without the packets" % (t.words, n, len(d)))
                time.sleep(0.003)


def run(case, ctx):
    top = tempfile.mkdtemp(prefix="pica-verif-cli-")
    started = []
    lock = None
    try:
        defaults = [c for c in case["programs"] if not c["uci"] or c["http"] and not c["web"]]
        if defaults:
            # the default ports are used by one case at a time
            lock = open(os.path.join(tempfile.gettempdir(), "pica-verif-default-ports"), "w")
            fcntl.flock(lock, fcntl.LOCK_EX)
        used = set()
        for i, c in enumerate(case["programs"]):
            mine = set()
            if not c["uci"]:
                mine.add(7000)
            if c["http"] and not c["web"]:
                mine.add(3000)
            if mine & used or any(not free(p) for p in mine):
                continue
            used |= mine
            started.append(start(c, ctx, top, i))
        for t in started:
            settle(t)
        running = [t for t in started if not t.bad]
        for i, t in enumerate(running):
            use(t, 1 + i)
        for t in running:
            check(t)
            if t.p.poll() is not None:
                raise Violation("%s: the program ends with status %s" % (t.words, t.p.returncode))
        ctx.add("programs", len(started))
        ctx.add("refusals", len(started) - len(running))
        ctx.add("with default ports", len(used))
        return bool(running) and any(len(t.words.split()) > 2 for t in running)
    except OSError as e:
        raise Violation("the program is not reachable: %s" % e)
    finally:
        for t in started:
            t.p.kill()
            t.p.wait()
            for s in t.taken + getattr(t, "clients", []):
                s.close()
        if lock:
            lock.close()
        shutil.rmtree(top, ignore_errors=True)


def shrink(case):
    for x in drop(case["programs"]):
        yield {"programs": x}
    for i, c in enumerate(case["programs"]):
        for k, v in (("bad", None), ("log", None), ("dir", 0), ("dir", 1), ("err", 0), ("high", False), ("order", 0),
                     ("spell", [0, 0, 0]), ("http", False), ("uci", True), ("web", c["http"])):
            if c[k] != v:
                yield {"programs": case["programs"][:i] + [dict(c, **{k: v})] + case["programs"][i + 1:]}


def parts(pid):
    return [Part("options", "1 to 3 programs at a time with random options, spellings, orders, directories and mistakes; "
                 "non-trivial: a running program with options", (1500, 30000), (60, 900), gen, run, shrink=shrink)]

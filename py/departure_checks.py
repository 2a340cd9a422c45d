"""C32: whoever leaves leaves nothing behind in the running programs."""
import os, shutil, socket, struct, tempfile, time
from common import Part, Skip, Violation, drop, smaller_values
from net import TIMEOUT, Http, Program, Subscriber, Uci, position_body, rst_close
from http_checks import setup_session

HZ = os.sysconf("SC_CLK_TCK")
PAGE = os.sysconf("SC_PAGE_SIZE")


def cpu(pid):
    with open("/proc/%d/stat" % pid) as f:
        w = f.read().rsplit(")", 1)[1].split()
    return int(w[11]) + int(w[12])


def files(pid):
    d = "/proc/%d/fd" % pid
    out = []
    for x in os.listdir(d):
        try:
            out.append(os.readlink(d + "/" + x))
        except OSError:
            pass
    return out


def memory(pid):
    with open("/proc/%d/statm" % pid) as f:
        w = f.read().split()
    return int(w[1]) * PAGE


def idle(pid, what):
    """The program uses (nearly) no processor time, at some point."""
    end = time.time() + TIMEOUT
    used = []
    while True:
        a = cpu(pid)
        time.sleep(0.15)
        used.append(cpu(pid) - a)
        if used[-1] <= 1:
            return
        if time.time() > end:
            raise Violation("%s: the program is still busy, %s of %d ticks in the last intervals"
                            % (what, used[-8:], HZ * 0.15))


def released(pid, want, what):
    end = time.time() + TIMEOUT
    while True:
        got = files(pid)
        if len(got) <= want:
            return
        if time.time() > end:
            raise Violation("%s: %d files are open instead of %d: %s" % (what, len(got), want, sorted(got)[-6:]))
        time.sleep(0.005)


def gen_client(rng):
    return {"sessions": rng.choice([0, 1, 1, 2, 2, 5, 12]), "ms": rng.choice([1, 1, 3, 20, 5000]), "start": rng.random() < 0.8,
            "data": rng.choice([0, 0, 1, 10]), "backlog": rng.choice([0, 0, 0, 100, 3000]), "how": rng.randrange(6),
            "stop": rng.random() < 0.15}


def gen(rng):
    http = rng.random() < 0.6
    rounds = []
    for _ in range(rng.randint(1, 3)):
        rounds.append({"clients": [gen_client(rng) for _ in range(rng.choice([1, 2, 4, 8]))],
                       "peers": rng.random() < 0.4,
                       "subs": rng.choice([0, 0, 1, 3]), "links": rng.choice([0, 0, 2]),
                       "anchors": rng.choice([0, 0, 1, 5, 20]), "pause": rng.choice([0, 5, 50]),
                       "last": rng.random() < 0.5})
    return {"http": http, "trace": rng.choice([0, 0, 1]), "rounds": rounds}


def build(prog, c, i, peers, keep):
    """A client with its sessions; appended to keep."""
    u = Uci(prog.uci)
    keep.append(u)
    if u.cmd(0, 0, b"\0") != b"\0":
        raise Skip("a device cannot be reset")
    for k in range(c["sessions"]):
        controller = i % 2 == 0
        mac = bytes([0xc0 + i, k])
        dst = [bytes([0xc0 + (i ^ 1), k])] if peers else [b"\xee\xee"]
        if c["start"]:
            setup_session(u, k + 1, controller, mac, dst, c["ms"], controller)
        elif u.cmd(1, 0, struct.pack("<IB", k + 1, 0)) != b"\0":
            raise Skip("a session is refused")
        for n in range(c["data"]):
            p = struct.pack("<IQHH", k + 1, 1, n, 900) + bytes(900)
            u.send(bytes([1, 0]) + struct.pack("<H", len(p)) + p)
    if c["stop"]:
        for k in range(c["sessions"]):
            u.cmd(2, 1, struct.pack("<I", k + 1))
    for _ in range(c["backlog"]):
        u.send(b"\x20\3\0\0")
    return u


def leave(u, how):
    if how == 1:
        u.reset()
        return
    try:
        if how == 2:
            u.s.shutdown(socket.SHUT_WR)
        elif how == 3:
            u.s.sendall(b"\x21\3\0\x20abc")
        elif how == 4:
            u.s.sendall(b"\x21\3")
            u.s.shutdown(socket.SHUT_WR)
        elif how == 5:
            u.cmd(0, 0, b"\0")
    except (OSError, Violation):
        pass
    u.close()


def round_(prog, r, http, n):
    pid = prog.p.pid
    keep, subs, links = [], [], []
    try:
        if http:
            for k in range(r["subs"]):
                subs.append(Subscriber(prog.web))
            for k in range(r["links"]):
                h = Http(prog.web)
                h.s = socket.create_connection(("127.0.0.1", prog.web), TIMEOUT)
                h.s.sendall(b"POST /create-anchor/FE:%02X HTTP/1.1\r\nContent-Length: 100\r\n" % k)
                links.append(h)
            h = Http(prog.web)
            for k in range(r["anchors"]):
                h.request("/create-anchor/F0:%02X" % k, position_body([k, n, 3, 0, 0, 0]))
            h.close()
        for i, c in enumerate(r["clients"]):
            build(prog, c, i, r["peers"], keep)
        time.sleep(r["pause"] / 1000)
        if not prog.alive():
            raise Violation("the program ended: %s" % prog.stderr())
        order = list(zip(keep, r["clients"]))
        for u, c in reversed(order) if r["last"] else order:
            leave(u, c["how"])
    finally:
        for x in keep + subs + links:
            x.close()
    if http:
        h = Http(prog.web)
        for k in range(r["anchors"]):
            h.request("/destroy-anchor/F0:%02X" % k)
        # an event shows that the subscribers have left
        for k in range(2):
            h.request("/create-anchor/FD:00")
            h.request("/destroy-anchor/FD:00")
        end = time.time() + TIMEOUT
        while h.state():
            if time.time() > end:
                raise Violation("after everybody left, the scene is %s" % h.state())
            time.sleep(0.005)
        h.close()
    return len(keep)


def run(case, ctx):
    top = tempfile.mkdtemp(prefix="pica-verif-leave-") if case["trace"] else None
    prog = Program(ctx, ctx.settings.exe["pica-http" if case["http"] else "pica"], http=case["http"],
                   args=["--pcapng-dir", top] if top else [])
    try:
        # whatever is opened once
        round_(prog, {"clients": [], "peers": False, "subs": 1, "links": 0, "anchors": 1, "pause": 0, "last": False},
               case["http"], 0)
        u = Uci(prog.uci)
        u.cmd(0, 0, b"\0")
        u.close()
        time.sleep(0.05)
        idle(prog.p.pid, "after the first client")
        want = len(files(prog.p.pid))
        if top and any(top in x for x in files(prog.p.pid)):
            released(prog.p.pid, want - 1, "after the first client")
            want = len(files(prog.p.pid))
        n = 0
        for i, r in enumerate(case["rounds"]):
            n += round_(prog, r, case["http"], i)
            released(prog.p.pid, want, "after the clients of round %d left" % i)
            idle(prog.p.pid, "after the clients of round %d left" % i)
        ctx.add("clients", n)
        return n > 1 and any(c["sessions"] and c["start"] for r in case["rounds"] for c in r["clients"])
    except OSError as e:
        raise Violation("the program is not reachable: %s %s" % (e, prog.stderr()))
    except Violation as e:
        raise Violation("%s %s" % (e, "" if prog.alive() else prog.stderr()))
    finally:
        prog.stop()
        if top:
            shutil.rmtree(top, ignore_errors=True)


def shrink(case):
    for x in drop(case["rounds"]):
        yield dict(case, rounds=x)
    for i, r in enumerate(case["rounds"]):
        for x in drop(r["clients"]):
            yield dict(case, rounds=case["rounds"][:i] + [dict(r, clients=x)] + case["rounds"][i + 1:])
    for k, v in (("http", False), ("trace", 0)):
        if case[k] != v:
            yield dict(case, **{k: v})
    yield from smaller_values(case)


# ------------------------------------------------------------------ memory

STEPS = ("sessions", "connections", "data", "resets", "anchors", "subscribers", "multicast", "requests", "dropped")


def gen_memory(rng):
    http = rng.random() < 0.6
    kinds = [k for k in STEPS if http or k not in ("anchors", "subscribers", "requests")]
    return {"http": http, "steps": [[rng.choice(kinds), rng.randrange(100)] for _ in range(rng.randint(1, 4))]}


def batch(prog, case, main, h):
    """About the same again each time; leaves everything as it was."""
    for kind, k in case["steps"]:
        if kind == "sessions":
            for _ in range(3):
                m = b""
                for i in range(200):
                    s = struct.pack("<I", i + 1)
                    m += b"\x21\0\0\5" + s + b"\0" + b"\x21\1\0\4" + s
                main.send(m)
                answers(main, 400)
        elif kind == "connections":
            us = [Uci(prog.uci) for _ in range(40)]
            for u in us:
                u.send(b"\x20\0\0\1\0" + b"".join(b"\x21\0\0\5" + struct.pack("<I", i) + b"\0" for i in range(20)))
            for u in us:
                answers(u, 21)
                leave(u, (k + len(u.packets)) % 6 if k % 2 else 0)
        elif kind in ("data", "dropped"):
            u = main if kind == "data" else Uci(prog.uci)
            if u is not main:
                u.cmd(0, 0, b"\0")
            u.cmd(1, 0, struct.pack("<IB", 9, 1))
            tl = [tlv(0, b"\1"), tlv(0x11, b"\1"), tlv(1, b"\2"), tlv(3, b"\1"), tlv(0x22, b"\1"), tlv(6, b"\1\2"),
                  tlv(9, struct.pack("<I", 100000))]
            if u.cmd(1, 3, struct.pack("<IB", 9, len(tl)) + b"".join(tl))[:1] != b"\0":
                raise Skip("a session cannot be configured")
            p = struct.pack("<IQHH", 9, 1, 1, 1000) + bytes(1000)
            u.send((bytes([1, 0]) + struct.pack("<H", len(p)) + p) * 600)
            if u is main:
                u.cmd(1, 1, struct.pack("<I", 9))
            else:
                u.cmd(1, 5)
                leave(u, k % 5)
        elif kind == "resets":
            for _ in range(5):
                main.send(b"".join(b"\x21\0\0\5" + struct.pack("<I", i) + b"\0" for i in range(100)) + b"\x20\0\0\1\0")
                answers(main, 101)
        elif kind == "multicast":
            main.cmd(1, 0, struct.pack("<IB", 8, 0))
            tl = [tlv(0, b"\1"), tlv(0x11, b"\1"), tlv(1, b"\2"), tlv(3, b"\1"), tlv(0x22, b"\1"), tlv(6, b"\1\2"),
                  tlv(5, b"\1"), tlv(7, b"\3\3"), tlv(9, struct.pack("<I", 100000))]
            if main.cmd(1, 3, struct.pack("<IB", 8, len(tl)) + b"".join(tl))[:1] != b"\0":
                raise Skip("a session cannot be configured")
            if main.cmd(2, 0, struct.pack("<I", 8)) != b"\0":
                raise Skip("a session cannot be started")
            for i in range(200):
                for action in (0, 1):
                    main.send(b"\x21\7\0\x0c" + struct.pack("<IBB", 8, action, 1) + bytes([5, i]) + b"\0\0\0\0")
            answers(main, 400)
            main.cmd(1, 1, struct.pack("<I", 8))
        elif kind == "anchors":
            for i in range(150):
                h.send("/create-anchor/F1:%02X" % i)
                h.send("/destroy-anchor/F1:%02X" % i)
            for i in range(300):
                if h.response()[0] != 200:
                    raise Skip("an anchor is refused")
        elif kind == "subscribers":
            subs = [Subscriber(prog.web) for _ in range(30)]
            for i in range(10):
                h.request("/create-anchor/F1:%02X" % i)
            for i in range(10):
                h.request("/destroy-anchor/F1:%02X" % i)
            for s in subs:
                s.close()
            h.request("/create-anchor/F1:00")
            h.request("/destroy-anchor/F1:00")
        elif kind == "requests":
            for i in range(100):
                h.send(["/get-state", "/set-position/F1:%02X" % i, "/nothing", "/openapi"][(i + k) % 4])
            for i in range(100):
                h.response()
        main.packets.clear()
        main.messages.clear()
        main.sent.clear()


def tlv(t, v):
    return bytes([t, len(v)]) + v


def answers(u, n):
    end = time.time() + TIMEOUT
    while True:
        for m in u.messages:
            n -= m[0] >> 5 == 2
        u.messages.clear()
        if n <= 0:
            return
        if u.eof or time.time() > end:
            raise Skip("commands are not answered")
        u.pump(0.5)


# One malloc arena: on the unchanged tree, 56 batches grow by 400 KiB at the most.
WARM, MEASURED, ALLOWED = 8, 16, 224 << 10


def run_memory(case, ctx):
    prog = Program(ctx, ctx.settings.exe["pica-http" if case["http"] else "pica"], http=case["http"],
                   env={"MALLOC_ARENA_MAX": "1"})
    try:
        main = Uci(prog.uci)
        main.cmd(0, 0, b"\0")
        h = Http(prog.web) if case["http"] else None
        used = []

        def work(n):
            for i in range(n):
                batch(prog, case, main, h)
                if main.cmd(1, 5) != b"\0\0":
                    raise Skip("sessions remain")
                used.append(memory(prog.p.pid))

        work(WARM + MEASURED)
        ctx.add("KiB grown", (used[-1] - used[WARM - 1]) >> 10)
        # Fragmentation slows down, a leak goes on at the same rate.
        n = MEASURED
        while used[-1] - used[-1 - n] > ALLOWED * n // MEASURED:
            if n == 4 * MEASURED:
                raise Violation("the memory of the program grows although everybody leaves (KiB): %s" % [x >> 10 for x in used])
            n *= 2
            work(n)
        main.close()
        return True
    except OSError as e:
        raise Violation("the program is not reachable: %s %s" % (e, prog.stderr()))
    except Violation as e:
        raise Violation("%s %s" % (e, "" if prog.alive() else prog.stderr()))
    finally:
        prog.stop()


def shrink_memory(case):
    for x in drop(case["steps"]):
        if x:
            yield dict(case, steps=x)


def parts(pid):
    return [Part("departures", "clients in all states, subscribers and half made requests that leave in different ways; "
                 "afterwards the program has as many open files as before and uses no processor time; non-trivial: more "
                 "than one client, one with an active session", (500, 10000), (60, 900), gen, run, shrink=shrink),
            Part("memory", "the same work again and again by clients that come and go; the resident memory does not keep "
                 "growing; non-trivial: all", (60, 1000), (40, 600), gen_memory, run_memory, shrink=shrink_memory, confirm=1)]

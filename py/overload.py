"""pica-http under overload (a part of C21): floods of commands, more
connections than the program may open files."""
import resource, socket, threading, time
from common import Part, Skip, Violation, drop, smaller_values
from net import TIMEOUT, Http, Program, Uci, position_body, rst_close
from http_checks import ZERO, position, same_position

COMMANDS = (b"\x20\2\0\0", b"\x21\5\0\0", b"\x20\3\0\0", b"\x21\6\0\4\1\0\0\0", b"\x22\0\0\4\1\0\0\0")


def gen(rng):
    files = rng.choice([0, rng.randint(32, 70)])
    ops = []
    for _ in range(rng.randint(3, 40)):
        k = rng.randrange(100)
        if k < 15:
            ops.append(["uci", rng.randint(1, 10 if k < 10 else 90), rng.randrange(3)])
        elif k < 22:
            ops.append(["web", rng.randint(1, 10 if k < 20 else 60), rng.randrange(3)])
        elif k < 30:
            ops.append(["flood", rng.choice([100, 1000, 10000]), rng.randrange(30)])
        elif k < 38:
            ops.append(["drop", rng.randint(1, 100), rng.randrange(2)])
        elif k < 60:
            ops.append(["create", rng.randrange(6), position(rng)])
        elif k < 73:
            ops.append(["destroy", rng.randrange(6), list(ZERO)])
        elif k < 86:
            ops.append(["pos", rng.randrange(6), position(rng)])
        elif k < 94:
            ops.append(["get", 0, 0])
        else:
            ops.append(["cmd", 0, 0])
    return {"files": files, "floods": rng.choice([0, 1, 4, 12]), "amount": rng.choice([500, 3000, 20000]), "ops": ops}


def run(case, ctx):
    limit = case["files"]
    if 0 < limit < 24:
        raise Skip("not enough descriptors to start")

    def limited():
        if limit:
            resource.setrlimit(resource.RLIMIT_NOFILE, (limit, limit))
    prog = Program(ctx, ctx.settings.exe["pica-http"], http=True, before=limited)
    h = Http(prog.web)
    open_, threads, floods = [], [], []
    anchors = {}
    try:
        state = lambda: [(d["mac_address"], d["category"], [d.get(k) for k in ("x", "y", "z", "yaw", "pitch", "roll")])
                         for d in h.state()]

        def check_anchors(what):
            st = state()
            got = {a: p for a, c, p in st if c == "Anchor"}
            if len({a for a, _, _ in st}) != len(st):
                raise Violation("get-state lists an address twice %s: %s" % (what, st))
            if set(got) != set(anchors) or any(not same_position(got[a], anchors[a]) for a in anchors):
                raise Violation("the anchors are %s, get-state says %s %s" % (anchors, got, what))
            return st
        main = Uci(prog.uci)
        open_.append(main)
        if main.cmd(0, 0, b"\0") != b"\0":
            raise Skip("a device cannot be reset")
        check_anchors("at the beginning")

        def pour(s, n, k):
            try:
                s.settimeout(TIMEOUT)
                one = COMMANDS[k % len(COMMANDS)] * 200
                for _ in range(max(1, n // 200)):
                    s.sendall(one)
            except OSError:
                pass

        def flood(n, k):
            u = Uci(prog.uci)
            floods.append(u)
            t = threading.Thread(target=pour, args=(u.s, n, k), daemon=True)
            t.start()
            threads.append(t)
        for i in range(case["floods"]):
            flood(case["amount"], i)
        connections = len(floods)
        more = []
        for op, a, b in case["ops"]:
            name = "E0:%02X" % a if isinstance(a, int) else ""
            if op in ("uci", "web"):
                for _ in range(a):
                    try:
                        s = socket.create_connection(("127.0.0.1", prog.uci if op == "uci" else prog.web), TIMEOUT)
                    except OSError as e:
                        raise Violation("a connection is refused: %s" % e)
                    connections += 1
                    more.append(s)
                    try:
                        if b == 1:
                            s.sendall(b"\x20\0\0\1\0" if op == "uci" else b"GET /get-state HTTP/1.1\r\nHost: x\r\n\r\n")
                        elif b == 2:
                            s.sendall(b"\x20\0" if op == "uci" else b"POST /create-anchor/E0:77 HTTP/1.1\r\nCont")
                    except OSError:
                        pass
            elif op == "flood" and (not limit or connections < limit // 2):
                flood(a, b)
                connections += 1
            elif op == "drop":
                for s in more[:a]:
                    rst_close(s) if b else s.close()
                del more[:a]
            elif op == "create":
                want = 409 if name in anchors else 200
                got = h.request("/create-anchor/" + name, position_body(b))[0]
                if got != want:
                    raise Violation("create-anchor answers %d instead of %d" % (got, want))
                anchors.setdefault(name, b)
            elif op == "destroy":
                want = 200 if name in anchors else 404
                got = h.request("/destroy-anchor/" + name)[0]
                if got != want:
                    raise Violation("destroy-anchor answers %d instead of %d" % (got, want))
                anchors.pop(name, None)
            elif op == "pos":
                want = 200 if name in anchors else 404
                got = h.request("/set-position/" + name, position_body(b))[0]
                if got != want:
                    raise Violation("set-position answers %d instead of %d" % (got, want))
                if name in anchors:
                    anchors[name] = b
            elif op == "get":
                check_anchors("under load")
            elif op == "cmd":
                if main.cmd(1, 5) != b"\0\0":
                    raise Skip("the session count of a client")
        ctx.add("connections", connections)
        if not prog.alive():
            raise Violation("pica-http ended: %s" % prog.stderr())
        for s in more:
            s.close()
        for t in threads:
            t.join(TIMEOUT)
        for u in floods:
            u.close()
        end = time.time() + 2 * TIMEOUT
        while True:
            clients = [a for a, c, _ in check_anchors("at the end") if c == "Uci"]
            if len(clients) == 1:
                break
            if time.time() > end:
                raise Violation("one client is connected, get-state has %s" % clients)
            time.sleep(0.005)
        if main.cmd(1, 5) != b"\0\0":
            raise Skip("the session count of a client")
        h2 = Http(prog.web)
        open_.append(h2)
        if h2.request("/get-state")[0] != 200:
            raise Violation("a new HTTP connection is not served")
        u = Uci(prog.uci)
        open_.append(u)
        u.cmd(0, 0, b"\0")
        while sum(1 for _, c, _ in check_anchors("with a new client") if c == "Uci") != 2:
            if time.time() > end:
                raise Violation("a client does not appear in get-state")
            time.sleep(0.002)
        return connections > 10 or case["amount"] >= 3000
    except OSError as e:
        raise Violation("pica-http is broken off: %s %s" % (e, prog.stderr()))
    except Violation as e:
        raise Violation("%s %s" % (e, "" if prog.alive() else prog.stderr()))
    finally:
        prog.stop()
        for x in open_ + floods + [h]:
            x.close()
        for s in more if "more" in locals() else []:
            s.close()


def shrink(case):
    for x in drop(case["ops"]):
        yield dict(case, ops=x)
    yield from smaller_values(case)


def part():
    return Part("overload", "more connections than open files, floods of commands, clients that come and go while "
                "anchors are created, moved and destroyed; non-trivial: more than 10 connections or a flood of 3000 "
                "commands", (160, 4000), (50, 900), gen, run, shrink=shrink, confirm=3)

"""Conflicting requests at the same time (a part of C21 and C22): whatever the
interleaving, the answers, the scene and the events are those of some order."""
import socket, time
from collections import Counter
from common import Part, Skip, Violation, drop, smaller_values
from net import TIMEOUT, Http, Program, Subscriber, Uci, check_direction, position_body, rst_close
from http_checks import ZERO, position, same_position

CAPS = bytes([0x20, 0x03, 0, 0])


def explain(ops, before, after):
    """Can the operations (kind, position, status or None if it may also not
    have been executed) be ordered such that they lead from before to after?"""
    n = len(ops)
    seen = set()

    def key(s):
        return None if s is None else (s[0], tuple(s[1]))

    def go(done, s):
        if (done, key(s)) in seen:
            return False
        seen.add((done, key(s)))
        if all(done >> i & 1 or ops[i][2] is None for i in range(n)):
            if (s is None) == (after is None) and (s is None or s[0] == after[0] and same_position(after[1], s[1])):
                return True
        for i, (kind, pos, status) in enumerate(ops):
            if done >> i & 1:
                continue
            if kind == "create":
                code, t = (409, s) if s else (200, ("Anchor", pos))
            elif kind == "destroy":
                code, t = (200, None) if s and s[0] == "Anchor" else (404, s)
            elif kind == "pos":
                code, t = (200, (s[0], pos)) if s else (404, s)
            elif kind == "leave":
                code, t = (200, None) if s and s[0] == "Uci" else (0, s)
            else:
                code, t = (200, ("Uci", list(ZERO))) if s is None else (0, s)
            if status in (None, code) and go(done | 1 << i, t):
                return True
        return False
    return go(0, before)


class Arena:
    def __init__(self, ctx, events):
        self.ctx, self.events = ctx, events
        self.prog = Program(ctx, ctx.settings.exe["pica-http"], http=True)
        self.http = Http(self.prog.web)
        self.busy = None
        self.clients = {}       # address -> Uci
        self.gone = []
        self.counter = 0
        self.sub = Subscriber(self.prog.web) if events else None
        self.replay = {}        # (category, address) -> position
        self.due = None
        self.cursor = 0
        self.tally = Counter()  # events by name and address

    def close(self):
        if self.sub:
            self.sub.close()
        for u in list(self.clients.values()) + self.gone + ([self.busy] if self.busy else []):
            u.close()
        self.http.close()
        self.prog.stop()

    def fail(self, event, text):
        if event == self.events:
            raise Violation(text)
        raise Skip(text)

    def state(self):
        out = {}
        for d in self.http.state():
            a = d["mac_address"]
            v = (d["category"], [d.get(k) for k in ("x", "y", "z", "yaw", "pitch", "roll")])
            if a in out:
                return None     # two at the same address
            out[a] = v
        return out

    def connect(self):
        before = self.state() or {}
        u = Uci(self.prog.uci)
        end = time.time() + TIMEOUT
        while True:
            new = [a for a in (self.state() or {}) if a not in before]
            if new:
                break
            if time.time() > end:
                raise Skip("a client does not appear")
            time.sleep(0.001)
        self.counter = int(new[0].replace(":", ""), 16) + 1
        return u, new[0]

    # ------------------------------------------------------------- events

    def consume(self):
        ev = self.sub.events
        while self.cursor < len(ev):
            name, d = ev[self.cursor]
            self.cursor += 1
            if name == "neighbor-updated":
                a, b = d.get("source_mac_address"), d.get("destination_mac_address")
                k = (d.get("source_category"), a, d.get("destination_category"), b)
                if not self.due or self.due[k] < 1:
                    raise Violation("unexpected event neighbor-updated %s" % d)
                bad = check_direction(self.replay[k[:2]], self.replay[k[2:]], d["distance"], d["azimuth"],
                                      d["elevation"])
                if bad:
                    raise Violation("neighbor-updated %s: %s" % (d, bad))
                self.due[k] -= 1
                if not self.due[k]:
                    del self.due[k]
                continue
            if self.due:
                raise Violation("%s %s arrives before the neighbor updates %s" % (name, d, sorted(self.due)))
            k = (d.get("category"), d.get("mac_address"))
            self.tally[name, k[0], k[1]] += 1
            pos = [d.get(x) for x in ("x", "y", "z", "yaw", "pitch", "roll")]
            if name == "device-added":
                if any(a == k[1] for _, a in self.replay):
                    raise Violation("%s %s while the scene has a device of that address" % (name, d))
                self.replay[k] = pos
            elif k not in self.replay:
                raise Violation("%s %s, which the scene does not have" % (name, d))
            elif name == "device-removed":
                del self.replay[k]
            elif name == "device-updated":
                self.replay[k] = pos
                self.due = Counter()
                for o in self.replay:
                    if o != k:
                        self.due[k + o] += 1
                        self.due[o + k] += 1
            else:
                raise Violation("unexpected event %s" % name)

    # ------------------------------------------------------------- a round

    def round(self, r, number):
        fresh = ["%02X:%02X" % (0xA0 + number, i) for i in range(2)]
        fresh.append("%02X:%02X" % (self.counter >> 8 & 255, self.counter & 255))
        present = list(self.clients)

        def address(i):
            if i < 3 or not present:
                return fresh[i % 3]
            return present[(i - 3) % len(present)]
        if r["pre"]:
            for i in range(3):
                if r["pre"] >> i & 1 and self.http.request("/create-anchor/" + fresh[i])[0] == 200:
                    self.counter += 1
        before = self.state()
        if before is None:
            self.fail(False, "get-state lists an address twice")
        plans, links = [], []
        joins, leaving = 0, []
        for kind, i, pos in r["ops"]:
            a = address(i)
            if kind == "join":
                joins += 1
            elif kind == "leave":
                if a in self.clients and a not in leaving:
                    leaving.append(a)
            else:
                h = Http(self.prog.web)
                h.s = socket.create_connection(("127.0.0.1", self.prog.web), TIMEOUT)
                h.s.settimeout(TIMEOUT)
                h.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                links.append(h)
            plans.append((kind, a, pos))
        if r["busy"]:
            self.busy.send(CAPS * r["busy"])
            time.sleep(0.001)
        new, left, answers = [], set(), []
        hs = iter(links)
        for kind, a, pos in plans:
            if kind == "join":
                new.append(Uci(self.prog.uci))
            elif kind == "leave":
                if a in leaving and a not in left:
                    left.add(a)
                    u = self.clients.pop(a)
                    u.close()
            else:
                h = next(hs)
                k = kind.replace("lost-", "")
                path = {"create": "/create-anchor/", "destroy": "/destroy-anchor/", "pos": "/set-position/"}[k]
                h.send(path + a, b"" if k == "destroy" else position_body(pos))
                answers.append((k, kind != k, a, pos, h))
        ops = {}
        if any(lost for _, lost, *_ in answers):
            time.sleep(r["wait"] / 10000)
            for k, lost, a, pos, h in answers:
                if lost:
                    rst_close(h.s) if r["wait"] % 2 else h.s.close()
                    ops.setdefault(a, []).append((k, pos, None))
        for k, lost, a, pos, h in answers:
            if not lost:
                status = h.response()[0]
                ops.setdefault(a, []).append((k, pos, status))
                if k == "create" and status == 200:
                    self.counter += 1
                h.close()
        for a in left:
            ops.setdefault(a, []).append(("leave", ZERO, 200))
        # the effects of the connections show after a while
        end = time.time() + 10
        delay = 0.0005
        while True:
            why, st = self.consistent(before, ops, len(new), left)
            if why is None:
                break
            if time.time() > end:
                self.fail(False, why)
            time.sleep(delay)
            delay = min(2 * delay, 0.05)
        arrived = [a for a, v in st.items() if v[0] == "Uci" and (before.get(a, [""])[0] != "Uci" or a in left)]
        for a in arrived:
            self.counter = max(self.counter, int(a.replace(":", ""), 16) + 1)
        # they are not told apart
        self.gone += new
        if r["busy"]:
            n = 0
            end = time.time() + TIMEOUT
            while n < r["busy"]:
                n += sum(1 for m in self.busy.messages if m[0] >> 5 == 2)
                self.busy.messages.clear()
                if n < r["busy"] and not self.busy.pump(0.5) and (self.busy.eof or time.time() > end):
                    raise Skip("commands are not answered")
        if self.events:
            self.announced("5B:%02X" % number, ops)
        return sum(len(v) for v in ops.values()) + joins

    def consistent(self, before, ops, joins, left):
        """(what is wrong or None, the scene)"""
        st = self.state()
        if st is None:
            return "get-state lists an address twice", st
        arrived = [a for a, v in st.items() if v[0] == "Uci" and (before.get(a, [""])[0] != "Uci" or a in left)]
        if len(arrived) != joins:
            return "%d clients connected, %s are new in get-state" % (joins, arrived), st
        for a in set(before) | set(st) | set(ops):
            o = ops.get(a, []) + ([("join", ZERO, 200)] if a in arrived else [])
            if not explain(o, before.get(a), st.get(a)):
                return "%s was %s, is %s after the simultaneous %s" % (a, before.get(a), st.get(a), o), st
        # the environment and the scene agree
        for a in ops:
            want = 409 if a in st else 200
            got = self.http.request("/create-anchor/" + a)[0]
            if got == 200:
                self.counter += 1
                self.http.request("/destroy-anchor/" + a)
            if got != want:
                return "create-anchor of %s answers %d, get-state said %s after %s" % (a, got, st.get(a), ops[a]), st
        return None, st

    def announced(self, marker, ops):
        """The events received so far give the scene."""
        if self.http.request("/create-anchor/" + marker)[0] != 200:
            raise Skip("an anchor cannot be created")
        self.counter += 1
        end = time.time() + TIMEOUT
        while True:
            self.sub.pump()
            self.consume()
            if ("Anchor", marker) in self.replay:
                break
            if self.sub.done or time.time() > end:
                raise Violation("the creation of an anchor is not announced")
            time.sleep(0.001)
        for a, o in ops.items():
            n = sum(v for k, v in self.tally.items() if k[0] == "device-updated" and k[2] == a)
            want = sum(1 for x in o if x[0] == "pos" and x[2] == 200)
            most = want + sum(1 for x in o if x[0] == "pos" and x[2] is None)
            if not want <= n <= most:
                raise Violation("%d position updates of %s are announced for %s" % (n, a, o))
        self.tally.clear()
        # a request whose connection was lost may still be executed
        end = time.time() + 5
        while True:
            st = self.state() or {}
            why = None
            if sorted((v[0], a) for a, v in st.items()) != sorted(self.replay):
                why = "the events replay to %s, get-state says %s" % (sorted(self.replay), st)
            else:
                for (c, a), pos in self.replay.items():
                    if not same_position(st[a][1], pos):
                        why = "the events put %s at %s, get-state at %s" % (a, pos, st[a])
            if why is None:
                return
            if time.time() > end:
                raise Violation(why)
            time.sleep(0.01)
            self.sub.pump()
            self.consume()


def gen(rng):
    rounds = []
    for _ in range(rng.randint(1, 12)):
        focus = rng.choice([0, 0, 0, 1, 2, 3, 4])
        ops = []
        for _ in range(rng.randint(2, 6)):
            i = focus if rng.random() < 0.85 else rng.randrange(5)
            k = rng.randrange(100)
            kind = ("create" if k < 36 else "destroy" if k < 62 else "pos" if k < 74 else
                    "lost-create" if k < 82 else "lost-destroy" if k < 88 else
                    ("join" if focus == 2 else "leave") if k < 97 else "join")
            ops.append([kind, i, position(rng) if rng.random() < 0.7 else list(ZERO)])
        rounds.append({"pre": rng.choice([0, 0, 0, 1, 4, 5]), "ops": ops, "wait": rng.choice([0, 1, 3, 10, 21, 40]),
                       "busy": rng.choice([0, 0, 20, 100, 400])})
    return {"clients": rng.choice([0, 1, 2]), "rounds": rounds}


def runner(events):
    def run(case, ctx):
        w = Arena(ctx, events)
        try:
            try:
                w.busy, _ = w.connect()
                if w.busy.cmd(0, 0, b"\0") != b"\0":
                    raise Skip("a device cannot be reset")
                for _ in range(case["clients"]):
                    u, a = w.connect()
                    w.clients[a] = u
                n = sum(w.round(r, i) for i, r in enumerate(case["rounds"]))
                ctx.add("simultaneous", n)
                ctx.add("rounds", len(case["rounds"]))
            except OSError as e:
                raise Violation("pica-http is broken off: %s %s" % (e, w.prog.stderr()))
            except Violation as e:
                raise Violation("%s %s" % (e, "" if w.prog.alive() else w.prog.stderr()))
        finally:
            w.close()
        return n >= 2
    return run


def shrink(case):
    for x in drop(case["rounds"]):
        yield dict(case, rounds=x)
    for i, r in enumerate(case["rounds"]):
        for x in drop(r["ops"]):
            yield dict(case, rounds=case["rounds"][:i] + [dict(r, ops=x)] + case["rounds"][i + 1:])
    yield from smaller_values(case)


def part(events):
    return Part("races", "simultaneous conflicting requests about the same addresses, requests whose connection is "
                "lost, arriving and leaving clients, while the event loop is busy; non-trivial: at least 2 "
                "simultaneous operations", (1200, 30000), (60, 900), gen, runner(events), shrink=shrink, confirm=12)

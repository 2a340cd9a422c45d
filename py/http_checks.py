"""C20, C21, C22, C26 and C27: pica-http seen through HTTP, events and UCI."""
import json, math, os, socket, struct, time
from collections import Counter
from common import Part, Skip, Violation, drop, smaller_values
from net import (TIMEOUT, Http, Program, Subscriber, Uci, check_direction, measurements,
                 position_body, same_rotation)

ZERO = [0, 0, 0, 0, 0, 0]
POOL = ["0A:01", "01:0A", "FF:FF", "00:00", "00:01", "00:02", "00:03", "B0:0C",
        "01:02:03:04:05:06:07:08", "08:07:06:05:04:03:02:01", "FF:FF:FF:FF:FF:FF:FF:FF",
        "0A:01:00:00:00:00:00:00"]
MARKER = "5A:5A"
INVALID_BODIES = ["x", "{}", "[]", "[1,2,3]", "null", "1", '"0"', '{"x":1}',
                  '{"x":1,"y":2,"z":3,"yaw":0,"pitch":0}',
                  '{"x":32768,"y":0,"z":0,"yaw":0,"pitch":0,"roll":0}',
                  '{"x":0,"y":-32769,"z":0,"yaw":0,"pitch":0,"roll":0}',
                  '{"x":0,"y":0,"z":0.5,"yaw":0,"pitch":0,"roll":0}',
                  '{"x":0,"y":0,"z":0,"yaw":"1","pitch":0,"roll":0}',
                  '{"x":0,"y":0,"z":0,"yaw":0,"pitch":128,"roll":0}',
                  '{"x":0,"y":0,"z":0,"yaw":0,"pitch":-129,"roll":0}',
                  '{"x":0,"y":0,"z":0,"yaw":0,"pitch":0,"roll":40000}',
                  '{"x":0,"y":0,"z":0,"yaw":0,"pitch":0,"roll":null}',
                  '{"x":0 "y":0}', '}', '{"x":1,"y":2,"z":3,"yaw":0,"pitch":0,"roll":0}}']
INVALID_ADDRESSES = ["0A", "0A:0", "0A:01:02", "GG:00", "0A-01", "zz", "", "0x0A", "00:01:02:03:04:05:06",
                     "00:01:02:03:04:05:06:07:08", "0A:01%20", "%30A:01", "0A:01:0", "0a01x"]
UNKNOWN_PATHS = ["/x", "/index.html", "/get-state/x", "/get-state/", "/state", "/events/x", "/create-anchor",
                 "/destroy-anchor", "/set-position", "/set-position/00:01/x", "/create-anchor/00:01/",
                 "/openapi/", "/openapi.yml", "/src/components/", "/src/components/map.js",
                 "/static/index.html", "/.", "/src/components/Map.js/", "/a/b/c/d", "/GET-STATE"]


def shown(addr, fmt):
    """The address in one of the accepted spellings."""
    return {0: addr, 1: addr.lower(), 2: addr.replace(":", ""), 3: addr.replace(":", "%3A")}[fmt % 4]


def coordinate(rng, near=()):
    k = rng.randrange(10)
    if near and k < 3:
        return rng.choice(near)
    if k < 5:
        return rng.randint(-20, 20)
    if k < 6:
        return rng.choice([0, 0, 1, -1, 32767, -32768, -32767, 100, -100])
    if k < 8:
        return rng.randint(-2000, 2000)
    return rng.randint(-32768, 32767)


def angle(rng):
    k = rng.randrange(8)
    if k < 3:
        return rng.choice([0, 0, 0, 45, 90, -90, 180, -180, 30, 60, 270, 360])
    if k < 6:
        return rng.randint(-180, 180)
    if k < 7:
        return rng.randint(-720, 720)
    return rng.randint(-32768, 32767)


def pitch(rng):
    k = rng.randrange(6)
    if k < 3:
        return rng.choice([0, 0, 0, 45, 90, -90, -45, 89, -89, 127, -128])
    return rng.randint(-128, 127) if k < 4 else rng.randint(-89, 89)


def position(rng, near=(), level=False):
    p = [coordinate(rng, near) for _ in range(3)]
    return p + ([0, 0, 0] if level else [angle(rng), pitch(rng), angle(rng)])


# ------------------------------------------------------------------ the scene

class Mirror:
    """The scene of a subscriber, rebuilt from its events."""

    def __init__(self, sub, scene):
        self.sub = sub
        self.scene = {a: list(v) for a, v in scene.items()}
        self.cursor = 0
        self.slots = []     # expected changes: lists of alternatives in any order
        self.due = None     # neighbor events still expected

    def expect(self, changes):
        self.slots.append(list(changes))

    def remaining(self):
        return sum(len(s) for s in self.slots)

    def step(self, limit=None):
        """Consume received events; True when nothing is missing."""
        self.sub.pump()
        ev = self.sub.events
        while self.cursor < len(ev):
            self.one(*ev[self.cursor])
            self.cursor += 1
        while self.slots and not self.slots[0]:
            self.slots.pop(0)
        return not self.slots and not self.due

    def one(self, name, d):
        if name == "neighbor-updated":
            self.neighbor(d)
            return
        if self.due:
            raise Violation("%s arrives before the neighbor updates %s" % (name, sorted(self.due)))
        a, c = d.get("mac_address"), d.get("category")
        pos = [d.get(k) for k in ("x", "y", "z", "yaw", "pitch", "roll")]
        while self.slots and not self.slots[0]:
            self.slots.pop(0)
        found = None
        for i, w in enumerate(self.slots[0] if self.slots else []):
            if w[0] == name and w[1] == c and (w[2] is None and a not in self.scene or w[2] == a):
                found = i
                break
        if found is None:
            raise Violation("unexpected event %s %s, expected %s" % (name, d, self.slots[:1]))
        w = self.slots[0].pop(found)
        keys = {"mac_address", "category"}
        if name == "device-removed":
            if a not in self.scene:
                raise Violation("event %s of an unknown device %s" % (name, a))
            del self.scene[a]
        else:
            keys |= {"x", "y", "z", "yaw", "pitch", "roll"}
            if not same_position(pos, w[3]):
                raise Violation("event %s of %s has position %s instead of %s" % (name, a, pos, w[3]))
            if (name == "device-added") == (a in self.scene):
                raise Violation("event %s of %s does not fit the scene" % (name, a))
            self.scene[a] = [c, w[3]]
            if name == "device-updated":
                self.due = Counter()
                for b in self.scene:
                    if b != a:
                        self.due[(a, b)] += 1
                        self.due[(b, a)] += 1
        if set(d) != keys:
            raise Violation("event %s has fields %s" % (name, sorted(d)))

    def neighbor(self, d):
        a, b = d.get("source_mac_address"), d.get("destination_mac_address")
        if not self.due or self.due[(a, b)] < 1:
            raise Violation("unexpected event neighbor-updated %s" % d)
        if set(d) != {"source_mac_address", "destination_mac_address", "source_category",
                      "destination_category", "distance", "azimuth", "elevation"}:
            raise Violation("event neighbor-updated has fields %s" % sorted(d))
        if [d["source_category"], d["destination_category"]] != [self.scene[a][0], self.scene[b][0]]:
            raise Violation("wrong categories in neighbor-updated %s" % d)
        bad = check_direction(self.scene[a][1], self.scene[b][1], d["distance"], d["azimuth"], d["elevation"])
        if bad:
            raise Violation("neighbor-updated from %s %s to %s %s: %s"
                            % (a, self.scene[a][1], b, self.scene[b][1], bad))
        self.due[(a, b)] -= 1
        if not self.due[(a, b)]:
            del self.due[(a, b)]

    def settle(self):
        end = time.time() + TIMEOUT
        delay = 0.0005
        while not self.step():
            if self.sub.done:
                raise Violation("the event stream ended")
            if time.time() > end:
                raise Violation("missing events: %s neighbors %s" % (self.slots[:2], sorted(self.due or [])[:4]))
            time.sleep(delay)
            delay = min(2 * delay, 0.02)


def same_position(got, want):
    return (all(isinstance(v, int) for v in got) and got[:3] == want[:3]
            and -360 <= got[3] <= 360 and -90 <= got[4] <= 90 and -360 <= got[5] <= 360
            # exact, except for the rounding of two angles where they are not unique
            and same_rotation(got[3:], want[3:], 1.3 if abs(got[4]) >= 88 else 0.6))


class World:
    """Drives pica-http and knows the scene that should result."""

    def __init__(self, ctx, events):
        self.ctx = ctx
        self.prog = Program(ctx, ctx.settings.exe["pica-http"], http=True)
        self.http = Http(self.prog.web)
        self.scene = {}      # address -> [category, position]
        self.clients = []    # (Uci, address)
        self.mirrors = []
        self.events = events  # check the events (C22) or the answers (C21)
        self.seen = set()    # addresses of all UCI devices so far
        self.extra = []

    def close(self):
        for m in self.mirrors:
            m.sub.close()
        for u, _ in self.clients:
            u.close()
        self.http.close()
        for h in self.extra:
            h.close()
        self.prog.stop()

    def fail(self, kind, text):
        """A disagreement about the answers is C21's, about events C22's."""
        if (kind == "event") == self.events:
            raise Violation(text)
        raise Skip(text)

    def address(self, a):
        i, fmt = a
        if i >= 100:
            if self.clients:
                return self.clients[(i - 100) % len(self.clients)][1], fmt
            i -= 100
        return POOL[i % len(POOL)], fmt

    def body(self, b):
        """(bytes, position or None when invalid)"""
        if b is None:
            return b"", ZERO
        if isinstance(b, int):
            return INVALID_BODIES[b % len(INVALID_BODIES)].encode(), None
        return position_body(b), b

    def plan(self, op):
        """Of an HTTP operation: path, body, method, status, changes."""
        kind = op[0]
        if kind == "create":
            addr, fmt = self.address(op[1])
            raw, pos = self.body(op[2])
            path = "/create-anchor/" + shown(addr, fmt)
            if pos is None:
                return path, raw, 406, []
            if addr in self.scene:
                return path, raw, 409, []
            return path, raw, 200, [["device-added", "Anchor", addr, pos]]
        if kind == "destroy":
            addr, fmt = self.address(op[1])
            path = "/destroy-anchor/" + shown(addr, fmt)
            if self.scene.get(addr, [""])[0] != "Anchor":
                return path, b"", 404, []
            return path, b"", 200, [["device-removed", "Anchor", addr]]
        if kind == "pos":
            addr, fmt = self.address(op[2])
            raw, pos = self.body(op[3])
            path = ("/init-uci-device/" if op[1] else "/set-position/") + shown(addr, fmt)
            if pos is None:
                return path, raw, 406, []
            if addr not in self.scene:
                return path, raw, 404, []
            return path, raw, 200, [["device-updated", self.scene[addr][0], addr, pos]]
        if kind == "badaddr":
            route = ["/create-anchor/", "/destroy-anchor/", "/set-position/", "/init-uci-device/"][op[1] % 4]
            a = INVALID_ADDRESSES[op[2] % len(INVALID_ADDRESSES)]
            return route + a, self.body(op[3])[0], 406, []
        if kind == "unknown":
            return UNKNOWN_PATHS[op[1] % len(UNKNOWN_PATHS)], b"", 404, []
        raise AssertionError(kind)

    def apply(self, change):
        if change[0] == "device-removed":
            del self.scene[change[2]]
        else:
            self.scene[change[2]] = [change[1], change[3]]

    def announce(self, changes):
        if changes:
            for m in self.mirrors:
                m.expect(changes)

    def check_status(self, path, got, want):
        if got != want:
            self.fail("answer", "%s answers %d instead of %d" % (path, got, want))

    def wait_state(self, pred, what):
        end = time.time() + TIMEOUT
        delay = 0.0005
        while True:
            st = self.http.state()
            r = pred(st)
            if r is not None:
                return r
            if time.time() > end:
                self.fail("answer", what)
            time.sleep(delay)
            delay = min(2 * delay, 0.02)

    def connect(self):
        """A new UCI client; its address is the one that appears."""
        u = Uci(self.prog.uci)
        self.announce([["device-added", "Uci", None, ZERO]])

        def fresh(st):
            new = [d for d in st if d["mac_address"] not in self.scene]
            return new[0] if new else None
        d = self.wait_state(fresh, "a UCI connection does not appear in get-state")
        a = d["mac_address"]
        if d["category"] != "Uci" or len(a) != 5:
            self.fail("answer", "a UCI connection appears as %s" % d)
        self.scene[a] = ["Uci", list(ZERO)]
        self.clients.append((u, a))

    def disconnect(self, i, how):
        u, a = self.clients.pop(i % len(self.clients))
        self.announce([["device-removed", "Uci", a]])
        del self.scene[a]
        if how == 0:
            u.close()
        elif how == 1:
            u.reset()
        elif how == 2:
            u.s.sendall(b"\x20\x00\x00")
            u.close()
        else:
            u.s.shutdown(socket.SHUT_WR)
            self.extra.append(u)
        self.wait_state(lambda st: True if all(d["mac_address"] != a for d in st) else None,
                        "a closed UCI connection stays in get-state")

    def compare(self):
        st = self.http.state()
        if sorted(d["mac_address"] for d in st) != sorted(self.scene):
            self.fail("answer", "get-state lists %s instead of %s"
                      % (sorted(d["mac_address"] for d in st), sorted(self.scene)))
        for d in st:
            cat, pos = self.scene[d["mac_address"]]
            got = [d.get(k) for k in ("x", "y", "z", "yaw", "pitch", "roll")]
            if d["category"] != cat or not same_position(got, pos):
                self.fail("answer", "get-state says %s instead of %s %s" % (d, cat, pos))
        return len(st)

    def settle(self):
        """Everything is announced, nothing else is; replaying gives the scene."""
        for m in self.mirrors:
            try:
                m.settle()
            except Violation as e:
                self.fail("event", str(e))
            if {a: v[0] for a, v in m.scene.items()} != {a: v[0] for a, v in self.scene.items()}:
                self.fail("event", "the events replay to %s instead of %s" % (sorted(m.scene), sorted(self.scene)))

    def run(self, ops):
        done = Counter()
        for op in ops:
            kind = op[0]
            if kind == "connect":
                if len(self.clients) >= 5:
                    continue
                self.connect()
            elif kind == "disconnect":
                if not self.clients:
                    continue
                self.disconnect(op[1], op[2])
            elif kind == "sub":
                if len(self.mirrors) >= 4:
                    continue
                self.settle()
                self.mirrors.append(Mirror(Subscriber(self.prog.web), self.scene))
            elif kind == "unsub":
                if not self.mirrors:
                    continue
                m = self.mirrors.pop(op[1] % len(self.mirrors))
                m.sub.close()
            elif kind == "get":
                self.compare()
            elif kind == "uci":
                if not self.clients:
                    continue
                u, _ = self.clients[op[1] % len(self.clients)]
                if u.cmd(0, 0, b"\0") != b"\0":
                    raise Skip("the reset of a device fails")
            elif kind == "par":
                self.parallel(op[1])
            elif kind == "pipeline":
                pending = []
                for o in op[1]:
                    path, raw, status, changes = self.plan(o)
                    self.http.send(path, raw)
                    pending.append((path, status))
                    for c in changes:
                        self.apply(c)
                        self.announce([c])
                for path, status in pending:
                    self.check_status(path, self.http.response()[0], status)
            else:
                path, raw, status, changes = self.plan(op)
                got = self.http.request(path, raw)[0]
                self.check_status(path, got, status)
                for c in changes:
                    self.apply(c)
                    self.announce([c])
                done["accepted" if status == 200 else "refused"] += 1
            done[kind] += 1
            if sum(done.values()) % 8 == 0:
                self.settle()
            if not self.prog.alive():
                raise Violation("pica-http stopped: " + self.prog.stderr())
        # a last change shows that nothing else is announced before
        path, raw, status, changes = self.plan(["create", [0, 0], None])
        status, changes = 200, [["device-added", "Anchor", MARKER, ZERO]]
        self.check_status("/create-anchor", self.http.request("/create-anchor/" + MARKER)[0], status)
        self.apply(changes[0])
        self.announce(changes)
        self.settle()
        done["scene"] = self.compare()
        done["subscribers"] = len(self.mirrors)
        done["events"] = sum(len(m.sub.events) for m in self.mirrors)
        return done

    def parallel(self, ops):
        """Requests that do not depend on each other, at the same time."""
        used, plans, changes, conns = set(), [], [], 0
        for o in ops:
            if o[0] == "connect":
                conns += len(self.clients) + conns < 5
                continue
            i = 1 if o[0] in ("create", "destroy") else 2 if o[0] == "pos" else None
            if i is not None:
                a = self.address(o[i])[0]
                if a in used:
                    continue
                used.add(a)
            plans.append(self.plan(o))
        # a new device takes an address of its own choice
        if any(a not in self.scene for a in used):
            conns = 0
        links = []
        for path, raw, status, ch in plans:
            h = Http(self.prog.web)
            links.append(h)
            changes += ch
        self.announce(changes + [["device-added", "Uci", None, ZERO]] * conns)
        for h, (path, raw, _, _) in zip(links, plans):
            h.send(path, raw)
        new = [Uci(self.prog.uci) for _ in range(conns)]
        for h, (path, _, status, _) in zip(links, plans):
            self.check_status(path, h.response()[0], status)
            h.close()
        for c in changes:
            self.apply(c)
        if new:
            def fresh(st):
                x = [d["mac_address"] for d in st if d["mac_address"] not in self.scene]
                return x if len(x) >= len(new) else None
            for u, a in zip(new, self.wait_state(fresh, "UCI connections do not appear in get-state")):
                self.scene[a] = ["Uci", list(ZERO)]
                # which of the simultaneous clients has which address is
                # not known: they are closed together
                self.extra.append(u)
            group = [a for a in self.scene if self.scene[a][0] == "Uci" and all(a != b for _, b in self.clients)]
            for u in new:
                u.reset()
            self.announce([["device-removed", "Uci", a] for a in group])
            for a in group:
                del self.scene[a]
            self.wait_state(lambda st: True if not any(d["mac_address"] in group for d in st) else None,
                            "closed UCI connections stay in get-state")


def gen_addr(rng):
    k = rng.randrange(10)
    i = rng.randrange(100, 106) if k < 3 else rng.randrange(len(POOL)) if k < 7 else rng.randrange(3)
    return [i, rng.choice([0, 0, 0, 1, 2, 3])]


def gen_body(rng, near):
    k = rng.randrange(12)
    if k == 0:
        return None
    if k == 1:
        return rng.randrange(len(INVALID_BODIES))
    return position(rng, near)


def gen_op(rng, near, par=False):
    k = rng.randrange(100)
    if k < 28:
        return ["create", gen_addr(rng), gen_body(rng, near)]
    if k < 42:
        return ["destroy", gen_addr(rng)]
    if k < 75:
        return ["pos", rng.randrange(4) == 0, gen_addr(rng), gen_body(rng, near)]
    if k < 79:
        return ["badaddr", rng.randrange(4), rng.randrange(len(INVALID_ADDRESSES)), gen_body(rng, near)]
    if k < 82:
        return ["unknown", rng.randrange(len(UNKNOWN_PATHS))]
    if k < 91 or par:
        return ["connect"]
    return ["disconnect", rng.randrange(8), rng.randrange(4)]


def gen_scene(rng, events):
    near = [coordinate(rng) for _ in range(2)]
    ops = []
    if events or rng.random() < 0.6:
        ops += [["sub"]] * rng.choice([1, 1, 2])
    for _ in range(rng.randint(3, 40)):
        k = rng.randrange(100)
        if k < 80:
            ops.append(gen_op(rng, near))
        elif k < 84:
            ops.append(["get"])
        elif k < 87:
            ops.append(["sub"])
        elif k < 89:
            ops.append(["unsub", rng.randrange(4)])
        elif k < 92:
            ops.append(["uci", rng.randrange(5)])
        elif k < 96:
            ops.append(["par", [gen_op(rng, near, True) for _ in range(rng.randint(2, 6))]])
        else:
            ops.append(["pipeline", [o for o in (gen_op(rng, near) for _ in range(rng.randint(2, 5)))
                                     if o[0] not in ("connect", "disconnect")]])
    return ops


def scene_run(events):
    def run(ops, ctx):
        w = World(ctx, events)
        try:
            try:
                done = w.run(ops)
            except OSError as e:
                raise Violation("pica-http is broken off: %s %s" % (e, w.prog.stderr()))
        finally:
            w.close()
        for k, v in done.items():
            ctx.add(k, v)
        if events:
            return done["events"] >= 3 and done["subscribers"] >= 1
        return done["accepted"] >= 2 and done["refused"] >= 1
    return run


def shrink_scene(ops):
    yield from drop(ops)
    for i, o in enumerate(ops):
        if o[0] in ("par", "pipeline"):
            for x in drop(o[1]):
                yield ops[:i] + [[o[0], x]] + ops[i + 1:]
            for x in o[1]:
                yield ops[:i] + [x] + ops[i + 1:]
    yield from smaller_values(ops)


def shrink_geometry(case):
    for x in drop(case["moves"]):
        yield dict(case, moves=x)
    if len(case["start"]) > 2:
        for x in drop(case["start"]):
            if len(x) >= 2:
                yield dict(case, start=x)
    yield from smaller_values(case)


def shrink_static(case):
    yield from drop(case)
    for i, c in enumerate(case):
        for x in drop(c["paths"]):
            yield case[:i] + [dict(c, paths=x)] + case[i + 1:]
        for j, q in enumerate(c["paths"]):
            for x in drop(q[1:]):
                yield case[:i] + [dict(c, paths=c["paths"][:j] + ["/" + x] + c["paths"][j + 1:])] + case[i + 1:]
    yield from smaller_values(case)


def shrink_ranging(case):
    for x in drop(case["ops"]):
        yield dict(case, ops=x)
    for x in smaller_values(case):
        if x["clients"] == case["clients"] and x["ms"] == case["ms"]:
            yield x


def scene_part(events):
    return Part("events" if events else "scene",
                "random sequences of requests, connections, disconnections and subscriptions, some in parallel; "
                + ("non-trivial: a subscriber with at least 3 events" if events
                   else "non-trivial: 2 accepted and 1 refused request"),
                (4000, 80000), (75, 1200), lambda rng: gen_scene(rng, events), scene_run(events), shrink=shrink_scene)


# ------------------------------------------------------ C22: large scenes

def gen_crowd(rng):
    n = rng.choice([2, 5, 20, 40, 60, 80, 120, 200])
    level = rng.random() < 0.5
    return {"n": n, "links": rng.randint(1, 3), "subs": rng.randint(1, 3), "late": rng.random() < 0.7,
            "moves": [[rng.randrange(n), position(rng, (), level)]
                      for _ in range(min(rng.randint(1, 40), 6000 // n))]}


def run_crowd(case, ctx):
    """Updates follow each other closely, the subscribers read late or at the
    same time; every one of them gets everything."""
    prog = ctx.state.get("prog")
    if prog is None or not prog.alive():
        prog = ctx.state["prog"] = Program(ctx, ctx.settings.exe["pica-http"], http=True)
        ctx.state.setdefault("cleanup", []).append(prog.stop)
    h = Http(prog.web)
    links, subs = [], []
    try:
        names = ["%02X:%02X" % (0x10 + i // 200, i % 200) for i in range(case["n"])]
        for a in names:
            h.send("/create-anchor/" + a)
        if any(h.response()[0] != 200 for _ in names):
            raise Skip("an anchor cannot be created")
        subs = [Subscriber(prog.web) for _ in range(case["subs"])]
        links = [Http(prog.web) for _ in range(case["links"])]
        # each device is moved through one connection, in order
        for i, p in case["moves"]:
            i %= len(names)
            links[i % len(links)].send("/set-position/" + names[i], position_body(p))
            if not case["late"]:
                for s in subs:
                    s.pump()
        for i, _ in case["moves"]:
            if links[i % len(names) % len(links)].response()[0] != 200:
                raise Skip("a position is refused")
        want = len(case["moves"]) * (1 + 2 * (len(names) - 1))
        for s in subs:
            s.wait(lambda ev: True if len(ev) >= want else None, "a position update of a large scene")
            scene = {a: ["Anchor", list(ZERO)] for a in names}
            m = Mirror(s, scene)
            todo = {}
            for i, p in case["moves"]:
                todo.setdefault(names[i % case["n"]], []).append(p)
            for name, d in s.events[:want]:
                a = d.get("mac_address")
                if name == "device-updated":
                    if not todo.get(a):
                        raise Violation("unexpected event %s %s" % (name, d))
                    m.expect([[name, "Anchor", a, todo[a].pop(0)]])
                m.one(name, d)
            if m.due:
                raise Violation("missing neighbor updates %s" % sorted(m.due)[:4])
        ctx.add("events", want * len(subs))
    except Violation as e:
        raise Violation("%s %s" % (e, "" if prog.alive() else prog.stderr()))
    finally:
        for x in subs + links:
            x.close()
        if prog.alive():
            for a in names:
                h.send("/destroy-anchor/" + a)
            for a in names:
                h.response()
        h.close()
    return len(case["moves"]) * case["n"] >= 100


def shrink_crowd(case):
    for x in drop(case["moves"]):
        if x:
            yield dict(case, moves=x)
    for k in ("subs", "links"):
        if case[k] > 1:
            yield dict(case, **{k: 1})
    for n in (2, 5, 20, case["n"] // 2, case["n"] - 1):
        if 2 <= n < case["n"]:
            yield dict(case, n=n)
    yield dict(case, moves=[[i, ZERO] for i, _ in case["moves"]])


# ----------------------------------------------------------------- C20

def gen_geometry(rng):
    near = [coordinate(rng) for _ in range(3)]
    level = rng.random() < 0.2
    n = rng.randint(2, 10)
    return {"start": [position(rng, near, level) for _ in range(n)],
            "moves": [[rng.randrange(n), position(rng, near, level)] for _ in range(rng.randint(5, 40))]}


def run_geometry(case, ctx):
    prog = ctx.state.get("prog")
    if prog is None or not prog.alive():
        prog = ctx.state["prog"] = Program(ctx, ctx.settings.exe["pica-http"], http=True)
        ctx.state.setdefault("cleanup", []).append(prog.stop)
    h = Http(prog.web)
    used = []
    try:
        for d in h.state():
            h.request("/destroy-anchor/" + d["mac_address"])
        pos = {}
        names = ["%02X:%02X" % (0xA0 + i, 7) for i in range(len(case["start"]))]
        for a, p in zip(names, case["start"]):
            if h.request("/create-anchor/" + a, position_body(p))[0] != 200:
                raise Skip("an anchor cannot be created")
            used.append(a)
            pos[a] = p
        sub = Subscriber(prog.web)
        try:
            cursor = 0
            for i, p in case["moves"]:
                if i >= len(names):
                    continue
                a = names[i]
                status = h.request("/set-position/" + a, position_body(p))[0]
                if status != 200:
                    raise Violation("set-position of %s answers %d" % (p, status))
                pos[a] = p
                want = cursor + 1 + 2 * (len(names) - 1)
                try:
                    sub.wait(lambda ev: True if len(ev) >= want else None, "a position update")
                except Violation as e:
                    raise Skip(str(e)) if prog.alive() else e
                pairs = {}
                for name, d in sub.events[cursor:want]:
                    if name != "neighbor-updated":
                        continue
                    s, t = d["source_mac_address"], d["destination_mac_address"]
                    bad = check_direction(pos[s], pos[t], d["distance"], d["azimuth"], d["elevation"])
                    if bad:
                        raise Violation("%s seen from %s: %s" % (pos[t], pos[s], bad))
                    pairs[(s, t)] = d["distance"]
                    if pairs.get((t, s), d["distance"]) != d["distance"]:
                        raise Violation("%s and %s: distances %d and %d"
                                        % (pos[s], pos[t], d["distance"], pairs[(t, s)]))
                    ctx.add("pairs")
                cursor = want
        finally:
            sub.close()
    except Violation as e:
        raise Violation("%s %s" % (e, "" if prog.alive() else prog.stderr()))
    except OSError as e:
        raise Violation("pica-http is broken off: %s %s" % (e, prog.stderr()))
    finally:
        h.close()
    return len(case["moves"]) >= 5 and any(p[3:] != [0, 0, 0] for _, p in case["moves"])


# ----------------------------------------------------------------- C27

STATIC = {"/": ("text/html", "index.html"), "/openapi": ("text/html", "openapi.html"),
          "/openapi.yaml": ("text/yaml", "openapi.yaml"),
          "/src/components/Map.js": ("application/javascript", "src/components/Map.js"),
          "/src/components/DeviceInfo.js": ("application/javascript", "src/components/DeviceInfo.js"),
          "/src/components/Orientation.js": ("application/javascript", "src/components/Orientation.js")}
ROUTES = {"get-state", "events", "create-anchor", "destroy-anchor", "set-position", "init-uci-device"}


def gen_path(rng):
    k = rng.randrange(10)
    base = rng.choice(sorted(STATIC))
    if k < 4:
        p = base
    elif k < 8:
        # near a static path
        s = base
        for _ in range(rng.randint(1, 2)):
            i = rng.randrange(len(s) + 1)
            m = rng.randrange(4)
            if m == 0:
                s = s[:i] + rng.choice("/.aAmMx%2_-~:@") + s[i:]
            elif m == 1 and i < len(s):
                s = s[:i] + s[i + 1:]
            elif m == 2 and i < len(s):
                s = s[:i] + s[i].swapcase() + s[i + 1:]
            else:
                s = s + rng.choice(["/", ".js", ".html", "/index.html", "%20", "/.."])
        p = s if s.startswith("/") else "/" + s
    else:
        p = "/" + "/".join("".join(rng.choice("abcosrcstaticomponentsindexhtmlMap.") for _ in range(rng.randint(0, 10)))
                           for _ in range(rng.randint(1, 4)))
    q = ""
    if rng.randrange(3) == 0:
        q = "?" + "".join(rng.choice("abc=&/?:@!$'()*+,;%20.~-_09") for _ in range(rng.randint(0, 30)))
    return p + q


def gen_static(rng):
    return [{"paths": [gen_path(rng) for _ in range(rng.randint(1, 12))],
             "body": rng.choice([0, 0, 0, 1, 100]), "pipeline": rng.random() < 0.4}
            for _ in range(rng.randint(1, 5))]


def run_static(case, ctx):
    prog = ctx.state.get("prog")
    if prog is None or not prog.alive():
        prog = ctx.state["prog"] = Program(ctx, ctx.settings.exe["pica-http"], http=True)
        ctx.state.setdefault("cleanup", []).append(prog.stop)
    files = ctx.state.get("files")
    if files is None:
        files = ctx.state["files"] = {}
        for p, (mime, f) in STATIC.items():
            with open(os.path.join(ctx.settings.repo, "static", f), "rb") as fd:
                files[p] = (mime, fd.read())

    def judge(path, r):
        status, head, body = r
        key = path.split("?")[0]
        if key in files:
            mime, data = files[key]
            if status != 200:
                raise Violation("%s answers %d" % (path, status))
            if head.get("content-type") != mime:
                raise Violation("%s has content type %s" % (path, head.get("content-type")))
            if body != data:
                raise Violation("%s answers %d bytes that differ from the file of %d" % (path, len(body), len(data)))
            ctx.add("files")
        elif status != 404:
            raise Violation("%s answers %d" % (path, status))
        elif len(body) > 200 and any(body in d or d in body for _, d in files.values()):
            raise Violation("%s serves a file" % path)
    links = []
    try:
        for conn in case:
            h = Http(prog.web)
            links.append((h, [p for p in conn["paths"]
                              if p.startswith("/") and p.lstrip("/").split("?")[0].split("/")[0] not in ROUTES
                              and "\\" not in p], conn))
        for rnd in range(2):
            # requests of all the connections are answered at the same time
            for h, paths, conn in links:
                for p in paths if conn["pipeline"] else paths[:1]:
                    h.send(p, b"b" * conn["body"])
            for h, paths, conn in links:
                for i, p in enumerate(paths):
                    if not conn["pipeline"] and i:
                        h.send(p, b"b" * conn["body"])
                    judge(p, h.response())
    except OSError as e:
        raise Violation("pica-http is broken off: %s %s" % (e, prog.stderr()))
    finally:
        for h, _, _ in links:
            h.close()
    n = sum(len(p) for _, p, _ in links)
    return n >= 2 and any(p.split("?")[0] in files for _, ps, _ in links for p in ps)


# ----------------------------------------------------------------- C26

def gen_ranging(rng):
    near = [coordinate(rng) for _ in range(2)]
    n = rng.randint(1, 3)
    anchors = rng.randint(0, 3)
    ops = []
    for _ in range(rng.randint(3, 14)):
        k = rng.randrange(100)
        if k < 50:
            ops.append(["pos", rng.randrange(n + anchors), position(rng, near)])
        elif k < 65:
            ops.append(["rounds", rng.randint(1, 3)])
        elif k < 75:
            ops.append(["destroy", rng.randrange(3)])
        elif k < 85:
            ops.append(["create", rng.randrange(3), position(rng, near) if rng.random() < 0.8 else None])
        elif k < 90:
            ops.append(["drop", rng.randrange(n), rng.randrange(3)])
        else:
            ops.append(["posbad", rng.randrange(n + anchors), rng.randrange(len(INVALID_BODIES))])
    return {"clients": n, "anchors": [position(rng, near) if rng.random() < 0.8 else None for _ in range(anchors)],
            "ms": rng.choice([8, 10, 15, 20, 30]), "start": [position(rng, near) if rng.random() < 0.8 else None
                                                           for _ in range(n)],
            "listed": [rng.random() < 0.85 for _ in range(3)], "ops": ops}


ANCHORS = ["C1:01", "C2:02", "C3:03"]


def tlv(t, v):
    return bytes([t, len(v)]) + v


def setup_session(u, sid, controller, mac, dst, ms, initiator):
    tl = [tlv(0x00, bytes([controller])), tlv(0x11, bytes([initiator])), tlv(0x01, b"\x02"),
          tlv(0x03, b"\x01"), tlv(0x22, b"\x01"), tlv(0x06, mac), tlv(0x05, bytes([len(dst)])),
          tlv(0x07, b"".join(dst)), tlv(0x09, struct.pack("<I", ms))]
    s = struct.pack("<I", sid)
    for gid, oid, p in ((1, 0, s + b"\0"), (1, 3, s + bytes([len(tl)]) + b"".join(tl)), (2, 0, s)):
        r = u.cmd(gid, oid, p)
        if r[:1] != b"\0":
            raise Skip("session set up answers %s" % r.hex())


def run_ranging(case, ctx):
    w = World(ctx, True)
    try:
        n = case["clients"]
        macs = [bytes([0xE0 + i, i + 1]) for i in range(n)]
        for i in range(n):
            w.connect()
            if w.clients[i][0].cmd(0, 0, b"\0") != b"\0":
                raise Skip("reset fails")

        def http(path, raw, want):
            st = w.http.request(path, raw)[0]
            if st != want:
                raise Skip("%s answers %d" % (path, st))
        for i, p in enumerate(case["start"]):
            if p is not None:
                http("/set-position/" + w.clients[i][1], position_body(p), 200)
                w.scene[w.clients[i][1]][1] = p
        for i, p in enumerate(case["anchors"]):
            http("/create-anchor/" + ANCHORS[i], position_body(p) if p else b"", 200)
            w.scene[ANCHORS[i]] = ["Anchor", p or ZERO]
        listed = [bytes.fromhex(a.replace(":", "")) for a, b in zip(ANCHORS, case["listed"]) if b]
        # everybody in one session: client 0 is the controller and initiator
        roles = list(w.clients)
        for i in range(n):
            dst = (macs[1:] + listed) if i == 0 else [macs[0]] + listed
            setup_session(w.clients[i][0], 7, i == 0, macs[i], dst, case["ms"], i == 0)
        present = [True] * n
        old = None  # the scene before the last change

        def expected(scene, i):
            """address -> (position there, position here) of what client i sees"""
            here = scene[roles[i][1]][1]
            out = {}
            for b in listed:
                a = b.hex(":").upper()
                if a in scene:
                    out[b] = (here, scene[a][1])
            for j in range(n):
                if (j == 0) != (i == 0) and roles[j][1] in scene:
                    out[macs[j]] = (here, scene[roles[j][1]][1])
            return out

        def judge(i, m, scenes):
            """With two scenes, the notification may be made while one turns
            into the other: each estimate follows either of them."""
            _, sid, got = measurements(m)
            want = [expected(s, i) for s in scenes]
            count = Counter(g[0] for g in got)
            if sid != 7:
                raise Violation("notification of session %d" % sid)
            for b in set(count) | {b for w in want for b in w}:
                if all(count[b] != (b in w) for w in want):
                    raise Violation("client %d: %d measurements of %s, present: %s"
                                    % (i, count[b], b.hex(), [b in w for w in want]))
            for a, status, d, az, el, daz, del_ in got:
                pairs = [w[a] for w in want if a in w]
                bads = [check_direction(h, t, d, az, el) for h, t in pairs]
                if not all(bads):
                    bads = [check_direction(t, h, min(65535, math.dist(t[:3], h[:3])), daz, del_) for h, t in pairs]
                if all(bads) or status:
                    raise Violation("client %d: %s at %s seen from %s: %s (status %d)"
                                    % (i, a.hex(), pairs[-1][1], pairs[-1][0], bads[-1], status))
            ctx.add("notifications")
            return True

        def sync(before):
            """Judge what was sent before a barrier with either scene."""
            for i in range(n):
                if not present[i]:
                    continue
                u = roles[i][0]
                if u.cmd(1, 5, b"")[:1] != b"\0":
                    raise Skip("session count fails")
                # notifications received before the answer
                for m in u.messages[:u.answered_at]:
                    if m[0] & 0xef == 0x62 and m[1] == 0:
                        judge(i, m, [before, w.scene] if before is not None else [w.scene])
                del u.messages[:u.answered_at]

        seen = 0

        def rounds(k):
            nonlocal seen
            for i in range(n):
                if not present[i]:
                    continue
                u = roles[i][0]
                for _ in range(k):
                    m = u.wait(lambda m: m[0] & 0xef == 0x62 and m[1] == 0, "a ranging notification")
                    judge(i, m, [w.scene])
                    seen += len(measurements(m)[2])

        # the first notifications may miss clients that were not started yet
        for i in range(n):
            roles[i][0].cmd(1, 5, b"")
            roles[i][0].messages.clear()
        rounds(1)
        for op in case["ops"]:
            before = {a: list(v) for a, v in w.scene.items()}
            if op[0] == "pos" or op[0] == "posbad":
                i = op[1]
                a = roles[i][1] if i < n else ANCHORS[i - n]
                if op[0] == "posbad":
                    w.http.request("/set-position/" + a, INVALID_BODIES[op[2]].encode())
                    continue
                if a not in w.scene:
                    continue
                http("/set-position/" + a, position_body(op[2]), 200)
                w.scene[a][1] = op[2]
                sync(before)
                rounds(1)
            elif op[0] == "rounds":
                rounds(op[1])
            elif op[0] == "create":
                a = ANCHORS[op[1]]
                if a in w.scene:
                    continue
                # an anchor is placed just after it is created
                http("/create-anchor/" + a, position_body(op[2]) if op[2] else b"", 200)
                w.scene[a] = ["Anchor", op[2] or ZERO]
                sync(before)
                rounds(1)
            elif op[0] == "destroy":
                a = ANCHORS[op[1]]
                if a not in w.scene:
                    continue
                http("/destroy-anchor/" + a, b"", 200)
                del w.scene[a]
                sync(before)
                rounds(1)
            elif op[0] == "drop":
                i = op[1]
                if i == 0 or not present[i]:
                    continue
                present[i] = False
                u, a = roles[i]
                w.clients.remove(roles[i])
                {0: u.close, 1: u.reset, 2: lambda: u.s.shutdown(socket.SHUT_WR)}[op[2]]()
                w.extra.append(u)
                w.wait_state(lambda st: True if all(d["mac_address"] != a for d in st) else None,
                             "a closed UCI connection stays in get-state")
                del w.scene[a]
                sync(before)
                rounds(1)
            if not w.prog.alive():
                raise Violation("pica-http stopped: " + w.prog.stderr())
        ctx.add("measurements", seen)
        return seen >= 3
    except Violation as e:
        raise Violation("%s %s" % (e, "" if w.prog.alive() else w.prog.stderr()))
    finally:
        w.close()


def parts(pid):
    if pid == "C20":
        return [Part("geometry", "random scenes whose devices are moved, all pairs compared with the geometry; "
                     "non-trivial: at least 5 moves, one with an orientation", (20000, 400000), (75, 1200),
                     gen_geometry, run_geometry, shrink=shrink_geometry)]
    if pid == "C21":
        import overload, races
        return [scene_part(False), races.part(False), overload.part()]
    if pid == "C22":
        import races
        return [scene_part(True), races.part(True),
                Part("crowd", "scenes of up to 200 devices updated in quick succession, subscribers that read late; "
                     "non-trivial: moves times devices at least 100", (400, 8000), (40, 600), gen_crowd, run_crowd,
                     shrink=shrink_crowd)]
    if pid == "C26":
        return [Part("ranging", "random scenes with 1 to 3 UCI clients and anchors ranging in real time while the "
                     "scene changes; non-trivial: at least 3 measurements", (3000, 60000), (90, 1200),
                     gen_ranging, run_ranging, shrink=shrink_ranging)]
    if pid == "C27":
        return [Part("static", "random paths and query strings on concurrent connections; non-trivial: a static "
                     "file among at least 2 requests", (8000, 200000), (60, 900), gen_static, run_static, shrink=shrink_static)]

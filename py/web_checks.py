"""C30: the web page, run on a stand-in for the browser (web/page.mjs)."""
import json, math, os, re, shutil, subprocess, threading, time
from collections import Counter
from common import Part, Skip, Violation, drop, smaller_values
from net import Http, Program, TIMEOUT, Uci, check_direction, position_body

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIELDS = ("x", "y", "z", "yaw", "pitch", "roll")
# what a page that uses more of the browser than the stand-in offers runs into
BROWSER = re.compile(r"is not a function|is not defined|is not a constructor|does not provide an export")


class Node:
    """A node process that runs pages."""

    def __init__(self):
        exe = shutil.which("node") or "/usr/bin/node"
        self.p = subprocess.Popen([exe, "--no-warnings", "--experimental-vm-modules", os.path.join(HERE, "web", "page.mjs")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def ask(self, what):
        timer = threading.Timer(60, self.p.kill)
        timer.start()
        try:
            self.p.stdin.write(json.dumps(what).encode() + b"\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except OSError:
            line = b""
        finally:
            timer.cancel()
        if not line:
            self.p.wait()
            raise Skip("node has ended")
        r = json.loads(line)
        if "unsupported" in r:
            raise Skip("the page needs more of a browser: " + r["unsupported"])
        if "failed" in r:
            if BROWSER.search(r["failed"]):
                raise Skip("the page needs more of a browser: " + r["failed"])
            raise Violation("the page does not run: " + r["failed"])
        return r

    def close(self):
        self.p.kill()
        self.p.wait()


def node(ctx):
    n = ctx.state.get("node")
    if n is None or n.p.poll() is not None:
        n = ctx.state["node"] = Node()
        ctx.state.setdefault("cleanup", []).append(n.close)
    return n


def marker(pos):
    return (pos["y"] - pos["x"], pos["z"] - pos["y"])


def dev(mac, pos, category="Anchor"):
    return dict({"category": category, "mac_address": mac}, **pos)


class Info:
    """What the information panel shows; None when no device is selected."""

    def __init__(self, view):
        t = view["info"]
        self.text = t
        m = re.search(r"\b((?:[0-9A-Fa-f]{2}:){7}[0-9A-Fa-f]{2}|[0-9A-Fa-f]{2}:[0-9A-Fa-f]{2})\b", t.split("Neighbors")[0])
        self.mac = m.group(1) if m else None
        self.pos = None
        if self.mac:
            n = [re.search(p, t) for p in (r"X: ?(\S+)", r"Y: ?(\S+)", r"Z: ?(\S+)", r"Yaw \((\S+)\)", r"Pitch \((\S+)\)",
                                           r"Roll \((\S+)\)")]
            try:
                self.pos = dict(zip(FIELDS, (int(x.group(1)) for x in n)))
            except (ValueError, AttributeError):
                raise Violation("the panel shows %r" % t)
        self.neighbors = {}
        for text, angles in view["neighbors"]:
            m = re.match(r"^Mac (\S+) Distance (\S+) cm Azimuth (\S+) Elevation (\S+)$", text)
            if not m:
                raise Violation("the panel shows the neighbor %r" % text)
            if m.group(1) in self.neighbors:
                raise Violation("the panel shows the neighbor %s twice" % m.group(1))
            try:
                v = tuple(int(m.group(i)) for i in (2, 3, 4))
            except ValueError:
                raise Violation("the panel shows the neighbor %r" % text)
            check_drawing(angles, -v[1], v[2], "the neighbor %r" % text)
            self.neighbors[m.group(1)] = v
        if self.mac:
            check_drawing(view["own"], self.pos["yaw"], self.pos["pitch"], "the device %s" % self.pos)


def rotated(style, v):
    """The vector after the rotations of a CSS transformation."""
    m = re.search(r"transform:\s*((?:rotate[XYZ]\([^()]*\)\s*)+)", style or "")
    if not m:
        raise Skip("a drawing without rotations: %s" % style)
    for axis, angle in reversed(re.findall(r"rotate([XYZ])\(\s*(-?[\d.e+-]+)deg\s*\)", m.group(1))):
        i = (("XYZ".index(axis)) + 1) % 3
        j = (i + 1) % 3
        c, s = math.cos(math.radians(float(angle))), math.sin(math.radians(float(angle)))
        v = list(v)
        v[i], v[j] = c * v[i] - s * v[j], s * v[i] + c * v[j]
    return v


def check_drawing(d, yaw, pitch, who):
    """The arrow of a drawn orientation points where yaw and pitch say; the
    sectors have their sizes."""
    drawn = d[3]
    y, p = math.radians(yaw), math.radians(pitch)
    # seen from above: yaw 0 is down, positive yaw turns to the right; z is up
    want = (math.sin(y) * math.cos(p), math.cos(y) * math.cos(p), math.sin(p))
    if not drawn["axes"]:
        raise Skip("no drawing of an orientation")
    for style in drawn["axes"]:
        got = rotated(style, (0, -1, 0))
        if max(abs(a - b) for a, b in zip(got, want)) > 1e-6:
            raise Violation("%s: the arrow for yaw %s and pitch %s points to %s instead of %s" % (who, yaw, pitch, got, want))
    flat = (math.sin(y), math.cos(y), 0)
    want = [((0, 1, 0), flat), (flat, want)]
    got = []
    for style, dash in drawn["sectors"]:
        if not dash:
            raise Skip("a sector without a size")
        a = math.radians(float(dash.split()[0]))
        got.append((rotated(style, (1, 0, 0)), rotated(style, (math.cos(a), math.sin(a), 0))))
    for w in want:
        if not any(all(abs(a - b) < 1e-6 for p, q in zip(w, g) for a, b in zip(p, q)) for g in got):
            raise Violation("%s: no sector for yaw %s and pitch %s from %s to %s: %s" % (who, yaw, pitch, *w, got))


def look(view):
    for e in view["errors"]:
        if BROWSER.search(e):
            raise Skip("the page needs more of a browser: " + e)
        raise Violation("an error in the page: " + e)
    for m in view["markers"]:
        if m[0] is None:
            raise Skip("no position of a marker")
    return Info(view)


class Model:
    """What the page should show."""

    def __init__(self, devices):
        self.scene = {}
        for d in devices:
            self.scene[d["mac_address"]] = [{k: d[k] for k in FIELDS}, {}]
        self.selected = None
        self.mode = None
        self.ghost = False  # the device being moved is gone

    def event(self, name, d):
        if name == "device-added":
            self.scene[d["mac_address"]] = [{k: d[k] for k in FIELDS}, {}]
        elif name == "device-updated":
            self.scene[d["mac_address"]][0] = {k: d[k] for k in FIELDS}
        elif name == "device-removed":
            a = d["mac_address"]
            del self.scene[a]
            for _, n in self.scene.values():
                n.pop(a, None)
            if self.selected == a:
                self.selected = None
                self.ghost = self.mode is not None
        else:
            self.scene[d["source_mac_address"]][1][d["destination_mac_address"]] = (d["distance"], d["azimuth"], d["elevation"])

    def check(self, view, op, posts):
        """posts: the expected requests, None when they do not matter"""
        info = look(view)
        want = Counter((*marker(p), a == self.selected) for a, (p, _) in self.scene.items())
        got = Counter((m[0], m[1], m[2]) for m in view["markers"])
        if got != want:
            raise Violation("after %s the map shows %s instead of %s" % (op, sorted(got.elements()), sorted(want.elements())))
        arrows = Counter((*marker(p), p["y"]) for p, _ in self.scene.values() if p["y"] > 0)
        got = Counter((m[0], m[1], n) for m in view["markers"] for n in m[4] if n is not None)
        if arrows - got or sum(len(m[4]) for m in view["markers"]) != sum(p["y"] != 0 for p, _ in self.scene.values()):
            raise Violation("after %s the elevations shown are %s instead of %s"
                            % (op, sorted(got.elements()), sorted(arrows.elements())))
        if any(m[3] != m[2] for m in view["markers"]):
            raise Violation("after %s the markers with a handle are not the selected ones" % op)
        if info.mac != self.selected:
            raise Violation("after %s the panel shows %s instead of %s" % (op, info.mac, self.selected))
        if info.mac:
            pos, neighbors = self.scene[info.mac]
            if info.pos != pos:
                raise Violation("after %s the panel shows %s of %s instead of %s" % (op, info.pos, info.mac, pos))
            if info.neighbors != neighbors:
                raise Violation("after %s the panel shows the neighbors %s of %s instead of %s"
                                % (op, info.neighbors, info.mac, neighbors))
        if posts is not None:
            check_posts(view["posts"], posts, op)


def check_posts(got, want, op):
    try:
        seen = [(m, path, json.loads(body)) for m, path, body, _ in got]
    except (ValueError, TypeError):
        raise Violation("after %s the page requests %s" % (op, got))
    if seen != [("POST", "/set-position/" + a, p) for a, p in want]:
        raise Violation("after %s the page requests %s instead of %s" % (op, seen, want))


def clamp(v):
    return max(-560, min(560, v))


def run_page(case, ctx):
    ops = case["ops"]
    r = node(ctx).ask({"run": {"dir": os.path.join(ctx.settings.repo, "static"), "devices": case["devices"], "ops": ops}})
    m = Model(case["devices"])
    views = r["views"]
    m.check(views[0], "loading", [])
    done = Counter()
    for i, (op, view) in enumerate(zip(ops, views[1:])):
        kind, posts = op[0], []
        # only shrunk cases have these
        if kind == "change" and (i == 0 or ops[i - 1] != ["input", *op[1:]]):
            return False
        if kind in ("down", "handle", "input", "change") and m.mode:
            return False
        if kind == "event":
            if not fits(m, op):
                return False
            m.event(op[1], op[2])
        elif kind == "down":
            if op[1] is None:
                # while something is dragged, the button is already down
                m.selected = None
                m.mode, m.ghost = None, False
            elif m.scene:
                mac = Info(view).mac
                if mac not in m.scene:
                    raise Violation("after %s the panel shows %s, devices %s" % (op, mac, sorted(m.scene)))
                m.selected, m.mode, m.ghost = mac, "drag", False
        elif kind == "handle":
            if m.selected:
                m.mode = "lift"
        elif kind == "move":
            if m.mode and not m.ghost:
                pos = dict(m.scene[m.selected][0])
                if m.mode == "drag":
                    pos["x"], pos["z"] = clamp(pos["y"] - op[1]), clamp(pos["y"] + op[2])
                else:
                    pos["y"] = max(pos["y"] - 2 * op[3], 0)
                m.scene[m.selected][0] = pos
                done["moves"] += 1
        elif kind == "up":
            if m.ghost:
                posts = None
            elif m.mode:
                posts = [(m.selected, m.scene[m.selected][0])]
            m.mode, m.ghost = None, False
        elif m.selected:
            m.scene[m.selected][0] = dict(m.scene[m.selected][0], **{op[1]: op[2]})
            if kind == "change":
                posts = [(m.selected, m.scene[m.selected][0])]
        m.check(view, op, posts)
        done[kind] += 1
        if posts:
            done["requests"] += 1
        if m.selected and m.scene[m.selected][1]:
            done["neighbors shown"] += 1
    for k, n in done.items():
        ctx.add(k, n)
    return done["event"] >= 2 and done["down"] >= 1


def fits(m, op):
    """Can a server announce this? (shrinking drops operations)"""
    d = op[2]
    if op[1] == "device-added":
        return d["mac_address"] not in m.scene
    if op[1] == "neighbor-updated":
        return d["source_mac_address"] in m.scene and d["destination_mac_address"] in m.scene
    return d["mac_address"] in m.scene


def gen_pos(rng, small=False):
    def c():
        k = rng.random()
        return 0 if k < 0.2 else rng.randint(-600, 600) if k < 0.8 or small else rng.randint(-32768, 32767)
    return {"x": c(), "y": c() if rng.random() < 0.3 else rng.randint(0, 300) if rng.random() < 0.7 else 0, "z": c(),
            "yaw": rng.randint(-180, 180), "pitch": rng.randint(-90, 90), "roll": rng.randint(-180, 180)}


def gen_mac(rng):
    n = rng.choice([2, 2, 2, 8])
    return ":".join("%02x" % (rng.randrange(3) if rng.random() < 0.5 else rng.randrange(256)) for _ in range(n))


def gen_input(rng):
    name = rng.choice(("yaw", "pitch", "roll"))
    return name, rng.choice([0, rng.randint(-90, 90), rng.randint(-180, 180) if name != "pitch" else rng.randint(-90, 90)])


def gen_page(rng):
    macs, devices, ops = [], [], []
    for _ in range(rng.randint(0, 5)):
        a = gen_mac(rng)
        if a not in macs:
            macs.append(a)
            devices.append(dev(a, gen_pos(rng), rng.choice(["Uci", "Anchor"])))
    removed = []
    held = None  # the button is down: "map" or "handle"
    for _ in range(rng.randint(2, 40)):
        k = rng.random()
        if k < 0.5:
            e = rng.random()
            if e < 0.25 or not macs:
                a = rng.choice(removed) if removed and rng.random() < 0.4 else gen_mac(rng)
                if a not in macs:
                    macs.append(a)
                    ops.append(["event", "device-added", dev(a, gen_pos(rng), rng.choice(["Uci", "Anchor"]))])
            elif e < 0.4:
                a = macs.pop(rng.randrange(len(macs)))
                removed.append(a)
                ops.append(["event", "device-removed", {"category": rng.choice(["Uci", "Anchor"]), "mac_address": a}])
            elif e < 0.65 or len(macs) < 2:
                ops.append(["event", "device-updated", dev(rng.choice(macs), gen_pos(rng), rng.choice(["Uci", "Anchor"]))])
            else:
                a, b = rng.sample(macs, 2)
                ops.append(["event", "neighbor-updated", {
                    "source_category": "Uci", "source_mac_address": a, "destination_category": "Anchor",
                    "destination_mac_address": b, "distance": rng.choice([0, rng.randrange(65536)]),
                    "azimuth": rng.choice([0, rng.randint(-180, 180)]), "elevation": rng.choice([0, rng.randint(-90, 90)])}])
        elif held:
            if k < 0.8:
                ops.append(["move", rng.randint(-700, 700), rng.randint(-700, 700), rng.randint(-60, 60)])
            else:
                ops.append(["up"])
                held = None
        elif k < 0.72:
            ops.append(["down", None if rng.random() < 0.1 else rng.randrange(8)])
            held = ops[-1][1] is not None
            if held and rng.random() < 0.4:
                ops.append(["up"])
                held = None
        elif k < 0.8:
            ops.append(["handle"])
            held = True
        elif k < 0.85:
            ops.append(["move", rng.randint(-700, 700), rng.randint(-700, 700), rng.randint(-60, 60)])
        else:
            name, v = gen_input(rng)
            for _ in range(rng.randint(0, 2)):
                ops.append(["input", name, gen_input(rng)[1] // 2])
            ops.append(["input", name, v])
            if rng.random() < 0.9:
                ops.append(["change", name, v])
    return {"devices": devices, "ops": ops}


def shrink_page(case):
    for ops in drop(case["ops"]):
        yield dict(case, ops=ops)
    for d in drop(case["devices"]):
        yield dict(case, devices=d)
    for ops in smaller_values(case["ops"]):
        yield dict(case, ops=ops)


# ------------------------------------------------------- over a real pica-http

class Live:
    def __init__(self, ctx):
        self.node = node(ctx)
        self.prog = Program(ctx, ctx.settings.exe["pica-http"], http=True)
        self.http = Http(self.prog.web)
        self.clients = {}
        self.near = set()   # pairs with a neighbor update since the page is open
        self.open = False

    def close(self):
        try:
            if self.open:
                self.node.ask({"close": 0})
        except (Skip, Violation):
            pass
        self.http.close()
        for u in self.clients.values():
            u.close()
        self.prog.stop()

    def wait(self, test, what):
        end = time.time() + TIMEOUT
        delay = 0.001
        while True:
            view = self.node.ask({"view": 0})
            why = test(view)
            if why is None:
                return view
            if time.time() > end:
                raise Violation("%s: %s" % (what, why))
            time.sleep(delay)
            delay = min(delay * 2, 0.05)

    def state(self):
        return {d["mac_address"]: {k: d[k] for k in FIELDS} for d in self.http.state()}

    def settled(self, what):
        st = self.state()
        want = Counter(marker(p) for p in st.values())

        def test(view):
            look(view)
            got = Counter((m[0], m[1]) for m in view["markers"])
            if got != want:
                return "the map shows %s instead of %s" % (sorted(got.elements()), sorted(want.elements()))
            info = Info(view)
            if info.mac and st.get(info.mac) != info.pos:
                return "the panel shows %s %s instead of %s" % (info.mac, info.pos, st.get(info.mac))
            if info.mac:
                for b, v in info.neighbors.items():
                    if b not in st:
                        return "the panel of %s shows the neighbor %s, which does not exist" % (info.mac, b)
                    bad = check_direction([st[info.mac][k] for k in FIELDS], [st[b][k] for k in FIELDS], *v)
                    if bad and (info.mac, b) in self.near:
                        return "the neighbor %s of %s: %s" % (b, info.mac, bad)
                for a, b in self.near:
                    if a == info.mac and b not in info.neighbors:
                        return "the panel of %s does not show the neighbor %s" % (a, b)
            return None

        self.wait(test, what)
        return st

    def updated(self, mac):
        for b in self.state():
            if b != mac:
                self.near |= {(mac, b), (b, mac)}

    def forget(self, mac):
        self.near = {p for p in self.near if mac not in p}


def steps(op):
    """What a user does with the mouse."""
    if op[0] == "drag":
        return [["down", op[1]]] + ([["move", *op[2], 0]] if op[2] else []) + [["up"]]
    if op[0] == "lift":
        return [["handle"], ["move", 0, 0, op[1]], ["up"]]
    return [["input", op[1], op[2]], ["change", op[1], op[2]]]


def run_live(case, ctx):
    live = Live(ctx)
    done = Counter()
    try:
        for i, op in enumerate(case):
            what = "after %s" % op
            kind = op[0]
            st = live.state()
            anchors = sorted(a for a in st if a not in live.clients)
            if kind == "open" or i == len(case) - 1 and not live.open:
                if not live.open:
                    live.node.ask({"open": {"port": live.prog.web}})
                    live.open = True
            elif kind == "create":
                if op[1] in st:
                    continue
                live.http.request("/create-anchor/" + op[1], position_body([op[2][k] for k in FIELDS]))
            elif kind == "destroy":
                if not anchors:
                    continue
                a = anchors[op[1] % len(anchors)]
                live.http.request("/destroy-anchor/" + a)
                live.forget(a)
            elif kind == "set":
                if not st:
                    continue
                a = sorted(st)[op[1] % len(st)]
                live.http.request("/set-position/" + a, position_body([op[2][k] for k in FIELDS]))
                if live.open:
                    live.updated(a)
            elif kind == "connect":
                if len(live.clients) >= 3:
                    continue
                u = Uci(live.prog.uci)
                end = time.time() + TIMEOUT
                while True:
                    new = set(live.state()) - set(st)
                    if new:
                        live.clients[new.pop()] = u
                        break
                    if time.time() > end:
                        raise Skip("a UCI connection is not in get-state")
                    time.sleep(0.001)
            elif kind == "disconnect":
                if not live.clients:
                    continue
                a = sorted(live.clients)[op[1] % len(live.clients)]
                live.clients.pop(a).close()
                end = time.time() + TIMEOUT
                while a in live.state():
                    if time.time() > end:
                        raise Skip("a closed UCI connection is in get-state")
                    time.sleep(0.001)
                live.forget(a)
            else:
                if not live.open:
                    continue
                for step in steps(op):
                    view = live.node.ask({"op": step})
                    info = look(view)
                posts = view["posts"]
                selected = info.mac is not None
                # by now the page may show the orientation as the server rounds it
                if len(posts) != selected or posts and posts[0][1] != "/set-position/" + info.mac:
                    raise Violation("%s the page requests %s (selected: %s)" % (what, posts, info.mac))
                if posts:
                    # the scene follows, as the server rounds it
                    live.updated(info.mac)
                    got = live.state().get(info.mac)
                    if got is None or any(got[k] != info.pos[k] for k in FIELDS[:3]):
                        raise Violation("%s the scene has %s at %s instead of %s" % (what, info.mac, got, info.pos))
                    done["requests"] += 1
            if live.open:
                live.settled(what)
            done[kind] += 1
            if not live.prog.alive():
                raise Skip("pica-http has ended")
        if live.open:
            # every device
            st = live.settled("at the end")
            for i in range(len(st)):
                live.node.ask({"op": ["down", i]})
                live.node.ask({"op": ["up"]})
                live.settled("at the end, with device %d selected" % i)
    finally:
        live.close()
    for k, n in done.items():
        ctx.add(k, n)
    return sum(done.values()) >= 3


def gen_live(rng):
    ops = []
    at = rng.randrange(6)
    for i in range(rng.randint(4, 25)):
        if i == at:
            ops.append(["open"])
        k = rng.random()
        if k < 0.2:
            ops.append(["create", gen_mac(rng), gen_pos(rng, True)])
        elif k < 0.28:
            ops.append(["destroy", rng.randrange(8)])
        elif k < 0.45:
            ops.append(["set", rng.randrange(8), gen_pos(rng, True)])
        elif k < 0.55:
            ops.append(["connect"])
        elif k < 0.62:
            ops.append(["disconnect", rng.randrange(8)])
        elif k < 0.85:
            ops.append(["drag", rng.randrange(8), rng.choice([None, [rng.randint(-600, 600), rng.randint(-600, 600)]])])
        elif k < 0.92:
            ops.append(["lift", rng.randint(-60, 60)])
        else:
            name, v = gen_input(rng)
            ops.append(["turn", name, v])
    return ops


def parts(pid):
    return [Part("page", "random events of a server and actions of a user; non-trivial: 2 events and a selection",
                 (12000, 400000), (40, 900), gen_page, run_page, shrink=shrink_page),
            Part("live", "random requests, connections and actions of a user over a running pica-http; non-trivial: 3 of "
                 "them", (400, 20000), (45, 900), gen_live, run_live, shrink=drop)]

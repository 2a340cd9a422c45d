"""Programs under test and their network interfaces, seen from outside."""
import json, math, os, socket, struct, subprocess, tempfile, time
from common import Skip, Violation

TIMEOUT = 20.0  # a thing that has not happened by then does not happen


def listening(ports):
    """Are all these TCP ports listened on (without connecting to them)?"""
    found = set()
    try:
        with open("/proc/net/tcp") as f:
            for line in f.readlines()[1:]:
                w = line.split()
                if w[3] == "0A":
                    found.add(int(w[1].split(":")[1], 16))
    except OSError:
        return None
    return all(p in found for p in ports)


def rst_close(s):
    try:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    except OSError:
        pass
    s.close()


class Program:
    """pica or pica-http on ports of its own."""

    def __init__(self, ctx, exe, http=False, args=(), before=None, env=None):
        self.dir = None
        for attempt in range(30):
            n = ctx.state["port"] = ctx.state.get("port", 0) + 2
            base = 11000 + ctx.worker * 2400 + (n + os.getpid() * 2) % 2400
            self.uci, self.web = base, base + 1
            if not all(self.free(p) for p in (self.uci, self.web)):
                continue
            cmd = [exe, "--uci-port", str(self.uci)] + (["--web-port", str(self.web)] if http else [])
            environ = dict(os.environ, RUST_LOG="off" if n % 4 else "trace", RUST_BACKTRACE="0", **(env or {}))
            self.err = tempfile.TemporaryFile()
            self.p = subprocess.Popen(cmd + list(args), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                      stderr=self.err, env=environ, preexec_fn=before)
            end = time.time() + TIMEOUT
            while time.time() < end and self.p.poll() is None:
                r = listening([self.uci] + ([self.web] if http else []))
                if r:
                    return
                if r is None:
                    time.sleep(0.5)
                    return
                time.sleep(0.003)
            self.stop()
        raise Violation("the program does not start listening")

    @staticmethod
    def free(port):
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        try:
            s.bind(("127.0.0.1", port))
            return True
        except OSError:
            return False
        finally:
            s.close()

    def stderr(self):
        self.err.seek(0)
        return self.err.read().decode(errors="replace")[-600:]

    def alive(self):
        return self.p.poll() is None

    def stop(self):
        self.p.kill()
        self.p.wait()
        self.err.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stop()


class Http:
    """A keep-alive HTTP connection."""

    def __init__(self, port):
        self.port = port
        self.s = None
        self.buf = b""

    def close(self):
        if self.s:
            self.s.close()
        self.s, self.buf = None, b""

    def send(self, path, body=b"", method=None, raw=False):
        if self.s is None:
            self.s = socket.create_connection(("127.0.0.1", self.port), TIMEOUT)
            self.s.settimeout(TIMEOUT)
        method = method or ("POST" if body else "GET")
        if isinstance(path, str):
            path = path.encode()
        self.s.sendall(b"%s %s HTTP/1.1\r\nHost: localhost\r\nContent-Length: %d\r\n\r\n"
                       % (method.encode(), path, len(body)) + body)

    def more(self):
        try:
            d = self.s.recv(1 << 18)
        except socket.timeout:
            raise Violation("no answer to an HTTP request within %g s" % TIMEOUT)
        except OSError as e:
            raise Violation("the HTTP connection is broken off: %s" % e)
        if not d:
            raise Violation("the HTTP connection is closed without an answer")
        self.buf += d

    def headers(self):
        while b"\r\n\r\n" not in self.buf:
            self.more()
        head, self.buf = self.buf.split(b"\r\n\r\n", 1)
        lines = head.split(b"\r\n")
        status = int(lines[0].split(b" ")[1])
        h = {}
        for x in lines[1:]:
            k, v = x.split(b":", 1)
            h[k.strip().lower().decode()] = v.strip().decode("latin1")
        return status, h

    def response(self):
        status, h = self.headers()
        if "content-length" in h:
            n = int(h["content-length"])
            while len(self.buf) < n:
                self.more()
            body, self.buf = self.buf[:n], self.buf[n:]
        elif h.get("transfer-encoding") == "chunked":
            body = b""
            while True:
                while b"\r\n" not in self.buf:
                    self.more()
                size, self.buf = self.buf.split(b"\r\n", 1)
                n = int(size, 16)
                while len(self.buf) < n + 2:
                    self.more()
                body += self.buf[:n]
                self.buf = self.buf[n + 2:]
                if n == 0:
                    break
        else:
            body = b""
        if h.get("connection") == "close":
            self.close()
        return status, h, body

    def request(self, path, body=b"", method=None):
        self.send(path, body, method)
        return self.response()

    def state(self):
        status, _, body = self.request("/get-state")
        if status != 200:
            raise Violation("get-state answers %d" % status)
        try:
            return json.loads(body)["devices"]
        except (ValueError, KeyError, TypeError):
            raise Violation("get-state answers %r" % body[:200])


class Subscriber:
    """A subscription to /events; `events` are the (name, data) received."""

    def __init__(self, port):
        self.h = Http(port)
        self.h.send("/events")
        status, head = self.h.headers()
        if status != 200 or head.get("content-type") != "text/event-stream":
            raise Violation("/events answers %d %s" % (status, head))
        self.chunked = head.get("transfer-encoding") == "chunked"
        self.raw, self.h.buf = self.h.buf, b""
        self.text = b""
        self.events = []
        self.h.s.setblocking(False)
        self.done = False

    def pump(self):
        while not self.done:
            try:
                d = self.h.s.recv(1 << 18)
            except BlockingIOError:
                break
            except OSError as e:
                raise Violation("the event stream is broken off: %s" % e)
            if not d:
                self.done = True
                break
            self.raw += d
        if not self.chunked:
            self.text += self.raw
            self.raw = b""
        while b"\r\n" in self.raw:
            size, rest = self.raw.split(b"\r\n", 1)
            n = int(size, 16)
            if n == 0:
                self.done = True
                break
            if len(rest) < n + 2:
                break
            self.text += rest[:n]
            self.raw = rest[n + 2:]
        while b"\n\n" in self.text:
            block, self.text = self.text.split(b"\n\n", 1)
            lines = block.split(b"\n")
            if (len(lines) != 2 or not lines[0].startswith(b"event: ") or not lines[1].startswith(b"data: ")):
                raise Violation("malformed server-sent event %r" % block[:200])
            try:
                self.events.append((lines[0][7:].decode(), json.loads(lines[1][6:])))
            except ValueError:
                raise Violation("malformed server-sent event %r" % block[:200])

    def wait(self, pred, what):
        end = time.time() + TIMEOUT
        delay = 0.0005
        while True:
            self.pump()
            r = pred(self.events)
            if r is not None:
                return r
            if self.done:
                raise Violation("the event stream ended while waiting for %s" % what)
            if time.time() > end:
                raise Violation("%s is not announced within %g s" % (what, TIMEOUT))
            time.sleep(delay)
            delay = min(delay * 1.5, 0.01)

    def close(self):
        self.h.close()


class Uci:
    """A UCI client."""

    def __init__(self, port):
        self.s = socket.create_connection(("127.0.0.1", port), TIMEOUT)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s.settimeout(TIMEOUT)
        self.buf = b""
        self.packets = []   # as received
        self.messages = []  # reassembled, not yet consumed
        self.sent = []
        self.part = b""
        self.eof = False

    def pump(self, timeout):
        """Read what there is, waiting at most `timeout` for something."""
        if self.eof:
            return False
        self.s.settimeout(max(timeout, 0.0001))
        try:
            d = self.s.recv(1 << 18)
        except (socket.timeout, BlockingIOError):
            return False
        except OSError:
            d = b""
        if not d:
            self.eof = True
            return False
        self.buf += d
        while len(self.buf) >= 4:
            mt = self.buf[0] >> 5
            n = 4 + (self.buf[3] if mt else self.buf[2] | self.buf[3] << 8)
            if len(self.buf) < n:
                break
            p, self.buf = self.buf[:n], self.buf[n:]
            self.packets.append(p)
            if p[0] & 0x10:
                self.part = (self.part or bytes([p[0] & 0xef]) + p[1:4]) + p[4:]
            else:
                self.messages.append(self.part + p[4:] if self.part else p)
                self.part = b""
        return True

    def send(self, data):
        try:
            self.s.settimeout(TIMEOUT)
            self.s.sendall(data)
        except OSError as e:
            raise Violation("the UCI connection is broken off: %s" % e)
        self.sent.append(data)

    def cmd(self, gid, oid, payload=b"", segment=255):
        for i in range(0, max(len(payload), 1), segment):
            part = payload[i:i + segment]
            pbf = 0x10 if i + segment < len(payload) else 0
            self.send(bytes([0x20 | pbf | gid, oid, 0, len(part)]) + part)
        end = time.time() + TIMEOUT
        while True:
            for i, m in enumerate(self.messages):
                if m[0] >> 5 == 2:
                    if m[0] & 15 != gid or m[1] & 63 != oid:
                        raise Violation("command %x/%x is answered by %s" % (gid, oid, m.hex()))
                    self.answered_at = i
                    del self.messages[i]
                    return m[4:]
            if self.eof or time.time() > end:
                raise Violation("no answer to command %x/%x" % (gid, oid))
            self.pump(0.5)

    def wait(self, pred, what, timeout=TIMEOUT):
        end = time.time() + timeout
        while True:
            for i, m in enumerate(self.messages):
                if pred(m):
                    return self.messages.pop(i)
            if self.eof or time.time() > end:
                raise Violation("%s does not arrive" % what)
            self.pump(0.2)

    def close(self):
        self.s.close()

    def reset(self):
        rst_close(self.s)


def measurements(m):
    """(sequence number, session, [(address, status, distance, azimuth,
    elevation, azimuth and elevation at the destination)])"""
    seq, sid = struct.unpack_from("<II", m, 4)
    mode, n, p = m[19], m[28], 29
    size = 8 if mode else 2
    out = []
    if m[17] != 1 or len(m) < p + 31 * n:
        raise Violation("malformed ranging notification %s" % m.hex())
    for _ in range(n):
        a = m[p:p + size]
        status, nlos, d, az, _, el, _, daz, _, del_, _ = struct.unpack_from("<BBHhBhBhBhB", m, p + size)
        out.append((a, status, d, az, el, daz, del_))
        p += 31
    return seq, sid, out


# ---------------------------------------------------------------- geometry

def mat(yaw, pitch, roll):
    """Rotation about Y by yaw, then X by pitch, then Z by roll."""
    y, p, r = (math.radians(v) for v in (yaw, pitch, roll))
    cy, sy, cp, sp, cr, sr = math.cos(y), math.sin(y), math.cos(p), math.sin(p), math.cos(r), math.sin(r)
    # Ry
    a = ((cy, 0, sy), (0, 1, 0), (-sy, 0, cy))
    b = ((1, 0, 0), (0, cp, -sp), (0, sp, cp))
    c = ((cr, -sr, 0), (sr, cr, 0), (0, 0, 1))
    return mul(c, mul(b, a))


def mul(a, b):
    return tuple(tuple(sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)) for i in range(3))


def check_direction(here, there, distance, azimuth, elevation):
    """None, or what is wrong with the measurement of `there` seen from `here`
    (positions: x, y, z, yaw, pitch, roll)."""
    d = [there[i] - here[i] for i in range(3)]
    n = math.sqrt(sum(v * v for v in d))
    if abs(distance - min(n, 65535)) > 1.05:
        return "distance %d instead of %.2f" % (distance, n)
    if not -180 <= azimuth <= 180 or not -90 <= elevation <= 90:
        return "direction (%d, %d) out of range" % (azimuth, elevation)
    if n == 0:
        return None
    m = mat(*here[3:])
    x, y, z = (sum(m[i][k] * d[k] for k in range(3)) for i in range(3))
    h = math.hypot(x, z)
    el = math.degrees(math.atan2(y, h))
    if abs(elevation - el) > 0.55:
        return "elevation %d instead of %.2f" % (elevation, el)
    if h > n * 2e-4:
        az = math.degrees(math.atan2(x, z))
        diff = abs(azimuth - az) % 360
        if min(diff, 360 - diff) > 0.55 + 0.003 * n / h:
            return "azimuth %d instead of %.2f" % (azimuth, az)
    return None


def same_rotation(a, b, degrees=1.3):
    """Do two (yaw, pitch, roll) describe the same orientation?"""
    p, q = mat(*a), mat(*b)
    trace = sum(p[i][k] * q[i][k] for i in range(3) for k in range(3))
    return math.degrees(math.acos(max(-1.0, min(1.0, (trace - 1) / 2)))) <= degrees


def position_body(p):
    return json.dumps(dict(zip(("x", "y", "z", "yaw", "pitch", "roll"), p))).encode()

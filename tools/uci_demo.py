"""Minimal UCI client used by the demonstrations (copied beside each of them)."""
import os, socket, struct, subprocess, sys, tempfile, time


def free_port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p


class Server:
    def __init__(self, http=False, args=()):
        self.port = free_port(); self.web = free_port()
        exe = "./target/debug/pica-http" if http else "./target/debug/pica"
        cmd = [exe, "--uci-port", str(self.port)] + (["--web-port", str(self.web)] if http else []) + list(args)
        self.p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for _ in range(200):
            try:
                socket.create_connection(("127.0.0.1", self.web if http else self.port), 1).close(); break
            except OSError:
                time.sleep(0.05)
        time.sleep(0.1)
    def __enter__(self): return self
    def __exit__(self, *a): self.p.kill(); self.p.wait()


class Client:
    def __init__(self, server):
        self.s = socket.create_connection(("127.0.0.1", server.port), 5)
        self.s.settimeout(0.02); self.buf = b""; self.part = None; self.packets = []; self.ntf = []; self.data = []; self.t = []
    def pump(self, wait):
        """Collect complete messages during `wait` seconds."""
        out = []; end = time.time() + wait
        while True:
            while len(self.buf) >= 4:
                mt = self.buf[0] >> 5
                n = self.buf[3] if mt else struct.unpack("<H", self.buf[2:4])[0]
                if len(self.buf) < 4 + n: break
                p, self.buf = self.buf[:4 + n], self.buf[4 + n:]
                self.packets.append(p)
                self.part = p if self.part is None else self.part + p[4:]
                if not p[0] & 0x10:
                    out.append(self.part); self.part = None
            if time.time() > end: return out
            try:
                d = self.s.recv(65536)
                if not d: return out
                self.buf += d
            except TimeoutError: pass
    def send(self, gid, oid, payload=b""):
        self.s.sendall(bytes([0x20 | gid, oid, 0, len(payload)]) + payload)
    def cmd(self, gid, oid, payload=b"", wait=3.0):
        """Response payload; notifications are kept in self.ntf."""
        self.send(gid, oid, payload); end = time.time() + wait
        while time.time() < end:
            r = None
            for m in self.pump(0.02):
                if m[0] >> 5 == 2 and m[0] & 15 == gid and m[1] & 63 == oid and r is None: r = m[4:]
                elif m[0] >> 5 == 0: self.data.append(m)
                else: self.ntf.append(m); self.t.append(time.time())
            if r is not None: return r
        return None
    def wait(self, secs):
        for m in self.pump(secs):
            if m[0] >> 5 == 0: self.data.append(m)
            else: self.ntf.append(m); self.t.append(time.time())
    def reset(self): assert self.cmd(0, 0, b"\0") == b"\0"; self.wait(0.05)
    def init(self, sid, typ=0): return self.cmd(1, 0, struct.pack("<IB", sid, typ))
    def setapp(self, sid, tlvs):
        p = struct.pack("<IB", sid, len(tlvs)) + b"".join(bytes([i, len(v)]) + v for i, v in tlvs)
        return self.cmd(1, 3, p)
    def getapp(self, sid, ids): return self.cmd(1, 4, struct.pack("<IB", sid, len(ids)) + bytes(ids))
    def start(self, sid): return self.cmd(2, 0, struct.pack("<I", sid))
    def stop(self, sid): return self.cmd(2, 1, struct.pack("<I", sid))
    def deinit(self, sid): return self.cmd(1, 1, struct.pack("<I", sid))
    def state(self, sid): return self.cmd(1, 6, struct.pack("<I", sid))
    def count(self, sid): return self.cmd(2, 3, struct.pack("<I", sid))
    def multi(self, sid, action, addrs):
        p = struct.pack("<IBB", sid, action, len(addrs)) + b"".join(a + b"\0\0\0\0" for a in addrs)
        return self.cmd(1, 7, p)
    def send_data(self, sid, data, seq=1):
        p = struct.pack("<IQHH", sid, 1, seq, len(data)) + data
        self.s.sendall(bytes([1, 0]) + struct.pack("<H", len(p)) + p)
    def setup(self, sid, mac, dst, controller=True, initiator=True, duration=100, typ=0, extra=(), start=True):
        assert self.init(sid, typ) == b"\0", "init"
        t = [(0, bytes([controller])), (1, b"\2"), (3, b"\1"), (0x11, bytes([initiator])), (0x22, b"\1"), (6, mac),
             (5, bytes([len(dst)])), (7, b"".join(dst)), (9, struct.pack("<I", duration))] + list(extra)
        r = self.setapp(sid, t); assert r == b"\0\0", ("setapp", r)
        if start: assert self.start(sid) == b"\0", "start"
    def infos(self, sid=None):
        return [m for m in self.ntf if m[0] == 0x62 and m[1] == 0 and (sid is None or m[8:12] == struct.pack("<I", sid))]


def http(server, path, body=None):
    """(status, text) of a POST to the web interface."""
    import json, urllib.error, urllib.request
    data = b"" if body is None else (body if isinstance(body, bytes) else json.dumps(body).encode())
    try:
        with urllib.request.urlopen(urllib.request.Request(f"http://127.0.0.1:{server.web}{path}", data=data), timeout=5) as r:
            return r.status, r.read().decode()
    except urllib.error.HTTPError as e:
        return e.code, e.read().decode()


def scene(server):
    import json
    return sorted(json.loads(http(server, "/get-state")[1])["devices"], key=lambda d: d["mac_address"])


def pos(x=0, y=0, z=0, yaw=0, pitch=0, roll=0):
    return dict(x=x, y=y, z=z, yaw=yaw, pitch=pitch, roll=roll)


class Events:
    """Server-sent events of the web interface, collected in a thread."""
    def __init__(self, server):
        import threading
        self.s = socket.create_connection(("127.0.0.1", server.web), 5)
        self.s.sendall(b"GET /events HTTP/1.1\r\nHost: x\r\n\r\n"); self.raw = b""
        threading.Thread(target=self.loop, daemon=True).start(); time.sleep(0.2)
    def loop(self):
        try:
            self.s.settimeout(None)
            while d := self.s.recv(65536): self.raw += d
        except OSError: pass
    def all(self, wait=0.3):
        import json, re
        time.sleep(wait)
        return [(n.decode(), json.loads(d)) for n, d in re.findall(rb"event: ([\w-]+)\ndata: (\{.*?\})\n", self.raw)]

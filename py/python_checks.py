"""C24 and C25: the Python host library and the console."""
import asyncio, contextlib, importlib, io, json, os, random, select, socket, struct, subprocess, sys, tempfile, threading, time
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
import pdl
from codec_checks import python_codec, python_object, python_values, comparable
from common import Part, Skip, Violation, drop, smaller_values

L = pdl.Layout()
CONTROL = [n for n in L.leaves if L.chain(n)[0].name == "ControlPacket"]
DATA = [n for n in L.leaves if L.chain(n)[0].name == "DataPacket"]
LIMIT = 20.0


def library(ctx):
    uci = python_codec(ctx)
    return importlib.import_module("pica"), uci


# ------------------------------------------------------------------- C24
#
# case: {"packets": [[bytes of the message, [segment sizes]]], "chunks": [n],
#        "cut": number of bytes not sent (or None), "socket": bool}

def segments(message, sizes):
    """The packets a control message is sent in."""
    head, payload = message[:2], message[4:]
    out = []
    for n in sizes:
        n = min(n, 255)
        if len(payload) > n:
            out.append(bytes([head[0] | 0x10, head[1], 0, n]) + payload[:n])
            payload = payload[n:]
    while len(payload) > 255:
        out.append(bytes([head[0] | 0x10, head[1], 0, 255]) + payload[:255])
        payload = payload[255:]
    out.append(bytes([head[0] & 0xef, head[1], 0, len(payload)]) + payload)
    return out


def gen_message(rng):
    k = rng.random()
    if k < 0.25:
        n = rng.choice([0, 1, 2, 10, 255, 256, 257, 1024, 4000, rng.randint(0, 300), 65535 if rng.random() < 0.1 else 7])
        b = bytes(rng.getrandbits(8) for _ in range(n))
        head = bytes([rng.choice([1, 2, 1, 2, rng.randrange(16)]), rng.getrandbits(8)])
        return [list(head + struct.pack("<H", n) + b), []]
    if k < 0.6:
        name = rng.choice(CONTROL)
        m = L.encode(name, L.generate(rng, name))
    else:
        # any control message
        n = rng.choice([0, 0, 1, 3, 254, 255, 256, 300, 511, 700, rng.randint(0, 40)])
        m = bytes([rng.choice([1, 2, 3]) << 5 | rng.randrange(16), rng.randrange(64), 0, 0]) + bytes(
            rng.getrandbits(8) for _ in range(n))
    sizes = []
    if rng.random() < 0.5:
        sizes = [rng.choice([0, 1, 2, 3, 100, 255, rng.randint(0, 60)]) for _ in range(rng.randint(1, 6))]
    return [list(m), sizes]


def gen_reader(rng):
    packets = [gen_message(rng) for _ in range(rng.randint(0, 12))]
    if rng.random() < 0.02:
        # many messages that nobody has asked for yet
        few = [m for m in packets if len(m[0]) < 60 and not m[1]] or [[[0x61, 2, 0, 0], []]]
        packets += [rng.choice(few) for _ in range(rng.choice([40, 130, 300, 1100]))]
        packets += [gen_message(rng) for _ in range(rng.randint(1, 4))]
    style = rng.random()
    if style < 0.2:
        chunks = []
    elif style < 0.4:
        chunks = [1] * rng.randint(1, 60)
    else:
        chunks = [rng.choice([1, 2, 3, 4, 5, 7, 50, 255, 259, 600, rng.randint(1, 1500)]) for _ in range(rng.randint(1, 40))]
    cut = rng.randint(1, 600) if rng.random() < 0.4 else None
    return {"packets": packets, "chunks": chunks, "cut": cut, "socket": rng.random() < 0.2, "close": rng.random() < 0.7,
            "data_first": rng.random() < 0.5}


def wire(packets):
    """[(bytes, (queue, expected message) when it is complete)]"""
    out = []
    for m, sizes in packets:
        m = bytes(m)
        if m[0] >> 5 == 0:
            out.append((m, ("data", m)))
        else:
            s = segments(m, sizes)
            for x in s[:-1]:
                out.append((x, None))
            out.append((s[-1], ("control", m)))
    return out


def same(kind, got, want):
    got = bytes(got)
    if kind == "data":
        return got == want
    # the length of a reassembled message is not defined
    return got[:2] == bytes([want[0] & 0xef, want[1]]) and got[4:] == want[4:] and len(got) >= 4


def run_reader(case, ctx):
    pica, uci = library(ctx)
    items = wire(case["packets"])
    stream = b"".join(b for b, _ in items)
    end = len(stream) - (case["cut"] or 0)
    end = max(end, 0)
    want = {"control": [], "data": []}
    off = 0
    for b, what in items:
        off += len(b)
        if what and off <= end:
            want[what[0]].append(what[1])
    stream = stream[:end]
    pieces, off = [], 0
    for n in case["chunks"]:
        if off < len(stream):
            pieces.append(stream[off:off + n])
            off += n
    if off < len(stream):
        pieces.append(stream[off:])
    with contextlib.redirect_stdout(io.StringIO()):
        asyncio.run(asyncio.wait_for(reader_case(pica, pieces, want, case), 3 * LIMIT))
    ctx.add("messages", len(want["control"]) + len(want["data"]))
    ctx.add("segments", len(items) - len(case["packets"]))
    return len(want["control"]) + len(want["data"]) >= 2 and len(pieces) >= 2


class Writer:
    def __init__(self):
        self.data = bytearray()
        self.closed = False

    def write(self, b):
        self.data += b

    def writelines(self, l):
        for b in l:
            self.data += b

    async def drain(self):
        pass

    def close(self):
        self.closed = True

    def is_closing(self):
        return self.closed

    async def wait_closed(self):
        pass


async def received(host, kind, what):
    get = host._recv_control if kind == "control" else host._recv_data
    try:
        return await asyncio.wait_for(get(), LIMIT)
    except asyncio.TimeoutError:
        raise Violation("%s is not delivered" % what)


async def reader_case(pica, pieces, want, case):
    server = None
    if case["socket"]:
        peers = asyncio.Queue()

        async def accept(r, w):
            await peers.put((r, w))

        server = await asyncio.start_server(accept, "127.0.0.1", 0)
        host = await pica.Host.connect("127.0.0.1", server.sockets[0].getsockname()[1], b"\0\1")
        _, w = await peers.get()

        async def feed(b):
            w.write(b)
            await w.drain()
            await asyncio.sleep(0.0005)

        eof = w.close
    else:
        reader = asyncio.StreamReader()
        host = pica.Host(reader, Writer(), b"\0\1")

        async def feed(b):
            reader.feed_data(b)
            for _ in range(3):
                await asyncio.sleep(0)

        eof = reader.feed_eof
    try:
        for b in pieces:
            await feed(b)
        if case["close"]:
            eof()
        for kind in ("data", "control") if case.get("data_first") else ("control", "data"):
            for i, m in enumerate(want[kind]):
                got = await received(host, kind, "%s message %d (%s)" % (kind, i, m[:16].hex()))
                if not same(kind, got, m):
                    raise Violation("%s message %d is delivered as %s(%d) instead of %s(%d)" % (
                        kind, i, bytes(got)[:24].hex(), len(got), m[:24].hex(), len(m)))
        if case["close"]:
            t0 = time.time()
            while not host.reader_task.done():
                if time.time() - t0 > LIMIT:
                    raise Violation("the reader does not stop when the connection is closed")
                await asyncio.sleep(0.001)
        else:
            for _ in range(5):
                await asyncio.sleep(0)
            if host.reader_task.done():
                raise Violation("the reader stops although the connection is open")
        for q, name in ((host.control_queue, "control"), (host.data_queue, "data")):
            if not q.empty():
                raise Violation("an additional %s message %s is delivered" % (name, bytes(q.get_nowait())[:24].hex()))
    finally:
        host.disconnect()
        if server:
            w.close()
            server.close()
        await asyncio.sleep(0)


# case: [[op, ...]] with
#   ["send", name, values]              send a packet
#   ["arrive", bytes]                   a message arrives
#   ["expect", queue, kind, name, values]   kind: class, value

def gen_expect(rng):
    ops = []
    for _ in range(rng.randint(1, 14)):
        k = rng.random()
        name = rng.choice(CONTROL if rng.random() < 0.75 else DATA)
        v = L.generate(rng, name)
        if name in DATA and "application_data" in v and rng.random() < 0.1:
            n = rng.choice([255, 256, 1024, 4096, 8192, 10000, 32768, 65000, rng.randint(0, 65000)])
            v["application_data"] = list(rng.randbytes(n))
        if k < 0.25:
            ops.append(["send", name, v])
        elif k < 0.65:
            b = L.encode(name, v)
            other = rng.random()
            if other < 0.15:
                # not well formed
                b = bytearray(L.mutate(rng, b))
                b = (bytes(b) + b"\0\0\0\0")[:max(4, len(b))]
                first = L.encode(name, v)[0]
                b = bytes([first & 0xe0 | b[0] & 0x0f]) + b[1:]
            ops.append(["arrive", list(b)])
            if rng.random() < 0.8:
                what = rng.random()
                q = "control" if name in CONTROL else "data"
                if what < 0.35:
                    ops.append(["expect", q, "class", name, None])
                elif what < 0.7:
                    ops.append(["expect", q, "value", name, v])
                elif what < 0.85:
                    w = L.generate(rng, name)
                    if rng.random() < 0.7 and v:
                        # a difference in a single field
                        w = dict(v)
                        f = rng.choice(sorted(v))
                        w[f] = L.generate(rng, name)[f]
                    ops.append(["expect", q, "value", name, w])
                else:
                    other = rng.choice(CONTROL if q == "control" else DATA)
                    ops.append(["expect", q, rng.choice(["class", "class", "value"]), other, L.generate(rng, other)])
        else:
            q = "control" if name in CONTROL else "data"
            kind = rng.choice(["class", "value"])
            if rng.random() < 0.2:
                up = rng.choice(L.chain(name)[:-1]).name
                ops.append(["expect", q, "class", up, None])
            else:
                ops.append(["expect", q, kind, name, v])
    return ops


def shrink_expect(case):
    yield from drop(case)
    for i, op in enumerate(case):
        if op[0] == "arrive":
            for b in drop(op[1]):
                if len(b) >= 4:
                    yield case[:i] + [["arrive", b]] + case[i + 1:]


def run_expect(case, ctx):
    pica, uci = library(ctx)
    with contextlib.redirect_stdout(io.StringIO()):
        r = asyncio.run(asyncio.wait_for(expect_case(pica, uci, case, ctx), 3 * LIMIT))
    return r


def python_leaf(root, b):
    """The class a message is read as: a well formed answer of either version
    is ambiguous, nothing is said about it."""
    return L.leaf(root, b)


async def expect_case(pica, uci, case, ctx):
    reader, writer = asyncio.StreamReader(), Writer()
    host = pica.Host(reader, writer, b"\0\1")
    queues = {"control": [], "data": []}
    sent = bytearray()
    n = 0
    try:
        for op in case:
            if op[0] == "send":
                name, v = op[1], op[2]
                b = bytearray(L.encode(name, v))
                size = len(b) - 4
                if name in CONTROL:
                    if size > 255:
                        continue
                    b[3] = size
                    host.send_control(python_object(uci, name, v))
                else:
                    if size > 65535:
                        continue
                    b[2:4] = struct.pack("<H", size)
                    host.send_data(python_object(uci, name, v))
                sent += b
                if writer.data != sent:
                    raise Violation("%s is sent as %s instead of %s" % (
                        name, bytes(writer.data[len(sent) - len(b):]).hex(), bytes(b).hex()))
                ctx.add("sent")
                n += 1
            elif op[0] == "arrive":
                b = bytes(op[1])
                if b[0] >> 5 > 3:
                    continue
                queue = "data" if b[0] >> 5 == 0 else "control"
                if queue == "data":
                    b = bytes([b[0] & 0xef, b[1]]) + struct.pack("<H", len(b) - 4) + b[4:]
                    reader.feed_data(b)
                else:
                    b = bytes([b[0] & 0xef]) + b[1:]
                    for s in segments(b, []):
                        reader.feed_data(s)
                queues[queue].append(b)
                for _ in range(4):
                    await asyncio.sleep(0)
            else:
                _, queue, kind, name, v = op
                waiting = queues[queue]
                root = "DataPacket" if queue == "data" else "ControlPacket"
                cls = getattr(uci, name)
                # arrays of bytes are lists in the packets received
                expected = cls if kind == "class" else python_object(uci, name, v, list)
                f = host.expect_data if queue == "data" else host.expect_control
                timeout = LIMIT if waiting else 0.002
                m = waiting.pop(0) if waiting else None
                try:
                    r, result = await f(expected, timeout), None
                except (ValueError, asyncio.TimeoutError) as e:
                    r, result = None, e
                except Exception as e:
                    raise Violation("expect_%s(%s) raises %r" % (queue, name, e))
                if m is None:
                    if not isinstance(result, asyncio.TimeoutError):
                        raise Violation("expect_%s(%s) without message: %r %r" % (queue, name, r, result))
                    ctx.add("timeouts")
                    continue
                leaf = L.leaf(root, m)
                if leaf != LENIENT_LEAF(root, m) or leaf in ("SessionInitRsp", "SessionInitRsp_V2"):
                    continue  # see C28
                match = leaf is not None and name in [d.name for d in L.chain(leaf)]
                if match and kind == "value":
                    got, want = comparable(leaf, L.decode(leaf, m)), comparable(name, v)
                    match = leaf == name and got == want
                    if leaf == name and not match and without_payload(got) == without_payload(want):
                        continue  # the payload is not compared by the generated classes
                if match and result is not None:
                    raise Violation("expect_%s(%s %s) refuses %s: %r" % (queue, name, v if kind == "value" else "", m.hex(), result))
                if not match and not isinstance(result, ValueError):
                    raise Violation("expect_%s(%s %s) on %s: %r %r instead of a ValueError" % (
                        queue, name, v if kind == "value" else "", m.hex(), r, result))
                if match:
                    got = python_values(r, leaf)
                    # the length bytes of a reassembled message are not constrained
                    # and belong to the payload of the packets of unknown kinds
                    alike = [m] + [m[:3] + bytes([k]) + m[4:] for k in range(256)]
                    if type(r).__name__ != leaf or not any(
                            comparable(leaf, got) == comparable(leaf, L.decode(leaf, a)) for a in alike):
                        raise Violation("expect_%s returns %s for %s" % (queue, got, m.hex()))
                    ctx.add("matches")
                    n += 1
                else:
                    ctx.add("mismatches")
                    n += 1
    finally:
        host.disconnect()
        await asyncio.sleep(0)
    return n >= 2


def without_payload(values):
    return {k: v for k, v in values.items() if k != "payload"}


def LENIENT_LEAF(root, m):
    from codec_checks import LENIENT
    return LENIENT.leaf(root, m)


# ------------------------------------------------------------------- C25

HTTP_DEFAULT = {"x": 0, "y": 0, "z": 0, "yaw": 0, "pitch": 0, "roll": 0}


def le32(n):
    return list(struct.pack("<I", n))


def number(rng, bits):
    return rng.choice([0, 1, (1 << bits) - 1, rng.getrandbits(bits), rng.randrange(min(1 << bits, 300))])


def text_mac(b):
    return ":".join("%02x" % x for x in b)


def gen_command(rng):
    """[line, kind, expected]"""
    def sid():
        # absent: the default
        return None if rng.random() < 0.15 else number(rng, 32)

    def line(cmd, args):
        positional = rng.random() < 0.2 and all(v is not None for _, v in args)
        args = [(k, v) for k, v in args if v is not None]
        if rng.random() < 0.3:
            rng.shuffle(args)
            positional = False
        words = [cmd] + [("%s" % v if positional else "%s=%s" % (k, v)) for k, v in args]
        return (" " * rng.choice([1, 1, 1, 2])).join(words)

    k = rng.choice(["device_reset", "get_device_info", "get_caps_info", "get_config", "set_config", "session_init",
                    "session_deinit", "session_set_app_config", "session_get_app_config", "session_get_count",
                    "session_get_state", "session_update_controller_multicast_list", "range_start", "range_stop",
                    "get_ranging_count", "session_set_app_config", "session_update_controller_multicast_list",
                    "data_transfer", "http", "http", "bad"])

    def uci(cmd, args, gid, oid, payload):
        return [line(cmd, args), "uci", [0x20 | gid, oid, 0, len(payload)] + payload]

    plain = {"device_reset": (0, 0, [0]), "get_device_info": (0, 2, []), "get_caps_info": (0, 3, []),
             "get_config": (0, 5, [2, 1, 0]), "session_get_count": (1, 5, [])}
    if k in plain:
        g, o, p = plain[k]
        return uci(k, [], g, o, p)
    one = {"session_deinit": (1, 1), "session_get_state": (1, 6), "range_start": (2, 0), "range_stop": (2, 1),
           "get_ranging_count": (2, 3)}
    s = sid()
    if k in one:
        return uci(k, [("session_id", s)], *one[k], le32(s or 0))
    if k == "session_init":
        return uci(k, [("session_id", s)], 1, 0, le32(s or 0) + [1])
    if k == "session_get_app_config":
        return uci(k, [("session_id", s)], 1, 4, le32(s or 0) + [1, 9])
    if k == "set_config":
        v = rng.choice([None, 0, 1, 255, rng.randrange(256)])
        return uci(k, [("low_power_mode", v)], 0, 4, [1, 1, 1, v or 0])
    if k == "session_set_app_config":
        t = rng.choice([None, number(rng, 32)])
        n = rng.choice([0, 1, 2, 3, 8, rng.randint(0, 20)])
        wide = rng.random() < 0.3
        addrs = [[rng.getrandbits(8) for _ in range(8 if wide and rng.random() < 0.7 else 2)] for _ in range(n)]
        extended = any(len(a) > 2 for a in addrs)
        size = 8 if extended else 2
        enc = [x for a in addrs for x in a + [0] * (size - len(a))]
        args = [("session_id", s), ("ranging_interval", t),
                ("dst_mac_addresses", ",".join(text_mac(a) for a in addrs) if addrs or rng.random() < 0.2 else None)]
        p = le32(s or 0) + [4, 0x26, 1, 2 if extended else 0, 9, 4] + le32(200 if t is None else t) + \
            [5, 1, n, 7, len(enc)] + enc
        if len(p) > 255:
            return gen_command(rng)
        return uci(k, args, 1, 3, p)
    if k == "session_update_controller_multicast_list":
        a = rng.choice([None, "add", "remove"])
        m = rng.choice([None, number(rng, 16)])
        sub = rng.choice([None, number(rng, 32)])
        p = le32(s or 0) + [1 if a == "remove" else 0, 1] + list(struct.pack("<H", m or 0)) + le32(sub or 0)
        return uci(k, [("session_id", s), ("action", a), ("mac_address", m), ("subsession_id", sub)], 1, 7, p)
    if k == "data_transfer":
        size = rng.choice([0, 1, 1023, 1024, 1025, 2047, 2048, 2049, 3072, 5000, rng.randint(0, 1024)])
        if rng.random() < 0.04:
            size = rng.randint(100000, 600000)
        mac = [rng.getrandbits(8) for _ in range(rng.choice([2, 2, 8]))]
        return [line("data_transfer", [("dst_mac_address", text_mac(mac)), ("file_name", "@FILE@"), ("session_id", s)]),
                "data", [s or 0, mac, size, rng.getrandbits(30)]]
    if k == "bad":
        if rng.random() < 0.3:
            return ["session_update_controller_multicast_list session_id=1 action=xyz", "uci", []]
        if rng.random() < 0.3:
            return ["", "uci", []]
        return [rng.choice(["foo", "help", "range_sta", "session_init2"]) + rng.choice(["", " a=1", " 3"]), "uci", []]
    # pica_*
    what = rng.choice(["get-state", "init-uci-device", "create-anchor", "set-position", "destroy-anchor"])
    cmd = "pica_" + what.replace("-", "_")
    if what == "get-state":
        return [cmd, "http", ["GET", "/get-state", None]]
    a = text_mac([rng.getrandbits(8) for _ in range(rng.choice([2, 2, 8]))])
    if what == "destroy-anchor":
        return [line(cmd, [("mac_address", a)]), "http", ["POST", "/destroy-anchor/" + a, None]]
    pos = {f: rng.choice([0, 1, -1, 90, -180, rng.randint(-32768, 32767)]) for f in HTTP_DEFAULT if rng.random() < 0.6}
    args = [("mac_address", a)] + sorted(pos.items(), key=lambda x: list(HTTP_DEFAULT).index(x[0]))
    words = [cmd] + ["%s=%s" % x for x in args]
    return [" ".join(words), "http", ["POST", "/%s/%s" % (what, a), dict(HTTP_DEFAULT, **pos)]]


def gen_console(rng):
    ops = []
    for _ in range(rng.randint(3, 40)):
        if rng.random() < 0.12:
            name = rng.choice(CONTROL)
            b = L.encode(name, L.generate(rng, name, False))
            if len(b) <= 259:
                b = b[:3] + bytes([len(b) - 4]) + b[4:]
                ops.append(["", "ntf", list(b)])
        else:
            ops.append(gen_command(rng))
    return ops


class Stub:
    """Stands in for pica-http; outlives the consoles."""

    def __init__(self):
        self.requests = []
        stub = self

        class Handler(BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def do(self):
                n = int(self.headers.get("content-length") or 0)
                body = self.rfile.read(n)
                stub.requests.append((self.command, self.path, body))
                out = b'{"devices": []}' if self.path == "/get-state" else b"success"
                self.send_response(200)
                self.send_header("content-length", str(len(out)))
                self.end_headers()
                self.wfile.write(out)

            do_GET = do_POST = do

            def log_message(self, *a):
                pass

        self.server = ThreadingHTTPServer(("127.0.0.1", 0), Handler)
        threading.Thread(target=self.server.serve_forever, daemon=True).start()
        self.port = self.server.server_address[1]


def python_exe():
    return "/usr/local/bin/python3-vt" if os.path.exists("/usr/local/bin/python3-vt") else sys.executable


def expected_data(op):
    """The data packets of a transfer, for both byte orders of the address."""
    s, mac, size, seed = op
    data = random.Random(seed).randbytes(size)
    out = []
    for order in ("big", "little"):
        dst = int.from_bytes(bytes(mac), order).to_bytes(8, "little")
        parts = [data[i:i + 1024] for i in range(0, size, 1024)] or [b""]
        b = b""
        for i, p in enumerate(parts):
            body = struct.pack("<I", s) + dst + struct.pack("<HH", i, len(p)) + p
            b += bytes([0x01 | (0x10 if i < len(parts) - 1 else 0), 0]) + struct.pack("<H", len(body)) + body
        out.append(b)
    return out


def response(cmd):
    """What a controller answers."""
    gid, oid = cmd[0] & 15, cmd[1]
    body = {(0, 2): [0, 0, 2, 1, 1, 3, 1, 0, 1, 0], (0, 3): [0, 0], (0, 4): [0, 0], (0, 5): [0, 2, 1, 1, 0, 0, 1, 1],
            (1, 3): [0, 0], (1, 4): [0, 1, 9, 4, 200, 0, 0, 0], (1, 5): [0, 1], (1, 6): [0, 3], (1, 7): [0, 0],
            (2, 3): [0, 1, 0, 0, 0]}.get((gid, oid), [0])
    return bytes([0x40 | gid, oid, 0, len(body)] + body)


def run_console(case, ctx):
    stub = ctx.state.get("stub")
    if stub is None:
        stub = ctx.state["stub"] = Stub()
    stub.requests.clear()
    srv = socket.socket()
    srv.bind(("127.0.0.1", 0))
    srv.listen(1)
    d = tempfile.mkdtemp(prefix="pica-verif-console-")
    repo = ctx.settings.repo
    env = dict(os.environ, PYTHONPATH=os.path.join(repo, "py", "pica"), PYTHONDONTWRITEBYTECODE="1", TERM="dumb",
               PYTHONUNBUFFERED="1", NO_PROXY="*")
    p = subprocess.Popen([python_exe(), os.path.join(repo, "py", "pica", "console.py"), "--uci-port",
                          str(srv.getsockname()[1]), "--http-port", str(stub.port)], cwd=d, env=env,
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = bytearray()
    reader = threading.Thread(target=drain, args=(p.stdout, out), daemon=True)
    reader.start()
    conn = None
    try:
        srv.settimeout(LIMIT)
        try:
            conn, _ = srv.accept()
        except OSError:
            p.kill()
            p.wait()
            reader.join(2)
            raise Violation("the console does not connect: %s" % out.decode(errors="replace")[-400:])
        conn.settimeout(LIMIT)
        printed = []
        n = 0
        for i, (line, kind, what) in enumerate(case):
            if kind == "ntf":
                conn.sendall(bytes(what))
                printed.append(bytes(what))
                continue
            before = len(stub.requests)
            if kind == "data":
                with open(os.path.join(d, "data%d" % i), "wb") as f:
                    f.write(random.Random(what[3]).randbytes(what[2]))
                line = line.replace("@FILE@", "data%d" % i)
                want = expected_data(what)
            elif kind == "uci":
                want = [bytes(what)]
            else:
                want = [b""]
            send_line(p, line, out)
            # a probe shows that nothing else is sent, and that the console goes on
            probe = bytes([0x20, 2, 0, 0])
            send_line(p, "get_device_info", out)
            got = bytearray()
            need = {len(w) for w in want}
            while len(got) < max(need) + 4:
                try:
                    b = conn.recv(65536)
                except OSError:
                    b = b""
                if not b:
                    break
                got += b
            if not any(got == w + probe for w in want):
                p.poll()
                raise Violation("command %r sends %s instead of %s%s" % (
                    line, short(got), short(want[0] + probe), "; it prints " + out.decode(errors="replace")[-300:]))
            if kind == "http":
                reqs = stub.requests[before:]
                method, path, body = what
                ok = len(reqs) == 1 and reqs[0][0] == method and reqs[0][1] == path
                if ok and body is not None:
                    try:
                        ok = json.loads(reqs[0][2]) == body
                    except ValueError:
                        ok = False
                if not ok:
                    raise Violation("command %r requests %s instead of %s" % (line, reqs, what))
                ctx.add("http")
            elif len(stub.requests) != before:
                raise Violation("command %r requests %s" % (line, stub.requests[before:]))
            else:
                ctx.add(kind)
            if kind == "uci" and what:
                conn.sendall(response(what))
                printed.append(response(what))
            conn.sendall(response(probe))
            printed.append(response(probe))
            n += 1
        # everything received is displayed
        end = time.time() + LIMIT
        while not shown(out, printed):
            if time.time() > end or p.poll() is not None:
                raise Violation("the packets received are displayed as %s" % out.decode(errors="replace")[-600:])
            time.sleep(0.002)
        send_line(p, "quit" if len(case) % 2 else "q", out)
        try:
            p.wait(LIMIT)
        except subprocess.TimeoutExpired:
            raise Violation("the console does not quit")
        reader.join(5)
        if p.returncode != 0 or b"Traceback" in out:
            raise Violation("the console ends with status %s: %s" % (p.returncode, out.decode(errors="replace")[-400:]))
        return n >= 3
    finally:
        p.kill()
        p.wait()
        reader.join(5)
        p.stdin.close()
        p.stdout.close()
        srv.close()
        if conn:
            conn.close()
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


def drain(f, out):
    try:
        while True:
            b = os.read(f.fileno(), 65536)
            if not b:
                return
            out += b
    except (OSError, ValueError):
        pass


def send_line(p, line, out):
    try:
        p.stdin.write(line.encode() + b"\n")
        p.stdin.flush()
    except OSError:
        time.sleep(0.1)
        raise Violation("the console has ended before %r: %s" % (line, out.decode(errors="replace")[-400:]))


def short(b):
    b = bytes(b)
    return b[:60].hex() + ("..(%d)" % len(b) if len(b) > 60 else "")


def shown(out, packets):
    """Are the bytes of the packets displayed, in order?"""
    text = bytes(out).decode(errors="replace")
    pos = 0
    for p in packets:
        head = "Received UCI packet [%d]" % len(p)
        pos = text.find(head, pos)
        if pos < 0:
            return False
        pos += len(head)
        for i in range(0, len(p), 16):
            row = " ".join("%02x" % x for x in p[i:i + 16])
            nxt = text.find(row, pos)
            if nxt < 0:
                return False
            pos = nxt + len(row)
    return True


def parts(pid):
    if pid == "C24":
        return [Part("reader", "random control messages in random segments and data messages, in random chunks, cut and "
                     "closed anywhere; non-trivial: 2 complete messages in 2 chunks", (20000, 400000), (45, 900),
                     gen_reader, run_reader),
                Part("expect", "random sequences of sent packets, arriving messages and expectations; non-trivial: 2 "
                     "packets sent or expectations decided", (12000, 300000), (45, 900),
                     gen_expect, run_expect, shrink=shrink_expect)]
    return [Part("commands", "random lists of console commands with random arguments, against a stand-in controller and "
                 "HTTP server; non-trivial: at least 3 commands", (1500, 30000), (70, 1200),
                 gen_console, run_console, shrink=drop)]

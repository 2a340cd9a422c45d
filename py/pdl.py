"""An interpreter of packet layouts: reads the PDL text of the expected layout
and encodes, decodes and generates packets accordingly. It is the reference the
generated codecs are compared with; it shares no code with them.

Values of a packet: a dictionary of its fields (those fixed by a constraint
excluded), enumerations as integers, structures as dictionaries, arrays as
lists, absent optional fields as None, the payload as "payload".
"""
import os, re

LAYOUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "uci_layout.pdl")


class Reject(Exception):
    pass


class Enum:
    def __init__(self, name, width):
        self.name, self.width = name, width
        self.tags, self.ranges, self.open = {}, [], False
        self.top = set()  # tags outside ranges

    def valid(self, v):
        return self.open or v in self.values or any(a <= v <= b for a, b in self.ranges)

    def close(self):
        self.values = set(self.tags.values())


class Field:
    def __init__(self, kind, name=None, width=None, type=None, length=None, value=None, cond=None):
        self.kind, self.name, self.width, self.type = kind, name, width, type
        self.length, self.value, self.cond = length, value, cond


class Decl:
    def __init__(self, kind, name, parent, constraints):
        self.kind, self.name, self.parent, self.constraints = kind, name, parent, constraints
        self.fields, self.children = [], []


class Layout:
    def __init__(self, path=LAYOUT):
        text = re.sub(r"//.*", "", open(path).read())
        self.tok = re.findall(r"\w+|\.\.|[{}()\[\]:,=]", text)
        self.i = 0
        self.enums, self.decls = {}, {}
        while self.i < len(self.tok):
            t = self.next()
            if t == "little_endian_packets":
                continue
            if t == "enum":
                self.enum()
            elif t in ("packet", "struct"):
                self.decl(t)
            else:
                raise ValueError(t)
        for e in self.enums.values():
            e.close()
        for d in self.decls.values():
            if d.parent:
                self.decls[d.parent].children.append(d.name)
        for d in self.decls.values():
            for f in d.fields:
                if f.kind == "typed":
                    f.kind = "enum" if f.type in self.enums else "struct"
            d.fixed = {}
            p = d
            while p:
                for k, v in p.constraints.items():
                    d.fixed[k] = self.enums[self.field_type(p, k)].tags[v]
                p = self.decls.get(p.parent)
        self.leaves = [d.name for d in self.decls.values() if d.kind == "packet" and not d.children]

    def field_type(self, d, name):
        while d:
            for f in d.fields:
                if f.name == name:
                    return f.type
            d = self.decls.get(d.parent)
        raise KeyError(name)

    # ------------------------------------------------------------ reading

    def next(self, expect=None):
        t = self.tok[self.i]
        self.i += 1
        if expect and t != expect:
            raise ValueError("%s instead of %s" % (t, expect))
        return t

    def peek(self):
        return self.tok[self.i]

    def tags(self, e, top=True):
        self.next("{")
        while self.peek() != "}":
            name = self.next()
            self.next("=")
            if self.peek() == "..":
                self.next()
                e.open = True
            else:
                a = int(self.next(), 0)
                if self.peek() == "..":
                    self.next()
                    e.ranges.append((a, int(self.next(), 0)))
                    if self.peek() == "{":
                        self.tags(e, False)
                else:
                    e.tags[name] = a
                    if top:
                        e.top.add(name)
            if self.peek() == ",":
                self.next()
        self.next("}")

    def enum(self):
        name = self.next()
        self.next(":")
        e = self.enums[name] = Enum(name, int(self.next()))
        self.tags(e)

    def decl(self, kind):
        name, parent, cons = self.next(), None, {}
        if self.peek() == ":":
            self.next()
            parent = self.next()
            if self.peek() == "(":
                self.next()
                while self.peek() != ")":
                    k = self.next()
                    self.next("=")
                    cons[k] = self.next()
                    if self.peek() == ",":
                        self.next()
                self.next()
        d = self.decls[name] = Decl(kind, name, parent, cons)
        self.next("{")
        while self.peek() != "}":
            d.fields.append(self.field())
            if self.peek() == ",":
                self.next()
        self.next("}")

    def field(self):
        t = self.next()
        if t in ("_payload_", "_body_"):
            return Field("payload")
        if t == "_fixed_":
            self.next("=")
            v = int(self.next(), 0)
            self.next(":")
            return Field("fixed", width=int(self.next()), value=v)
        if t == "_reserved_":
            self.next(":")
            return Field("reserved", width=int(self.next()))
        if t in ("_count_", "_size_"):
            self.next("(")
            of = self.next()
            self.next(")")
            self.next(":")
            return Field(t.strip("_"), name="payload" if of == "_body_" else of, width=int(self.next()))
        self.next(":")
        what = self.next()
        f = Field("scalar", name=t, width=int(what)) if what.isdigit() else Field("typed", name=t, type=what)
        if self.peek() == "[":
            self.next()
            if self.peek() != "]":
                f.length = int(self.next())
            self.next("]")
            f.kind = "array"
        if self.peek() == "if":
            self.next()
            k = self.next()
            self.next("=")
            f.cond = (k, int(self.next()))
        return f

    # ----------------------------------------------------------- encoding

    def chain(self, name):
        """From the root to the packet."""
        d, v = self.decls[name], []
        while d:
            v.insert(0, d)
            d = self.decls.get(d.parent)
        return v

    def encode(self, name, values):
        payload = values.get("payload")
        for d in reversed(self.chain(name)):
            payload = self.encode_fields(d, dict(values, **self.decls[name].fixed), payload)
        return payload

    def encode_fields(self, d, values, payload):
        out, acc, bits = bytearray(), 0, 0
        hidden = {}
        for f in d.fields:
            if f.cond:
                if (values.get(f.name) is not None):
                    hidden[f.cond[0]] = f.cond[1]
        blobs = {}
        for f in d.fields:
            if f.kind == "array":
                blobs[f.name] = b"".join(self.element(f, x) for x in values[f.name])
        if payload is not None:
            blobs["payload"] = bytes(payload)
        for f in d.fields:
            v = None
            if f.kind in ("scalar", "enum"):
                w = f.width or self.enums[f.type].width
                if f.cond:
                    if values.get(f.name) is None:
                        continue
                    v = values[f.name]
                else:
                    v = hidden[f.name] if f.name in hidden else values[f.name]
            elif f.kind == "fixed":
                v, w = f.value, f.width
            elif f.kind == "reserved":
                v, w = 0, f.width
            elif f.kind == "count":
                v, w = len(values[f.name]), f.width
            elif f.kind == "size":
                v, w = len(blobs[f.name]), f.width
            if v is not None:
                if v >> w:
                    raise ValueError("%s does not fit" % f.name)
                acc |= v << bits
                bits += w
                while bits >= 8:
                    out.append(acc & 0xff)
                    acc >>= 8
                    bits -= 8
                continue
            assert bits == 0
            if f.kind == "struct":
                out += self.encode(f.type, values[f.name])
            else:
                out += blobs["payload" if f.kind == "payload" else f.name]
        return bytes(out)

    def element(self, f, x):
        if f.type in self.decls:
            return self.encode(f.type, x)
        w = f.width or self.enums[f.type].width
        return x.to_bytes(w // 8, "little")

    # ----------------------------------------------------------- decoding

    def decode(self, name, data):
        """All the fields, from all the bytes."""
        values, rest = self.decode_chain(name, bytes(data))
        if rest:
            raise Reject("trailing bytes")
        return values

    def decode_chain(self, name, data):
        values, rest, first = {}, b"", True
        for d in self.chain(name):
            values.pop("payload", None)
            left = self.decode_fields(d, data, values)
            for k, v in d.constraints.items():
                if values.get(k) != self.enums[self.field_type(d, k)].tags[v]:
                    raise Reject(k)
            if first:
                rest = left
            elif left:
                raise Reject("trailing bytes")
            first = False
            data = values.get("payload", b"")
        for k in self.decls[name].fixed:
            values.pop(k, None)
        if "payload" in values:
            values["payload"] = list(values["payload"])
        return values, rest

    def decode_fields(self, d, data, values):
        acc = bits = 0
        known = {}

        def take(n, what="short"):
            nonlocal data
            if len(data) < n:
                raise Reject(what)
            r, data = data[:n], data[n:]
            return r

        for f in d.fields:
            w = None
            if f.kind in ("scalar", "fixed", "reserved", "count", "size"):
                w = f.width
            elif f.kind == "enum":
                w = self.enums[f.type].width
            if w is not None:
                if f.cond and known[f.cond[0]] != f.cond[1]:
                    values[f.name] = None
                    continue
                while bits < w:
                    acc |= take(1, "short, optional" if f.cond else "short")[0] << bits
                    bits += 8
                v = acc & ((1 << w) - 1)
                acc >>= w
                bits -= w
                if f.kind == "fixed" and v != f.value:
                    raise Reject("fixed")
                if f.kind == "enum" and not self.enums[f.type].valid(v):
                    raise Reject(f.name)
                if f.kind in ("count", "size"):
                    known[(f.kind, f.name)] = v
                elif f.kind in ("scalar", "enum"):
                    known[f.name] = v
                    if not any(g.cond and g.cond[0] == f.name for g in d.fields):
                        values[f.name] = v
                continue
            assert bits == 0
            if f.kind == "struct":
                values[f.name], data = self.decode_chain(f.type, data)
            elif f.kind == "payload":
                n = known.get(("size", "payload"), len(data))
                values["payload"] = take(n)
            else:
                count = f.length if f.length is not None else known.get(("count", f.name))
                if ("size", f.name) in known:
                    part = take(known[("size", f.name)])
                    values[f.name], left = self.elements(f, part, None)
                else:
                    values[f.name], data = self.elements(f, data, count)
        return data

    def elements(self, f, data, count):
        if f.width == 8:
            n = len(data) if count is None else count
            if len(data) < n:
                raise Reject("short")
            return list(data[:n]), data[n:]
        out = []
        while data if count is None else len(out) < count:
            if f.type in self.decls:
                v, data = self.decode_chain(f.type, data)
            else:
                w = (f.width or self.enums[f.type].width) // 8
                if len(data) < w:
                    raise Reject("short")
                v, data = int.from_bytes(data[:w], "little"), data[w:]
                if f.type and not self.enums[f.type].valid(v):
                    raise Reject(f.name)
            out.append(v)
        return out, data

    def leaf(self, root, data):
        """The most specific packet a byte string is, or None: children are
        looked for as long as they can be decoded."""
        try:
            self.decode(root, data)
        except Reject:
            return None
        name = root
        while True:
            for c in self.decls[name].children:
                try:
                    self.decode(c, data)
                except Reject:
                    continue
                name = c
                break
            else:
                return name

    # --------------------------------------------------------- generation

    def number(self, rng, w):
        k = rng.random()
        if k < 0.15:
            return 0
        if k < 0.3:
            return (1 << w) - 1
        if k < 0.4:
            return 1 << rng.randrange(w)
        if k < 0.5:
            return rng.randrange(min(1 << w, 16))
        return rng.getrandbits(w)

    def member(self, rng, e):
        e = self.enums[e]
        if (e.open or e.ranges) and rng.random() < 0.3:
            if e.open:
                return rng.getrandbits(e.width)
            a, b = rng.choice(e.ranges)
            return rng.choice([a, b, rng.randint(a, b)])
        return rng.choice(sorted(e.values))

    def count(self, rng, limit, big):
        k = rng.random()
        if k < 0.2:
            return 0
        if k < 0.8 or not big:
            return min(limit, rng.randint(1, 4))
        return min(limit, rng.choice([5, 8, 16, 31, rng.randint(5, 60), limit if limit <= 300 else 300]))

    def generate(self, rng, name, big=True):
        """Random values of all the fields of a packet or structure."""
        values = {}
        fixed = self.decls[name].fixed
        for d in self.chain(name):
            limits = {f.name: (1 << f.width) - 1 for f in d.fields if f.kind in ("count", "size")}
            conds = {f.cond[0] for f in d.fields if f.cond}
            choice = {c: rng.randrange(2) for c in sorted(conds)}
            for f in d.fields:
                if f.name in fixed or f.name in conds or f.kind in ("count", "size", "fixed", "reserved"):
                    continue
                if f.cond:
                    values[f.name] = self.number(rng, f.width) if choice[f.cond[0]] == f.cond[1] else None
                elif f.kind == "scalar":
                    values[f.name] = self.number(rng, f.width)
                elif f.kind == "enum":
                    values[f.name] = self.member(rng, f.type)
                elif f.kind == "struct":
                    values[f.name] = self.generate(rng, f.type, False)
                elif f.kind == "array":
                    n = f.length if f.length is not None else self.count(rng, limits.get(f.name, 300), big)
                    if f.type in self.decls:
                        n = min(n, 40)
                        values[f.name] = [self.generate(rng, f.type, False) for _ in range(n)]
                    elif f.type:
                        values[f.name] = [self.member(rng, f.type) for _ in range(n)]
                    else:
                        values[f.name] = [rng.getrandbits(f.width) for _ in range(n)]
            if any(f.kind == "payload" for f in d.fields):
                values["payload"] = None
        if "payload" in values:
            own = any(f.kind == "payload" for f in self.decls[name].fields)
            if own:
                values["payload"] = [rng.getrandbits(8) for _ in range(self.count(rng, 255, big))]
            else:
                del values["payload"]
        return values

    def mutate(self, rng, data):
        b = bytearray(data)
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            k = rng.randrange(6)
            if k == 0 and b:
                b[rng.randrange(len(b))] = rng.getrandbits(8)
            elif k == 1 and b:
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            elif k == 2:
                del b[rng.randrange(len(b) + 1):]
            elif k == 3:
                b += bytes(rng.getrandbits(8) for _ in range(rng.randint(1, 5)))
            elif k == 4 and b:
                del b[rng.randrange(len(b))]
            elif b:
                i = rng.randrange(len(b))
                b[i] = rng.choice([0, 1, 2, 0x7f, 0x80, 0xff, (b[i] + 1) & 255, (b[i] - 1) & 255])
        return bytes(b)

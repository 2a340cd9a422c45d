"""C23 and C28: the packet codecs against the expected layout and each other."""
import importlib, os, re, subprocess, sys
import pdl
from common import Part, Skip, Violation, drop

L = pdl.Layout()
# answers of both versions of SESSION_INIT_RSP have the same header
# the Python library lets these reserved identifiers through
RESERVED = {"AppConfigTlvType": {0x1c, 0x1e, 0x33, 0x34, 0x36, 0x37, 0x38, 0x39}}
LENIENT = pdl.Layout()
for _e, _v in RESERVED.items():
    LENIENT.enums[_e].values |= _v
AMBIGUOUS = {"SessionInitRsp", "SessionInitRsp_V2"}
ROOTS = [d.name for d in L.decls.values() if d.children and not d.parent]


def root_of(name):
    return L.chain(name)[0].name


class Panic(Violation):
    pass


class Bridge:
    def __init__(self, exe):
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        # {enum: {text: number}}, {enum: {number}}
        self.names, self.table = {}, {}
        for item in self.ask("e").split("|"):
            if not item:
                continue
            e, v, n, d = item.split("\t")
            self.table.setdefault(e, {})[int(v)] = int(n)
            self.names.setdefault(e, {}).setdefault(d, set()).add(int(v))

    def ask(self, line):
        self.p.stdin.write(line.encode() + b"\n")
        self.p.stdin.flush()
        r = self.p.stdout.readline()
        if not r:
            raise Violation("the codec stops the process on %s" % line[:300])
        return r.decode().rstrip("\n")

    def close(self):
        self.p.kill()
        self.p.wait()


# --------------------------------------------------- reading Debug output

TOKEN = re.compile(r"\w+|[{}()\[\],:]")


def debug_tree(text):
    """int, [..], {"": name, field: value}, ("name", [args])"""
    tok = TOKEN.findall(text)
    i = 0

    def value():
        nonlocal i
        t = tok[i]
        i += 1
        if t == "[":
            out = []
            while tok[i] != "]":
                out.append(value())
                if tok[i] == ",":
                    i += 1
            i += 1
            return out
        if t.isdigit():
            return int(t)
        if i < len(tok) and tok[i] == "{":
            i += 1
            d = {"": t}
            while tok[i] != "}":
                k = tok[i]
                i += 2
                d[k] = value()
                if tok[i] == ",":
                    i += 1
            i += 1
            return d
        if i < len(tok) and tok[i] == "(":
            i += 1
            args = []
            while tok[i] != ")":
                args.append(value())
                if tok[i] == ",":
                    i += 1
            i += 1
            return (t, args)
        return (t, [])

    return value()


def text_of(tree):
    """The Debug text of an enumeration value."""
    name, args = tree
    return name + ("(%s)" % ", ".join(text_of(a) if isinstance(a, tuple) else str(a) for a in args) if args else "")


def rust_values(bridge, name, tree):
    """The values of a decoded packet, in the form of pdl.Layout."""
    if tree == (name, []):
        tree = {"": name}  # no fields
    if not isinstance(tree, dict) or tree[""] != name:
        raise Violation("%s is decoded as %s" % (name, str(tree)[:200]))
    out = {}
    fields = {f.name: f for d in L.chain(name) for f in d.fields if f.name}
    for k, v in tree.items():
        if k == "":
            continue
        if k == "payload":
            out[k] = v
            continue
        f = fields.get(k)
        if f is None:
            raise Violation("%s has an unexpected field %s" % (name, k))
        if f.cond:
            out[k] = None if v == ("None", []) else v[1][0]
        elif f.kind == "array":
            out[k] = [rust_one(bridge, f, x) for x in v]
        else:
            out[k] = rust_one(bridge, f, v)
    return out


def rust_one(bridge, f, v):
    if f.type in L.decls:
        return rust_values(bridge, f.type, v)
    if f.type in L.enums:
        n = bridge.names[f.type].get(text_of(v))
        if n is None or len(n) != 1:
            raise Violation("%s::%s stands for %s" % (f.type, text_of(v), n))
        return next(iter(n))
    return v


def comparable(name, values):
    """A missing payload and an empty one are the same."""
    v = dict(values)
    if not v.get("payload"):
        v.pop("payload", None)
    return v


# ------------------------------------------------------------- generation

def gen_bytes(rng):
    """A type and bytes for it: encoded, mutated or unrelated."""
    name = rng.choice(sorted(L.decls)) if rng.random() < 0.9 else rng.choice(ROOTS)
    k = rng.random()
    if k < 0.03:
        data = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 8, 20, 60, 300])))
    else:
        data = L.encode(name, L.generate(rng, name))
        if k < 0.5:
            data = L.mutate(rng, data)
        elif k < 0.55:
            # the same bytes as another type
            name = rng.choice(sorted(L.decls))
    return [name, list(data)]


def gen_batch(rng):
    return [gen_bytes(rng) for _ in range(40)]


def shrink_batch(case):
    if len(case) > 1:
        for c in case:
            yield [c]
        return
    for name, data in case:
        for d in drop(data):
            yield [[name, d]]
        for i, b in enumerate(data):
            if b:
                yield [[name, data[:i] + [0] + data[i + 1:]]]


def show(name, data):
    return "%s %s" % (name, bytes(data).hex())


def expected(name, data):
    try:
        return L.decode(name, bytes(data))
    except pdl.Reject:
        return None


# ------------------------------------------------------------------- C23

def bridge_of(ctx):
    if "bridge" not in ctx.state:
        ctx.state["bridge"] = Bridge(ctx.settings.codec)
        ctx.state.setdefault("cleanup", []).append(ctx.state["bridge"].close)
    elif ctx.state["bridge"].p.poll() is not None:
        ctx.state["bridge"] = Bridge(ctx.settings.codec)
    return ctx.state["bridge"]


def cut_optional(name, data):
    """Does the byte string end within an optional field?"""
    try:
        L.decode(name, bytes(data))
    except pdl.Reject as e:
        return str(e) == "short, optional"
    return False


def known_panic(ctx, name, data):
    """Finding C23/optional: the generated decoder of an optional field does
    not check the length."""
    if not ctx.known("optional-field-length") or not cut_optional(name, data):
        return False
    ctx.add("known: optional-field-length")
    return True


def rust_decode(bridge, name, data):
    """None, or (values, encoded bytes, remarks)."""
    r = bridge.ask("d %s %s" % (name, bytes(data).hex()))
    if r == "reject":
        return None
    if r == "panic":
        raise Panic("decoding %s panics" % show(name, data))
    if not r.startswith("accept "):
        raise Violation("%s: %s" % (show(name, data), r))
    head, text = r[7:].split("; ", 1)
    enc, n, notes = head.split(" ", 2)
    if enc == "-":
        raise Violation("%s is decoded but cannot be encoded" % show(name, data))
    enc = bytes.fromhex(enc.rstrip("."))
    if int(n) != len(enc):
        raise Violation("%s: encoded length %s instead of %d" % (show(name, data), n, len(enc)))
    if notes:
        raise Violation("%s: %s" % (show(name, data), notes))
    return rust_values(bridge, name, debug_tree(text)), enc


def run_rust(case, ctx):
    bridge = bridge_of(ctx)
    good = 0
    for name, data in case:
        want = expected(name, data)
        try:
            got = rust_decode(bridge, name, data)
        except Panic:
            if known_panic(ctx, name, data):
                continue
            raise
        if (got is None) != (want is None):
            raise Violation("%s is %s" % (show(name, data), "rejected" if got is None else "accepted"))
        if want is not None:
            good += 1
            ctx.add("decoded")
            values, enc = got
            if comparable(name, values) != comparable(name, want):
                raise Violation("%s is decoded as %s instead of %s" % (show(name, data), values, want))
            if enc != L.encode(name, want):
                raise Violation("%s is encoded as %s instead of %s" % (show(name, data), enc.hex(), L.encode(name, want).hex()))
        else:
            ctx.add("rejected")
        root = root_of(name)
        if root in ROOTS:
            r = bridge.ask("s %s %s" % (root, bytes(data).hex()))
            leaf = L.leaf(root, data)
            if r == "panic":
                deep = [c for c in L.decls if root_of(c) == root and cut_optional(c, data)]
                if deep and known_panic(ctx, deep[0], data):
                    continue
                raise Violation("specializing %s panics" % show(root, data))
            if (r == "reject") != (leaf is None):
                raise Violation("%s is %s" % (show(root, data), "rejected" if r == "reject" else "accepted"))
            if leaf is not None:
                found, text = r.split(" ", 1)
                if found.lstrip("!") != leaf and not {found.lstrip("!"), leaf} & AMBIGUOUS:
                    raise Violation("%s is specialized to %s instead of %s" % (show(root, data), found, leaf))
                if found == leaf:
                    v = rust_values(bridge, leaf, debug_tree(text))
                    if comparable(leaf, v) != comparable(leaf, L.decode(leaf, bytes(data))):
                        raise Violation("%s is specialized to %s" % (show(root, data), text))
                ctx.add("specialized")
    return good >= 5


def gen_enum(rng):
    return [rng.choice(sorted(L.enums))]


def run_enum(case, ctx):
    bridge = bridge_of(ctx)
    e = L.enums[case[0]]
    t = bridge.table.get(e.name, {})
    for v in range(1 << e.width):
        want = v if e.valid(v) else None
        if t.get(v) != want:
            raise Violation("%s: value %d is read as %s" % (e.name, v, t.get(v)))
    for v in range(1 << e.width, 256):
        if v in t:
            raise Violation("%s: value %d of more than %d bits is accepted" % (e.name, v, e.width))
    for d, n in bridge.names.get(e.name, {}).items():
        if len(n) > 1:
            raise Violation("%s::%s stands for %s" % (e.name, d, sorted(n)))
    for b, n in bridge.table["message_type"].items():
        want = b >> 5 if L.enums["MessageType"].valid(b >> 5) else L.enums["MessageType"].tags["COMMAND"]
        if n != want:
            raise Violation("the message type of header byte %d is read as %d" % (b, n))
    return True


# ------------------------------------------------------------------- C28

def python_codec(ctx):
    if "uci" not in ctx.state:
        sys.dont_write_bytecode = True
        sys.path.insert(0, os.path.join(ctx.settings.repo, "py", "pica"))
        ctx.state["uci"] = importlib.import_module("pica.packets.uci")
    return ctx.state["uci"]


def python_values(obj, name):
    out = {}
    fixed = L.decls[name].fixed
    for d in L.chain(name):
        conds = {f.cond[0] for f in d.fields if f.cond}
        for f in d.fields:
            if f.kind in ("count", "size", "fixed", "reserved", "payload") or f.name in conds:
                continue
            v = getattr(obj, f.name)
            if f.name in fixed:
                if int(v) != fixed[f.name]:
                    raise Violation("%s.%s is %s" % (name, f.name, v))
                continue
            if f.cond:
                out[f.name] = v
            elif f.kind == "array":
                out[f.name] = [python_values(x, f.type) if f.type in L.decls else int(x) for x in v]
            elif f.kind == "struct":
                out[f.name] = python_values(v, f.type)
            else:
                out[f.name] = int(v)
    if any(f.kind == "payload" for f in L.decls[name].fields):
        out["payload"] = list(obj.payload or b"")
    return out


def python_object(uci, name, values, array=bytearray):
    """The packet object of some values, built as a user does."""
    args = {}
    for d in L.chain(name):
        for f in d.fields:
            if f.name not in values or f.kind in ("count", "size"):
                continue
            v = values[f.name]
            if f.kind == "array":
                if f.type in L.decls:
                    v = [python_object(uci, f.type, x, array) for x in v]
                elif f.type:
                    v = [getattr(uci, f.type).from_int(x) for x in v]
                else:
                    v = array(v)
            elif f.kind == "struct":
                v = python_object(uci, f.type, v, array)
            elif f.kind == "enum":
                v = getattr(uci, f.type).from_int(v)
            args[f.name] = v
    if values.get("payload"):
        args["payload"] = bytes(values["payload"])
    return getattr(uci, name)(**args)


def python_decode(uci, name, data):
    """(class name, values) or None, through the root of the packet."""
    root = root_of(name)
    cls = getattr(uci, root)
    try:
        obj = cls.parse_all(bytes(data))
    except Exception:
        return None
    n = type(obj).__name__
    if n not in L.decls:
        raise Violation("%s is read as an unknown type %s" % (show(root, data), n))
    return n, python_values(obj, n), obj


def run_python(case, ctx):
    bridge, uci = bridge_of(ctx), python_codec(ctx)
    good = 0
    for name, data in case:
        root = root_of(name)
        if L.leaf(root, data) != LENIENT.leaf(root, data):
            ctx.add("reserved identifiers")
            continue
        got = python_decode(uci, name, data)
        if root in ROOTS:
            r = bridge.ask("s %s %s" % (root, bytes(data).hex()))
            if r == "panic":
                ctx.add("panics")  # see C23
                continue
            rust = None
            if r != "reject":
                leaf = r.split(" ", 1)[0].lstrip("!")
                if leaf in AMBIGUOUS or leaf == "SessionConfigPacket" and got and got[0] in AMBIGUOUS:
                    # both versions of the answer: the one of the right length
                    for leaf in sorted(AMBIGUOUS) + ["SessionConfigPacket"]:
                        if rust_decode(bridge, leaf, data) is not None:
                            break
                x = rust_decode(bridge, leaf, data)
                if x is None:
                    raise Skip("Rust")
                rust = (leaf, x[0], x[1])
        else:
            try:
                x = rust_decode(bridge, name, data)
            except Panic:
                ctx.add("panics")
                continue
            rust = x and (name, x[0], x[1])
        if (rust is None) != (got is None):
            raise Violation("%s is %s by the Python codec and %s by the Rust codec" % (
                show(root, data), "rejected" if got is None else "accepted",
                "rejected" if rust is None else "accepted"))
        if rust is None:
            ctx.add("rejected")
            continue
        ctx.add("decoded")
        good += 1
        if rust[0] != got[0] or comparable(rust[0], rust[1]) != comparable(got[0], got[1]):
            raise Violation("%s is read as %s %s in Python and as %s %s in Rust" % (
                show(root, data), got[0], got[1], rust[0], rust[1]))
        for what, obj in (("the object read from", got[2]), ("an object of the values of", python_object(uci, got[0], got[1]))):
            try:
                b = obj.serialize()
            except Exception as e:
                raise Violation("%s %s cannot be serialized: %r" % (what, show(root, data), e))
            if bytes(b) != rust[2]:
                raise Violation("%s %s is serialized as %s by Python and as %s by Rust" % (
                    what, show(root, data), bytes(b).hex(), rust[2].hex()))
    return good >= 5


def run_python_enum(case, ctx):
    bridge, uci = bridge_of(ctx), python_codec(ctx)
    e = L.enums[case[0]]
    cls = getattr(uci, e.name)
    t = bridge.table.get(e.name, {})
    for v in range(1 << e.width):
        if v in RESERVED.get(e.name, ()):
            continue
        try:
            n = int(cls.from_int(v))
        except Exception:
            n = None
        if n != t.get(v):
            raise Violation("%s: value %d is read as %s in Python and as %s in Rust" % (e.name, v, n, t.get(v)))
    for tag, v in e.tags.items():
        # the names of values within ranges are not generated
        if getattr(cls, tag, None if tag in e.top else v) != v:
            raise Violation("%s.%s is %s in Python" % (e.name, tag, getattr(cls, tag, None)))
    return True


def parts(pid):
    rule = "batches of 40 byte strings for random packet types: encoded from random values, mutated, cross-typed " \
           "or random; non-trivial: at least 5 decode"
    enums = "all values of all enumerations (repeated); always non-trivial"
    if pid == "C23":
        return [Part("enums", enums, (400, 400), (60, 60), gen_enum, run_enum),
                Part("packets", rule, (20000, 600000), (60, 1200), gen_batch, run_rust, shrink=shrink_batch,
                     first=[[["DlTdoaRangingMeasurement", [0] * 17]]])]
    return [Part("enums", enums, (400, 400), (60, 60), gen_enum, run_python_enum),
            Part("packets", rule, (12000, 600000), (60, 1200), gen_batch, run_python, shrink=shrink_batch)]

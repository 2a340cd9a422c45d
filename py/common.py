"""Generated-input search for the checks written in Python: seeded cases,
parallel workers, confirmation, shrinking, replay files and evidence.

A case is a JSON value. A part has
  gen(rng)        -> case
  run(case, ctx)  -> Outcome-like dict via `Result`
and optionally shrink(case) -> iterable of smaller cases (default: generic).
"""
import hashlib, json, multiprocessing, os, queue, random, sys, time, traceback


class Violation(Exception):
    """The property is broken; the message says how."""


class Skip(Exception):
    """Nothing can be said about the property (environment trouble, another
    property broken)."""


class Part:
    def __init__(self, name, rule, cases, limit, gen, run, shrink=None, confirm=3, workers=8,
                 setup=None, first=()):
        self.name, self.rule, self.cases, self.limit = name, rule, cases, limit
        self.gen, self.run, self.shrink, self.confirm = gen, run, shrink, confirm
        self.workers, self.setup = workers, setup
        self.first = list(first)  # cases run before the generated ones


class Ctx:
    """What a run knows about its surroundings; counters are accumulated."""

    def __init__(self, worker, settings):
        self.worker, self.settings = worker, settings
        self.stats = {}
        self.state = {}

    def known(self, name):
        return name in self.settings.known

    def add(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n


def once(part, case, ctx):
    """(verdict, detail, nontrivial)"""
    try:
        return "ok", "", bool(part.run(case, ctx))
    except Violation as e:
        return "violation", str(e), False
    except Skip as e:
        return "skip", str(e), False


def canon(case):
    return json.dumps(case, sort_keys=True)


def generic_shrink(case):
    """Smaller variants of a JSON value: shorter lists first."""
    if isinstance(case, list):
        n = len(case)
        size = n
        while size >= 1:
            for i in range(0, n, size):
                yield case[:i] + case[i + size:]
            size //= 2
        for i, x in enumerate(case):
            for y in generic_shrink(x):
                yield case[:i] + [y] + case[i + 1:]
    elif isinstance(case, dict):
        for k, v in case.items():
            if k.startswith("_"):
                continue
            for y in generic_shrink(v):
                d = dict(case)
                d[k] = y
                yield d
    elif isinstance(case, bool):
        if case:
            yield False
    elif isinstance(case, int):
        for y in (0, case // 2, case - 1 if case > 0 else case + 1):
            if abs(y) < abs(case):
                yield y


def drop(xs):
    """Shorter lists, the biggest steps first."""
    size = len(xs)
    while size >= 1:
        for i in range(0, len(xs), size):
            yield xs[:i] + xs[i + size:]
        size //= 2


def smaller_values(x):
    """Smaller integers in a value of the same shape."""
    if isinstance(x, bool):
        if x:
            yield False
    elif isinstance(x, int):
        yield from generic_shrink(x)
    elif isinstance(x, list):
        for i, v in enumerate(x):
            for y in smaller_values(v):
                yield x[:i] + [y] + x[i + 1:]
    elif isinstance(x, dict):
        for k, v in x.items():
            for y in smaller_values(v):
                yield dict(x, **{k: y})


def minimise(part, case, detail, ctx, seconds=60):
    end = time.time() + seconds
    shrink = part.shrink or generic_shrink
    progress = True
    while progress and time.time() < end:
        progress = False
        for c in shrink(case):
            if time.time() > end:
                break
            try:
                v, d, _ = once(part, c, ctx)
            except Exception:
                continue  # not a meaningful case
            if v == "violation":
                case, detail, progress = c, d, True
                break
    return case, detail


def worker(part, opts, w, total, out, stop, deadline):
    ctx = Ctx(w, opts)
    try:
        if part.setup:
            part.setup(ctx)
        for i in range(w, total, part.workers):
            if stop.is_set() or time.time() > deadline:
                break
            rng = random.Random("%d/%s/%s/%d" % (opts.seed, opts.id, part.name, i))
            case = part.first[i] if i < len(part.first) else part.gen(rng)
            ctx.stats = {}
            try:
                v, d, nt = once(part, case, ctx)
            except Exception:
                out.put(("panic", traceback.format_exc(), None, False, {}))
                continue
            text = canon(case)
            h = hashlib.sha1(text.encode()).hexdigest()[:16]
            if v != "violation":
                out.put((v, d, (h, text[:1500]), nt, ctx.stats))
                continue
            # a real violation can be observed again
            stats = ctx.stats
            again = []
            for _ in range(part.confirm):
                try:
                    r = once(part, case, ctx)
                except Exception:
                    continue
                if r[0] == "violation":
                    again.append(r[1])
                    break
            if not again:
                out.put(("unconfirmed", d, (h, text[:1500]), False, stats))
                continue
            stop.set()
            case, d = minimise(part, case, again[0], ctx)
            out.put(("violation", d, (h, text[:1500]), False, stats))
            out.put(("replay", d, case, False, {}))
            break
    except Exception:
        out.put(("panic", traceback.format_exc(), None, False, {}))
    finally:
        for f in ctx.state.get("cleanup", []):
            try:
                f()
            except Exception:
                pass
        out.put(("end", w, None, False, {}))


def findings(pid):
    """The listed findings of a property: {identifier: what fails}."""
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.txt")
    out = {}
    with open(path) as f:
        for line in f:
            w = line.split(" ", 3)
            if w[0] == "finding:" and w[1] == "property=" + pid:
                out[w[2].split("=", 1)[1]] = w[3].strip()
    return out


def run_parts(opts, parts, assumptions):
    """opts: id, tier, seed, replay, build, evidence. Returns the exit code."""
    start = time.time()
    opts.known = findings(opts.id)
    seen_findings = set()
    if opts.replay:
        v = json.load(open(opts.replay))
        for p in parts:
            if v["part"] != p.name:
                continue
            ctx = Ctx(0, opts)
            if p.setup:
                p.setup(ctx)
            r = once(p, v["case"], ctx)
            for f in ctx.state.get("cleanup", []):
                f()
            print("replay:", r)
            if r[0] == "violation":
                print("VIOLATION property=%s replay=%s" % (opts.id, opts.replay))
                return 1
        return 0
    total = {"ok": 0, "skip": 0, "unconfirmed": 0, "panic": 0, "violation": 0}
    distinct, samples, infos, rules = set(), [], [], []
    violation = None
    for part in parts:
        if violation:
            break
        thorough = opts.tier == "thorough"
        n = max(1, int(part.cases[1 if thorough else 0] * opts.scale))
        limit = part.limit[1 if thorough else 0]
        t0 = time.time()
        out = multiprocessing.Queue()
        stop = multiprocessing.Event()
        procs = [multiprocessing.Process(target=worker, args=(part, opts, w, n, out, stop, t0 + limit))
                 for w in range(part.workers)]
        for p in procs:
            p.start()
        counts = dict.fromkeys(total, 0)
        stats, seen, replays, notes, ended = {}, set(), [], [], 0
        while ended < len(procs):
            try:
                kind, d, what, nt, st = out.get(timeout=5)
            except queue.Empty:
                if not any(p.is_alive() for p in procs):
                    break
                continue
            if kind == "end":
                ended += 1
                continue
            if kind == "replay":
                replays.append((d, what))
                continue
            counts[kind] += 1
            for k, x in st.items():
                stats[k] = stats.get(k, 0) + x
                if k.startswith("known: "):
                    seen_findings.add(k[7:])
            if kind in ("skip", "unconfirmed", "panic") and len(notes) < 5:
                notes.append("%s: %s" % (kind, d))
            if nt and what[0] not in seen:
                seen.add(what[0])
                if len(samples) < 4 * (len(infos) + 1):
                    samples.append("%s: %s" % (part.name, what[1]))
        for p in procs:
            p.join(20)
            if p.is_alive():
                p.kill()
        for k in total:
            total[k] += counts[k]
        distinct |= {part.name + h for h in seen}
        rules.append("%s: %s" % (part.name, part.rule))
        infos.append({"part": part.name, "planned": n, "evaluations": sum(counts.values()),
                      "distinct_nontrivial": len(seen), "inconclusive": counts["skip"],
                      "unconfirmed": counts["unconfirmed"], "harness_errors": counts["panic"],
                      "counters": stats, "notes": notes, "wall_s": round(time.time() - t0, 2)})
        for note in notes:
            sys.stderr.write("note: %s: %s\n" % (part.name, note))
        if replays:
            d, case = min(replays, key=lambda r: len(canon(r[1])))
            os.makedirs(os.path.join(opts.build, "replay"), exist_ok=True)
            path = os.path.join(opts.build, "replay", "%s-%s-%d.json" % (opts.id, part.name, opts.seed))
            with open(path, "w") as f:
                json.dump({"property": opts.id, "part": part.name, "why": d, "case": case}, f, indent=1)
            violation = (d, path)
    os.makedirs(os.path.dirname(opts.evidence), exist_ok=True)
    with open(opts.evidence, "w") as f:
        json.dump({"property": opts.id, "tier": opts.tier, "seed": opts.seed, "level": "exploration",
                   "coverage": {"evaluations": sum(total.values()), "distinct_nontrivial": len(distinct),
                                "rule": "; ".join(rules), "samples": samples,
                                "inconclusive": total["skip"], "unconfirmed": total["unconfirmed"],
                                "parts": infos},
                   "assumptions": assumptions, "wall_s": round(time.time() - start, 2),
                   "violations": 1 if violation else 0}, f, indent=1)
    print("%s %s seed=%d evaluations=%d nontrivial=%d inconclusive=%d unconfirmed=%d panics=%d wall=%.1fs"
          % (opts.id, opts.tier, opts.seed, sum(total.values()), len(distinct), total["skip"],
             total["unconfirmed"], total["panic"], time.time() - start))
    for k in sorted(seen_findings):
        print("KNOWN-FINDING: property=%s %s: %s" % (opts.id, k, opts.known[k]))
    if violation:
        print(violation[0])
        print("VIOLATION property=%s replay=%s" % (opts.id, violation[1]))
        return 1
    return 0

// Runs the web page of pica-http (static/index.html and its components) on a
// small stand-in for the browser, and reports what it shows and requests.
//
// Reads commands, one JSON value per line, and answers one line to each:
//   {"run": {"dir", "devices", "ops"}}        a page over a recorded server
//   {"open": {"port"}}                        a page over a running pica-http
//   {"op": [...]}, {"view": 0}, {"close": 0}  on the opened page
import fs from "node:fs";
import http from "node:http";
import path from "node:path";
import readline from "node:readline";
import vm from "node:vm";

class Unsupported extends Error {}

// ------------------------------------------------------------- mini browser

let errors = [];

class Target {
  addEventListener(type, f, opts) {
    const l = (this._l ??= {})[type] ??= [];
    if (f && !l.some((e) => e.f === f)) l.push({ f, once: opts?.once });
  }
  removeEventListener(type, f) {
    const l = this._l?.[type];
    if (l) this._l[type] = l.filter((e) => e.f !== f);
  }
  dispatchEvent(event) {
    if (!event.target) event.target = this;
    event.currentTarget = this;
    const run = (f) => {
      try {
        f.handleEvent ? f.handleEvent(event) : f.call(this, event);
      } catch (e) {
        errors.push(String(e?.stack ?? e).slice(0, 400));
      }
    };
    if (typeof this["on" + event.type] == "function") run(this["on" + event.type]);
    for (const e of [...(this._l?.[event.type] ?? [])]) {
      if (e.once) this.removeEventListener(event.type, e.f);
      run(e.f);
    }
    return true;
  }
}

class Evt {
  constructor(type, init) {
    this.type = type;
    Object.assign(this, init);
  }
  preventDefault() {}
  stopPropagation() {}
  stopImmediatePropagation() {}
}

class CustomEvt extends Evt {
  constructor(type, init) {
    super(type, init);
    this.detail ??= null;
  }
}

class Matrix {
  constructor() {
    Object.assign(this, { a: 1, b: 0, c: 0, d: 1, e: 0, f: 0 });
    return new Proxy(this, {
      get: (t, k) => (k in t ? t[k] : typeof k == "string" && /^[a-z]\w*$/.test(k) && k != "then" ? () => this : undefined),
    });
  }
  toString() {
    return "matrix(1, 0, 0, 1, 0, 0)";
  }
  inverse() {
    return this;
  }
}

class El extends Target {
  constructor(tag = "", attrs = {}) {
    super();
    this._tag = tag;
    this._attrs = attrs;
    this.children = [];
    this._parent = null;
    this.style = {};
  }
  get tagName() {
    return this._tag;
  }
  get id() {
    return this._attrs.id ?? "";
  }
  get parentElement() {
    return this._parent;
  }
  get parentNode() {
    return this._parent;
  }
  get classList() {
    const l = (this._attrs.class ?? "").split(/\s+/).filter(Boolean);
    return { contains: (c) => l.includes(c), [Symbol.iterator]: () => l[Symbol.iterator](), length: l.length };
  }
  get className() {
    return this._attrs.class ?? "";
  }
  get dataset() {
    const d = {};
    for (const k in this._attrs)
      if (k.startsWith("data-")) d[k.slice(5).replace(/-(.)/g, (_, c) => c.toUpperCase())] = this._attrs[k];
    return d;
  }
  getAttribute(k) {
    return this._attrs[k] ?? null;
  }
  setAttribute(k, v) {
    this._attrs[k] = String(v);
  }
  hasAttribute(k) {
    return k in this._attrs;
  }
  get textContent() {
    return this._nodes?.map((n) => (typeof n == "string" ? n : n.textContent)).join("") ?? "";
  }
  *all() {
    for (const c of this.children) {
      yield c;
      yield* c.all();
    }
  }
  closest(sel) {
    for (let e = this; e; e = e._parent) if (matches(e, sel)) return e;
    return null;
  }
  matches(sel) {
    return matches(this, sel);
  }
  querySelector(sel) {
    for (const e of this.all()) if (matches(e, sel)) return e;
    return null;
  }
  querySelectorAll(sel) {
    return [...this.all()].filter((e) => matches(e, sel));
  }
  // SVG: the screen and the drawing have the same coordinates
  createSVGPoint() {
    return { x: 0, y: 0, matrixTransform: function () { return { x: this.x, y: this.y }; } };
  }
  getScreenCTM() {
    return new Matrix();
  }
  getBoundingClientRect() {
    return { x: 0, y: 0, left: 0, top: 0, width: 1200, height: 1200 };
  }
  get ownerSVGElement() {
    return this;
  }
}

function matches(e, sel) {
  return sel.split(",").some((s) => {
    const m = /^\s*([\w-]+|\*)?((?:[.#][\w-]+)*)\s*$/.exec(s);
    if (!m) throw new Unsupported("selector " + sel);
    if (m[1] && m[1] != "*" && m[1].toLowerCase() != e._tag.toLowerCase()) return false;
    return (m[2].match(/[.#][\w-]+/g) ?? []).every((p) =>
      p[0] == "." ? e.classList.contains(p.slice(1)) : e.id == p.slice(1));
  });
}

const ENT = { amp: "&", lt: "<", gt: ">", quot: '"' };
const unescape = (s) => s.replace(/&(amp|lt|gt|quot);/g, (_, e) => ENT[e]);
const VOID = /^(input|br|img|link|meta|hr)$/i;

// Tolerant reading of markup into elements.
function parse(text, root) {
  root._nodes = [];
  let cur = root;
  let i = 0;
  while (i < text.length) {
    if (text.startsWith("<!--", i)) {
      const j = text.indexOf("-->", i);
      i = j < 0 ? text.length : j + 3;
      continue;
    }
    const close = /^<\/([\w-]+)\s*>/.exec(text.slice(i, i + 80));
    if (close) {
      for (let e = cur; e; e = e._parent)
        if (e._tag.toLowerCase() == close[1].toLowerCase() && e != root) {
          cur = e._parent;
          break;
        }
      i += close[0].length;
      continue;
    }
    const open = /^<([A-Za-z][\w-]*)/.exec(text.slice(i, i + 60));
    if (!open) {
      let j = text.indexOf("<", i + 1);
      if (j < 0) j = text.length;
      cur._nodes.push(unescape(text.slice(i, j)));
      i = j;
      continue;
    }
    i += open[0].length;
    const attrs = {};
    let self = false;
    for (;;) {
      const m = /^\s*(?:(\/?>)|([^\s=>\/]+)\s*(?:=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]*)))?|\/)/.exec(text.slice(i));
      if (!m) throw new Unsupported("markup " + text.slice(i, i + 60));
      i += m[0].length;
      if (m[1]) {
        self = m[1] == "/>";
        break;
      }
      if (m[2]) attrs[m[2]] = unescape(m[3] ?? m[4] ?? m[5] ?? "");
    }
    const e = new El(open[1], attrs);
    e._nodes = [];
    e._parent = cur;
    cur.children.push(e);
    cur._nodes.push(e);
    if (/^(script|style)$/i.test(e._tag)) {
      const j = text.toLowerCase().indexOf("</" + e._tag.toLowerCase(), i);
      e._nodes.push(text.slice(i, j));
      i = text.indexOf(">", j) + 1;
    } else if (!self && !VOID.test(e._tag)) cur = e;
  }
  return root;
}

// ---------------------------------------------------------------- a page

async function page({ load, request, Source }) {
  errors = [];
  const posts = [];
  const registry = {};
  const requests = new Set();
  const functions = [];

  const nothing = Symbol("nothing");
  const template = (strings, ...values) => ({ strings, values, _template: true });
  function flat(v) {
    if (v === null || v === undefined || v === nothing) return "";
    if (v._template)
      return v.strings.reduce((s, x, i) => {
        if (i == v.values.length) return s + x;
        if (/\s\.[\w-]+=["']?$/.test(x)) throw new Unsupported("property binding");
        const flag = /\s\?([\w-]+)=["']?$/.exec(x);
        if (flag) return s + x.slice(0, flag.index) + (v.values[i] ? ` ${flag[1]}=` : " ") + (/["']$/.test(x) ? x.at(-1) : '""');
        const y = flat(v.values[i]);
        return s + x + (/=$/.test(x) ? `"${y}"` : y);
      }, "");
    if (typeof v == "function") return "fn" + (functions.push(v) - 1);
    if (typeof v != "string" && typeof v[Symbol.iterator] == "function") return [...v].map(flat).join("");
    return String(v).replace(/[&<>"]/g, (c) => ({ "&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;" })[c]);
  }

  class LitElement extends El {
    constructor() {
      super(tagOf(new.target), {});
      this.renderRoot = this;
      this.hasUpdated = false;
      this.isUpdatePending = false;
      const props = {};
      for (let c = new.target; c && c !== LitElement; c = Object.getPrototypeOf(c))
        if (Object.hasOwn(c, "properties")) Object.assign(props, c.properties);
      this._types = Object.fromEntries(Object.keys(props).map((k) => [k, props[k]?.type]));
      for (const k in props) {
        let value;
        Object.defineProperty(this, k, {
          get: () => value,
          set: (v) => {
            const old = value;
            value = v;
            if (!Object.is(old, v)) this.requestUpdate(k, old);
          },
          configurable: true,
          enumerable: true,
        });
      }
    }
    get shadowRoot() {
      return this.renderRoot;
    }
    get updateComplete() {
      return Promise.resolve(true);
    }
    connectedCallback() {
      this._connected = true;
      this.requestUpdate();
    }
    disconnectedCallback() {}
    requestUpdate() {
      if (this.isUpdatePending) return;
      this.isUpdatePending = true;
      queueMicrotask(() => {
        if (!this.isUpdatePending) return;
        try {
          this.performUpdate();
        } catch (e) {
          errors.push(String(e?.stack ?? e).slice(0, 400));
        }
      });
    }
    performUpdate() {
      this.isUpdatePending = false;
      if (!this._connected) return;
      const changed = new Map();
      if (this.shouldUpdate(changed)) {
        this.willUpdate(changed);
        this.update(changed);
        if (!this.hasUpdated) {
          this.hasUpdated = true;
          this.firstUpdated(changed);
        }
        this.updated(changed);
      }
    }
    shouldUpdate() {
      return true;
    }
    willUpdate() {}
    firstUpdated() {}
    updated() {}
    update() {
      this.isUpdatePending = false;
      const r = this.render();
      this.children = [];
      parse(flat(r), this);
      for (const e of this.all()) e._host = this;
      for (const e of [...this.all()]) upgrade(e);
    }
    render() {}
  }
  const tagOf = (cls) => Object.keys(registry).find((k) => registry[k] === cls) ?? "";

  const win = new Target();
  const doc = new El("#document");
  parse(load("/"), doc);
  const upgrade = (e) => {
    const cls = registry[e._tag.toLowerCase()];
    if (!cls || e instanceof cls) return e;
    const n = new cls();
    Object.assign(n._attrs, e._attrs);
    n._parent = e._parent;
    n._host = e._host;
    n._light = e.children;
    e._parent.children[e._parent.children.indexOf(e)] = n;
    const at = e._parent._nodes.indexOf(e);
    if (at >= 0) e._parent._nodes[at] = n;
    for (const [k, type] of Object.entries(n._types ?? {}))
      if (k.toLowerCase() in e._attrs) {
        const v = e._attrs[k.toLowerCase()];
        n[k] = type === Number ? Number(v) : type === Boolean ? true : v;
      }
    n.connectedCallback();
    return n;
  };
  doc.getElementById = (id) => {
    for (const e of doc.all()) if (e.id == id) return e;
    return null;
  };
  doc.body = doc.documentElement = doc;
  doc.readyState = "loading";

  const track = (p) => {
    requests.add(p);
    p.finally(() => requests.delete(p)).catch(() => {});
    return p;
  };
  const globals = {
    window: win, document: doc, console: { log() {}, warn() {}, error() {}, debug() {}, info() {} },
    EventTarget: Target, Event: Evt, CustomEvent: CustomEvt, MouseEvent: Evt, DOMMatrix: Matrix, DOMPoint: Object,
    HTMLElement: El, Element: El,
    customElements: {
      define(name, cls) {
        registry[name] = cls;
        for (const e of [...doc.all()]) if (e._tag.toLowerCase() == name) upgrade(e);
      },
      get: (name) => registry[name],
      whenDefined: async (name) => registry[name],
    },
    fetch: (url, opts = {}) => {
      const method = (opts.method ?? "GET").toUpperCase();
      if (method != "GET") posts.push([method, String(url), opts.body === undefined ? null : String(opts.body), opts.headers ?? null]);
      return track(request(method, String(url), opts.body));
    },
    EventSource: Source, setTimeout, clearTimeout, setInterval, clearInterval, queueMicrotask, structuredClone,
    requestAnimationFrame: (f) => setTimeout(f, 0), URL, URLSearchParams, location: { origin: "", href: "/", pathname: "/" },
    Math, JSON, Promise,
  };
  for (const k of ["addEventListener", "removeEventListener", "dispatchEvent"]) globals[k] = win[k].bind(win);
  for (const k of ["fetch", "EventSource", "customElements", "document"]) win[k] = globals[k];
  const context = vm.createContext(globals);

  const lit = {
    LitElement, html: template, svg: template, nothing, noChange: nothing,
    css: (s, ...v) => s.reduce((a, x, i) => a + x + (v[i] ?? ""), ""), unsafeCSS: (x) => x,
  };
  const modules = {};
  const get = (name) => {
    if (name == "lit")
      return (modules.lit ??= new vm.SyntheticModule(Object.keys(lit), function () {
        for (const k in lit) this.setExport(k, lit[k]);
      }, { context }));
    return (modules[name] ??= new vm.SourceTextModule(load(name), { context, identifier: name }));
  };
  const resolve = (spec, from) => {
    if (spec == "lit") return spec;
    if (!/^[.\/]/.test(spec)) throw new Unsupported("import of " + spec);
    return path.posix.resolve(path.posix.dirname(from), spec);
  };
  for (const s of doc.querySelectorAll("script")) {
    if (s.getAttribute("type") != "module") continue;
    let m;
    if (s.hasAttribute("src")) m = get(path.posix.resolve("/", s.getAttribute("src")));
    else m = new vm.SourceTextModule(s.textContent, { context, identifier: "/index" });
    if (m.status == "unlinked") await m.link((spec, ref) => get(resolve(spec, ref.identifier)));
    await m.evaluate();
  }
  doc.readyState = "complete";
  const settle = async () => {
    for (let i = 0; i < 4; i++) {
      for (let k = 0; k < 4; k++) await Promise.resolve();
      while (requests.size) await Promise.race([...requests]).catch(() => {});
    }
    await new Promise((r) => setImmediate(r));
  };
  doc.dispatchEvent(new Evt("DOMContentLoaded"));
  win.dispatchEvent(new Evt("load"));
  await settle();

  const hosts = () => [...doc.all()].filter((e) => e instanceof LitElement);
  const shown = () => hosts().flatMap((h) => [...h.all()]);
  const markers = () => shown().filter((e) => e.classList.contains("marker"));

  // An event on an element that is shown, handled there and on its ancestors.
  function fire(el, type, init) {
    const chain = [];
    for (let e = el; e; e = e._parent) chain.push(e);
    const host = el._host ?? el;
    const event = new Evt(type, { ...init, composedPath: () => chain });
    event.target = init?.target ?? el;
    for (const e of chain) {
      const a = e._attrs?.["@" + type];
      if (a) {
        const f = functions[+a.slice(2)];
        try {
          event.currentTarget = e;
          f.handleEvent ? f.handleEvent(event) : f.call(host, event);
        } catch (x) {
          errors.push(String(x?.stack ?? x).slice(0, 400));
        }
      }
      if (e._l?.[type]) {
        event.currentTarget = e;
        for (const l of [...e._l[type]]) l.f.call(e, event);
      }
    }
    return event;
  }

  // The axes and the sectors of a drawn orientation, with their transformations.
  const drawing = (e) => ({
    axes: e.querySelectorAll(".value").map((x) => x.getAttribute("style")),
    sectors: e.querySelectorAll("svg").map((x) => [x.getAttribute("style"),
      x.querySelector("circle")?.getAttribute("stroke-dasharray")]),
  });

  const text = (e) => e.textContent.replace(/\s+/g, " ").trim();
  function view() {
    const out = { markers: [], info: "", neighbors: [], own: null };
    for (const m of markers()) {
      const t = /translate\(\s*(-?[\d.e+-]+)[\s,]+(-?[\d.e+-]+)\s*\)/.exec(m.getAttribute("transform") ?? "");
      // the arrow down to the floor
      const arrow = m.querySelectorAll("line").filter((e) => e.hasAttribute("stroke-dasharray"));
      out.markers.push([t ? +t[1] : null, t ? +t[2] : null, m.classList.contains("selected"),
        m.querySelectorAll(".handle").length > 0, arrow.map((e) => Math.abs(e.getAttribute("x2") - e.getAttribute("x1")))]);
    }
    const info = hosts().find((h) => h._tag == "pika-device-info");
    if (!info) throw new Unsupported("no pika-device-info");
    out.info = text(info);
    const orientation = (e) => [...["yaw", "pitch", "roll"].map((k) => (e.hasAttribute(k) ? +e.getAttribute(k) : null)),
      drawing(e)];
    for (const o of info.querySelectorAll("pika-orientation")) {
      const li = o.closest("li");
      if (li) out.neighbors.push([text(li), orientation(o)]);
      else out.own = orientation(o);
    }
    out.sliders = info.querySelectorAll("input").map((e) => +e.getAttribute("value"));
    out.posts = posts.splice(0);
    out.errors = errors.splice(0);
    return out;
  }

  function input(name) {
    const info = hosts().find((h) => h._tag == "pika-device-info");
    for (const e of info.querySelectorAll("input")) {
      const label = e.closest("label");
      if (label && text(label).toLowerCase().includes(name)) return e;
    }
    return null;
  }

  async function op(o) {
    const map = hosts().find((h) => h._tag == "pika-map");
    const board = map?.querySelector("svg");
    if (!board) throw new Unsupported("no map");
    switch (o[0]) {
      case "event":
        Source.deliver(o[1], JSON.stringify(o[2]));
        break;
      case "down": {
        const ms = markers();
        const el = o[1] === null ? board : ms[o[1] % ms.length];
        if (!el) break;
        // on one of the shapes of the marker
        const shapes = [...el.all()].filter((e) => !e.classList.contains("handle"));
        fire(o[1] === null ? board : shapes[0] ?? el, "mousedown", { clientX: 0, clientY: 0 });
        break;
      }
      case "handle": {
        const h = shown().find((e) => e.classList.contains("handle"));
        if (h) fire(h, "mousedown", { clientX: 0, clientY: 0 });
        break;
      }
      case "move":
        fire(board, "mousemove", { clientX: o[1], clientY: o[2], movementX: 0, movementY: o[3] ?? 0 });
        break;
      case "up":
        fire(board, "mouseup", {});
        win.dispatchEvent(new Evt("mouseup"));
        break;
      case "input":
      case "change": {
        const e = input(o[1]);
        if (!e) break;
        const target = Object.create(e, { value: { value: String(o[2]) }, valueAsNumber: { value: +o[2] } });
        fire(e, o[0], { target });
        break;
      }
      default:
        throw new Error("unknown operation " + o[0]);
    }
    await settle();
  }
  return { op, view, settle, close: () => Source.stop?.() };
}

// ------------------------------------------------------------ the servers

function stubbed({ dir, devices, ops }) {
  class Source extends Target {
    static list = [];
    static deliver(type, data) {
      for (const s of Source.list) s.dispatchEvent(new Evt(type, { data }));
    }
    constructor(url) {
      super();
      if (String(url) != "/events") throw new Unsupported("event source " + url);
      this.readyState = 1;
      Source.list.push(this);
    }
    close() {
      Source.list = Source.list.filter((s) => s != this);
    }
  }
  const load = (name) => fs.readFileSync(path.join(dir, name == "/" ? "index.html" : name), "utf8");
  const answer = (status, body) => ({ status, ok: status < 300, json: async () => JSON.parse(body), text: async () => body });
  const request = async (method, url) => {
    if (method == "GET" && url == "/get-state") return answer(200, JSON.stringify({ devices }));
    return answer(method == "POST" ? 200 : 404, method == "POST" ? "success" : "");
  };
  return { load, request, Source, ops };
}

function real(port, files) {
  class Source extends Target {
    static list = [];
    static stop() {
      for (const s of Source.list) s.close();
    }
    constructor(url) {
      super();
      this.readyState = 0;
      Source.list.push(this);
      let buf = "";
      this.req = http.get({ port, host: "127.0.0.1", path: String(url), agent: false }, (res) => {
        this.readyState = 1;
        Source.ready?.();
        res.setEncoding("utf8");
        res.on("data", (d) => {
          buf += d;
          for (;;) {
            const m = /\r?\n\r?\n/.exec(buf);
            if (!m) break;
            const block = buf.slice(0, m.index);
            buf = buf.slice(m.index + m[0].length);
            let type = "message";
            const data = [];
            for (const line of block.split(/\r?\n/)) {
              const f = /^(\w+):? ?(.*)$/.exec(line);
              if (f?.[1] == "event") type = f[2];
              if (f?.[1] == "data") data.push(f[2]);
            }
            if (data.length) this.dispatchEvent(new Evt(type, { data: data.join("\n") }));
          }
        });
        res.on("error", () => {});
      });
      this.req.on("error", () => {});
    }
    close() {
      this.req.destroy();
    }
  }
  const send = (method, url, body) =>
    new Promise((ok, bad) => {
      const r = http.request({ port, host: "127.0.0.1", path: url, method, agent: false,
        headers: body ? { "content-length": Buffer.byteLength(body) } : {} }, (res) => {
        let b = "";
        res.setEncoding("utf8");
        res.on("data", (d) => (b += d));
        res.on("end", () => ok({ status: res.statusCode, ok: res.statusCode < 300, json: async () => JSON.parse(b), text: async () => b }));
        res.on("error", bad);
      });
      r.on("error", bad);
      r.end(body);
    });
  return { request: send, Source, load: (name) => files[name], send };
}

// ------------------------------------------------------------------ commands

let live = null;

async function command(c) {
  if (c.run) {
    const s = stubbed(c.run);
    const p = await page(s);
    const views = [p.view()];
    for (const o of s.ops) {
      await p.op(o);
      views.push(p.view());
    }
    return { views };
  }
  if (c.open) {
    const files = {};
    const s = real(c.open.port, files);
    // everything the page imports
    const todo = ["/"];
    while (todo.length) {
      const name = todo.pop();
      if (files[name] !== undefined) continue;
      const r = await s.send("GET", name);
      files[name] = await r.text();
      if (r.status != 200) throw new Error("GET " + name + " answers " + r.status);
      for (const m of files[name].matchAll(/import\s+(?:[^"';]*?from\s+)?["'](\.[^"']+)["']/g))
        todo.push(path.posix.resolve(path.posix.dirname(name), m[1]));
    }
    const ready = new Promise((r) => (s.Source.ready = r));
    live = await page(s);
    await ready;
    return { ok: true };
  }
  if (c.close !== undefined) {
    live?.close();
    live = null;
    return { ok: true };
  }
  if (c.op) {
    await live.op(c.op);
    return live.view();
  }
  await live.settle();
  return live.view();
}

process.on("unhandledRejection", (e) => errors.push(String(e?.stack ?? e).slice(0, 400)));
for await (const line of readline.createInterface({ input: process.stdin })) {
  let out;
  try {
    out = await command(JSON.parse(line));
  } catch (e) {
    out = e instanceof Unsupported ? { unsupported: e.message } : { failed: String(e?.stack ?? e).slice(0, 800) };
  }
  process.stdout.write(JSON.stringify(out) + "\n");
}

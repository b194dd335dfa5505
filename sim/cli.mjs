// cli.mjs - simulated invocations of the command line tool, and the oracles over them.
import { World, toBytes, fromBytes, enc, latin } from "./world.mjs";
import { PRNG } from "./prng.mjs";
import { compile, canon } from "./model.mjs";
import { goDecode, Gen } from "./gen.mjs";

export const FLAGS_WITH_VALUE = new Set(["-o", "--output"]);

// How the command line is read (the documented interface, not the code's parser)
export function readArgs(argv) {
  const r = { files: [], outdir: "./build", trace: false, version: false, bad: false };
  let dash = false;
  for (let i = 1; i < argv.length; i++) {
    const a = argv[i];
    if (dash || !a.startsWith("-") || a === "-") { r.files.push(a); continue; }
    if (a === "--") { dash = true; continue; }
    if (a === "-o" || a === "--output") { if (i + 1 >= argv.length) r.bad = true; else r.outdir = argv[++i]; } else if (a.startsWith("--output=")) r.outdir = a.slice(9);
    else if (a === "-t" || a === "--trace") r.trace = true;
    else if (a === "-v" || a === "--version") r.version = true;
    else if (/^-o./.test(a)) r.outdir = a.slice(2).replace(/^=/, "");
    else r.bad = true;
  }
  return r;
}
const norm = (p) => { const out = []; for (const x of p.split("/")) { if (x === "" || x === ".") continue; if (x === "..") out.pop(); else out.push(x); } return "/" + out.join("/"); };
export const absPath = (cwd, p) => norm(p.startsWith("/") ? p : cwd + "/" + p);
export function pathsOf(spec) {
  const a = readArgs(spec.argv);
  if (a.bad || a.version || a.files.length !== 1) return { args: a, src: null, out: null, dir: null };
  const src = absPath(spec.cwd || "/", a.files[0]);
  const base = src.split("/").pop();
  const dot = base.lastIndexOf(".");
  const stem = dot >= 0 ? base.slice(0, dot) : base;
  const dir = absPath(spec.cwd || "/", a.outdir);
  return { args: a, src, dir, out: norm(dir + "/" + stem + ".json") };
}

export class Expect { // the reference model, memoised
  constructor(oracle) { this.oracle = oracle; this.memo = new Map(); }
  of(bytes) {
    const k = latin(bytes);
    let e = this.memo.get(k);
    if (!e) {
      const m = compile(goDecode(bytes), (s) => this.oracle.judge(s));
      e = { ok: m.ok, canon: m.ok ? canon(m.schema) : null, why: m.why, stage: m.stage, unsure: m.unsure };
      if (this.memo.size > 20000) this.memo.clear();
      this.memo.set(k, e);
    }
    return e;
  }
}
// a whole file that is exactly one JSON document -> canonical schema, else null
const parsed = new Map();
export function canonOfFile(bytes) {
  const k = latin(bytes);
  if (parsed.has(k)) return parsed.get(k);
  let c = null;
  try { const j = JSON.parse(new TextDecoder("utf-8", { fatal: true, ignoreBOM: true }).decode(bytes)); if (j && typeof j === "object" && !Array.isArray(j)) c = canon(j); } catch { c = null; }
  if (parsed.size > 20000) parsed.clear();
  parsed.set(k, c);
  return c;
}
// every field, known or not, numbers as they are spelled; absent, null and empty are the same thing
export function exactForm(text) {
  const norm = (x) => {
    if (Array.isArray(x)) return x.map(norm);
    if (x && typeof x === "object") { const o = {}; for (const k of Object.keys(x).sort()) { const v = norm(x[k]); if (v === null || v === "" || (Array.isArray(v) && !v.length)) continue; o[k] = v; } return o; }
    return x;
  };
  try { return JSON.stringify(norm(JSON.parse(text, (k, v, c) => typeof v === "number" ? "number " + (c?.source ?? v) : v))); } catch { return null; }
}
const same = (a, b) => a === b || (a && b && a.length === b.length && Buffer.compare(a, b) === 0);

// Execute a scenario. Returns everything the oracles need.
export function runCli(sc, ctx) {
  const w = new World(sc);
  w.setup(sc.fs);
  if (sc.capacity !== undefined) w.fs.capacity = w.fs.used + sc.capacity;
  if (sc.readonly) w.fs.readonly = true;
  if (sc.power) w.fs.durable();
  const T = { sc, w, procs: [], initial: new Map(), meta: new Map(), watch: new Map(), srcs: new Map() };
  for (const [p, n] of w.fs.walk()) if (n.type !== "dir") T.initial.set(p, n.type === "file" ? n.data : n); else T.initial.set(p, "dir");
  for (const [p, n] of w.fs.walk()) T.meta.set(p, { mode: n.mode, mtime: n.mtime });
  sc.procs.forEach((s) => { const p = w.spawn(ctx.cli, s); const q = pathsOf(s); T.procs.push({ p, ...q }); });
  const snap = (path) => { const n = w.fs.peekNode(path); return !n ? null : n.type === "file" ? n.data : n.type; };
  for (const P of T.procs) {
    if (P.out && !T.watch.has(P.out)) T.watch.set(P.out, [{ t: 0, n: 0, v: snap(P.out) }]);
    if (P.src && !T.srcs.has(P.src)) T.srcs.set(P.src, [{ t: 0, n: 0, v: snap(P.src) }]);
  }
  w.onChange = (why) => {
    for (const [path, l] of T.watch) { const v = snap(path); if (!same(v, l[l.length - 1].v)) l.push({ t: w.now, n: w.hist.length, v, why }); }
    for (const [path, l] of T.srcs) { const v = snap(path); if (!same(v, l[l.length - 1].v)) l.push({ t: w.now, n: w.hist.length, v, why }); }
  };
  for (const e of sc.env || []) w.after(e.t, () => w.act(e.act));
  for (const P of T.procs) { const end = P.p.end; P.p.end = function (s, c) { if (this.state === "running" && P.out) P.atEnd = snap(P.out); P.endN = w.hist.length; return end.call(this, s, c); }; }
  for (const P of T.procs) if (P.p.spec.down !== undefined) { const q = P.p, l = q.launch; q.launch = function () { w.act({ a: "power", cut: q.spec.down }); return l.call(this); }; }
  if (sc.onLaunch) { const q = T.procs[sc.onLaunch.pid].p, l = q.launch; q.launch = function () { sc.onLaunch.fn(w); return l.call(this); }; }
  w.begin();
  const size = (x) => typeof x?.data === "string" ? x.data.length : 0;
  w.sized = sc.procs.length * (sc.fs.reduce((n, f) => n + size(f), 0) + [...(sc.env || []), ...sc.faults].reduce((n, f) => n + size(f.act), 0));
  T.quiet = w.run(sc.maxSteps || 20000);
  T.final = new Map();
  for (const [p, n] of w.fs.walk()) T.final.set(p, n.type === "file" ? n.data : n.type === "dir" ? "dir" : n);
  T.finalMeta = new Map([...w.fs.walk()].map(([p, n]) => [p, { mode: n.mode, mtime: n.mtime }]));
  w.release();
  return T;
}

export const srcVersions = (T, P) => { // contents the source had while P ran
  const l = T.srcs.get(P.src); const a = P.p.startedAt ?? 0, b = P.p.endedAt ?? Infinity;
  return l.filter((x, i) => x.t <= b && (i + 1 >= l.length || l[i + 1].t >= a)).map((x) => x.v);
};
// bytes of the source exactly as they were delivered, if delivered to the end
export function delivered(T, P) { return P.p.opened.filter((f) => f.got && f.path && absPath("/", f.path) === P.src && f.eof).map((f) => Uint8Array.from(f.got)); }
export function accepts(T, P, ctx) { // schemas this invocation may publish
  const vs = srcVersions(T, P).filter((v) => v instanceof Uint8Array);
  const l = T.srcs.get(P.src);
  const all = l.length > 1 ? [...vs, ...delivered(T, P)] : vs;
  const es = all.map((v) => ctx.expect.of(v));
  return { all: es, canons: new Set(es.filter((e) => e.ok).map((e) => e.canon)), unsure: es.some((e) => e.unsure), bytes: all };
}
export const successful = (P) => P.p.state === "exited" && P.p.code === 0 && !P.args.version && P.src;
export function fmt(v) { return v === null ? "absent" : v instanceof Uint8Array ? `${v.length} bytes ${JSON.stringify(Buffer.from(v).toString("utf8").slice(0, 60))}…${JSON.stringify(Buffer.from(v).toString("utf8").slice(-30))}` : String(v); }

// ---- which exit codes does what happened to this process justify?
const BENIGN = (r, P) => (r.err === "ENOENT" && /^(stat|lstat|readlink|unlink)$/.test(r.op) && !r.what.startsWith(P.src)) || (r.op === "readlink" && r.err === "EINVAL") || (r.op === "mkdir" && r.err === "EEXIST") || r.op === "stdwrite" || r.err === "EINTR";
export function causes(T, P, ctx) {
  const s = new Set();
  for (const r of P.p.trace) {
    if (!r.err || BENIGN(r, P)) continue;
    const path = r.what.replace(/:[rw]$/, "").split(">")[0];
    const a = absPath("/", path);
    if (a === P.src) { s.add(4); if (/^l?stat$/.test(r.op)) s.add(7); } else if (r.op === "mkdir") s.add(3);
    else if (/^l?stat$/.test(r.op) && (P.dir === a || P.dir.startsWith(a === "/" ? "/" : a + "/"))) { s.add(3); s.add(7); } else s.add(7);
  }
  const ac = accepts(T, P, ctx);
  if (ac.all.some((e) => !e.ok || e.unsure)) s.add(5);
  const n0 = T.final.get(P.dir) ?? T.w.fs.peekNode(P.dir)?.type;
  if (n0 !== "dir") { const nn = T.w.fs.peekNode(P.dir); if (!nn || nn.type !== "dir") s.add(3); }
  if (T.watch.get(P.out).some((x) => x.v === "dir")) s.add(7);
  const sn = T.w.fs.peekNode(P.src), on = T.w.fs.peekNode(P.out);
  if (sn && on && sn === on) s.add(7);
  return s;
}

export function signature(T) { // the interleaving, as a string: who did what to what, in which order, with which outcome
  let s = "";
  for (const h of T.w.hist) if (h.ev === "op" || /^(kill|killed|exited|trapped|split)/.test(h.ev || "") || h.env) s += `${h.pid ?? "e"}${h.op || h.env || ""}${h.ev !== "op" ? h.ev || "" : ""}${h.err || ""};`;
  return s;
}
export function describeHist(T, max = 400) {
  return T.w.hist.slice(0, max).map((h) => `${String(h.n).padStart(4)} t=${(h.t / 1e6).toFixed(3)}ms ${h.env ? "ENV " + h.env + " " + (h.path || "") : `p${h.pid} ${h.ev === "op" ? "" : h.ev + " "}${h.op || ""}${h.what ? " " + h.what : ""}${h.res !== undefined ? " =" + h.res : ""}${h.err ? " !" + h.err : ""}${h.code !== undefined && h.code !== null ? " code=" + h.code : ""}`}`);
}

// ---- scenario building blocks
export const SRC = (n = 0) => ["/w/a.kf", "/w/b.kf", "/w/sub/c.kf", "/w/d.x.kf"][n];
export function prior(r, g) { // what an output path may hold before a run
  return r.weighted([
    [3, () => null],
    [3, () => JSON.stringify({ owner: r.pick(["", "", "0x71C7656EC7ab88b098defB751B7401B5f6d8976F"]), name: "previous" }, null, 2)],
    [3, () => JSON.stringify({ owner: r.pick(["", "", "alice"]), name: "previous", tables: [{ name: "t".repeat(r.range(1, 3000)), columns: [] }] }, null, 2)],
    [1, () => ""],
    [1, () => "x".repeat(r.range(1, 5000))],
    [1, () => "{\n  \"owner\": \"\",\n  \"na"],
  ])();
}
export function lat(r) { return r.weighted([[4, { kind: "uniform" }], [2, { kind: "zero" }], [2, { kind: "tied" }], [2, { kind: "heavy", p: 0.1 + r.float() * 0.3, max: r.pick([1e9, 60e9, 3600e9]) }]]); }
export function clock(r) {
  return r.weighted([[5, {}], [1, { base: 0 }], [1, { base: 4102444800e9 }], [2, { jumps: [{ at: r.int(3e6), by: r.pick([-3600e9, 3600e9, -1e9, 86400e9 * 365]) }] }]]);
}
export function argvs(r, src, out, { t = false } = {}) {
  const v = r.weighted([[5, ["-o", out]], [1, ["--output", out]], [1, ["--output=" + out]], [1, ["-o" + out]]]);
  const tr = t ? [r.pick(["-t", "--trace"])] : [];
  return r.chance(0.5) ? ["kuneiform", src, ...v, ...tr] : ["kuneiform", ...tr, ...v, src];
}
export const ERR = {
  any: ["EIO"], mkdir: ["EACCES", "ENOSPC", "EROFS", "EIO", "EDQUOT", "EMLINK"], stat: ["EIO", "EACCES"], lstat: ["EIO", "EACCES"], fstat: ["EIO"],
  open: ["EACCES", "EMFILE", "ENFILE", "EIO", "ENOSPC", "EROFS", "ENOMEM", "EINTR"], read: ["EIO", "EINTR", "ENOMEM"], write: ["ENOSPC", "EIO", "EDQUOT", "EINTR", "EFBIG"],
  close: ["EIO", "ENOSPC", "EDQUOT"], rename: ["EIO", "EACCES", "ENOSPC", "EROFS"], unlink: ["EIO", "EACCES"], stdwrite: ["EIO", "ENOSPC"], fsync: ["EIO", "ENOSPC"],
};
// faults placed on operations a previous run performed
export function faultFor(r, ops, pid, { kinds = ["errno", "short", "torn", "delay", "kill", "slow", "lateerr"], only = null } = {}) {
  const c = only ? ops.filter(only) : ops;
  if (!c.length) return null;
  const o = r.pick(c);
  const base = { at: "op", pid, op: o.op, nth: o.nth };
  let k = r.pick(kinds);
  if ((k === "short" || k === "torn" || k === "slow") && !/^(write|read|stdwrite)$/.test(o.op)) k = kinds.includes("errno") ? "errno" : kinds[0];
  if ((k === "torn" || k === "slow") && o.op === "read") k = "short";
  if (k === "lateerr" && !/^(close|rename|fsync|mkdir)$/.test(o.op)) k = "errno";
  switch (k) {
    case "errno": return { ...base, kind: "errno", code: r.pick(ERR[o.op] || ERR.any) };
    case "short": return { ...base, kind: "short", frac: r.float() * 0.95 };
    case "torn": return { ...base, kind: "torn", frac: r.float(), code: r.pick(["ENOSPC", "EIO", "EDQUOT"]) };
    case "slow": return { ...base, kind: "slow", frac: r.float(), delay: r.range(1e3, 5e6) };
    case "lateerr": return { ...base, kind: "lateerr", code: r.pick(["EIO", "ENOSPC", "EDQUOT"]) };
    case "delay": return { ...base, kind: r.pick(["delay", "delayret"]), delay: r.pick([1e5, 1e7, 30e9, 600e9]) };
    case "kill": return { ...base, kind: "kill", when: o.op === "write" ? r.pick(["before", "mid", "mid", "after"]) : r.pick(["before", "after"]), frac: r.float() };
  }
}

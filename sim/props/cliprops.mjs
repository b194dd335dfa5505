// cliprops.mjs - properties decided on simulated invocations of the command line tool.
import { World, toBytes, fromBytes, enc, latin } from "../world.mjs";
import { PRNG } from "../prng.mjs";
import { Gen, goDecode } from "../gen.mjs";
import * as K from "../cli.mjs";
import { lex } from "../model.mjs";
import { LibProc, ThreadsProc } from "../sessions.mjs";
import { expected, differs, points } from "./libprops.mjs";

const SIZES = [0.3, 0.6, 1, 1, 2];
const G = (r, ctx) => new Gen(r, (s) => ctx.expectOracle(s));
const bystanders = (r) => r.chance(0.5) ? [{ path: "/w/out/other.json", data: "{\"keep\":1}" }, { path: "/w/notes.txt", data: "keep me" }] : [];
const dryOps = (sc, ctx) => { const T = K.runCli({ ...sc, faults: [] }, ctx); return T.procs.map((P) => P.p.trace.map(({ op, nth, what }) => ({ op, nth, what }))); };
// operations of a run with the faults chosen so far: what is only done after a failure can fail as well
const wetOps = (sc, ctx, i = 0) => { const T = K.runCli(sc, ctx); return T.procs[i].p.trace.map(({ op, nth, what }) => ({ op, nth, what })); };
const onlyAfter = (ops, dry) => { const seen = new Set(dry.map((o) => o.op + o.nth + o.what)); const l = ops.filter((o) => !seen.has(o.op + o.nth + o.what)); return l.length ? l : ops; };
// an older output that is nearly the right one: same size, a part, more, another owner
function twin(sc, r, ctx) {
  const P = K.pathsOf(sc.procs[0]); if (!P.out || sc.fs.some((f) => f.path === P.out && (f.symlink || f.link || f.dir))) return;
  const T = K.runCli({ ...sc, faults: [], capacity: undefined, readonly: undefined }, ctx), b = T.procs[0].atEnd;
  if (!(b instanceof Uint8Array) || T.procs[0].p.code !== 0) return;
  const t = Buffer.from(b).toString("utf8"), nm = t.match(/"name": "([^"]+)"/);
  const flip = () => { const k = nm.index + 9; return t.slice(0, k) + (t[k] === "q" ? "w" : "q") + t.slice(k + 1); };
  const v = r.weighted([[3, flip], [1, () => t], [1, () => t.slice(0, r.int(t.length))], [1, () => t + r.pick(["\n", "}", " ", "\n\n", t])], [2, () => t.replace('"owner": ""', '"owner": "0xabc"')], [1, () => t.replace(/\s+/g, " ")], [1, () => " ".repeat(t.length)], [1, () => t.split("\n").reverse().join("\n")]])();
  sc.fs = sc.fs.filter((f) => f.path !== P.out && !(f.path === P.dir && f.dir && f.mode === undefined)); sc.fs.push({ path: P.out, data: v });
}
const result = (T, viol, extra = {}) => ({ viol, sig: K.signature(T), fired: T.w.fired, simNs: T.w.now, steps: T.w.steps, switches: T.w.switches, hist: () => K.describeHist(T), ...extra });
const notHung = (T, viol) => {
  if (!T.quiet) { viol.push({ cls: "unbounded", msg: `the run did not come to rest within ${(T.sc.maxSteps || 20000) + 40 * T.w.sized} events` }); return false; }
  for (const P of T.procs) if (P.p.state === "running") { viol.push({ cls: "hung", msg: `invocation ${P.p.pid} never finished: nothing is pending but it did not exit` }); return false; }
  return true;
};
const cmd = (P) => `invocation ${P.p.pid} (${P.p.spec.argv.slice(1).join(" ")})`;

// names that are patterns, variables or escapes to some: files they could be mistaken for
const DECOYS = { "/w/s[1].kf": ["/w/s1.kf"], "/w/w*?.kf": ["/w/wa.kf"], "/w/u%20v%s.kf": ["/w/u v%s.kf", "/w/u v.kf"], "/w/~t.kf": ["/home/u/t.kf"], "/w/$HOME.kf": ["/w/.kf"], "/w/x\\y.kf": ["/w/xy.kf", "/w/x/y.kf"] };
// an output (or a source) that ends just where a buffer would
export function alignText(text, r, outLen) { // outLen(text): bytes of its output, -1 if it has none
  const f = { data: text }; if (typeof text !== "string") return text;
  const B = r.pick([512, 1024, 4096, 4096, 4096, 8192, 16384, 32768, 65536]), want = r.pick([0, 0, 0, 0, 1, B - 1]);
  const src = r.chance(0.5), n = src ? toBytes(text).length : outLen(text); if (n < 0) return text;
  const d = (want - n % B + B) % B;
  if (src) { f.data += d > 3 && r.chance(0.5) ? "//" + "x".repeat(d - 3) + "\n" : (r.chance(0.5) ? "\n" : " ").repeat(d); return f.data; }
  return text.replace(/(database\s+[A-Za-z]\w*)/, (m) => m + "q".repeat(d));
}
const align = (sc, r, ctx) => { sc.fs[0].data = alignText(sc.fs[0].data, r, (t) => { const P = K.runCli({ ...sc, fs: sc.fs.with(0, { ...sc.fs[0], data: t }), faults: [], capacity: undefined, readonly: undefined }, ctx).procs[0]; return P.p.code === 0 && P.atEnd instanceof Uint8Array ? P.atEnd.length : -1; }); };
// common: a single-source scenario skeleton
const SRCS = ["/w/a.kf", "/w/a.kf", "/w/a.kf", "/w/a.kf", "/w/sub/c.kf", "/w/d.x.kf", "/w/noext", "/w/v1.2/e", "/w/with space.kf", "/w/ü.kf", "/elsewhere/f.KF", "/w/.g.kf", "/w/h..kf", "/w/i.json.kf", "/w/other.kf", "/w/version", "/w/help", "/w/completion.kf", "/w/s[1].kf", "/w/~t.kf", "/w/$HOME.kf", "/w/u%20v%s.kf", "/w/w*?.kf", "/w/x\\y.kf"];
const OUTS = ["/w/out", "/w/out", "/w/out", "/w/out", "/w/out/deep/er", "/w", "/w/build", "/elsewhere/o", "/w/sub", "/w/o.d", "/w/$HOME", "/w/~/[a]"];
function base(r, ctx, { text, t = false, src, out, old, mkout } = {}) {
  src ??= r.pick(SRCS); out ??= r.pick(OUTS);
  if (src === "/w/other.kf") out = "/w/out";
  const fs = [{ path: src, data: text }, { path: "/w", dir: true }, ...bystanders(r).filter((f) => src !== "/w/other.kf" || !/other/.test(f.path))];
  const o = old === undefined ? K.prior(r) : old;
  const outp = K.pathsOf({ argv: ["k", src, "-o", out], cwd: "/w" }).out;
  if (o !== null) fs.push({ path: outp, data: o }); else if (mkout ?? r.chance(0.5)) fs.push({ path: out, dir: true });
  const rel = r.chance(0.5);
  if (rel && r.chance(0.25)) { // directories of the output's name elsewhere, next to the source above all
    const n = (out.startsWith("/w/") ? out.slice(3) : out).replace(/^\//, "");
    for (const d of [src.replace(/\/[^/]*$/, ""), "", "/w/sub"]) if (r.chance(0.6) && !fs.some((f) => f.path === `${d}/${n}` || `${d}/${n}`.startsWith(f.path + "/") && !f.dir)) fs.push({ path: `${d}/${n}`, dir: true });
  }
  for (const x of DECOYS[src] || []) if (r.chance(0.7) && !fs.some((f) => f.path === x || f.path.startsWith(x + "/"))) fs.push({ path: x, data: "database decoy; table t { a int }" });
  const rp = (p) => rel && p.startsWith("/w/") ? p.slice(3) : p;
  const sc = { kind: "cli", seed: r.u32(), lat: K.lat(r), clock: K.clock(r), fs, procs: [{ argv: out === "/w/build" && r.chance(0.7) ? ["kuneiform", rp(src), ...(t ? ["-t"] : [])] : K.argvs(r, rp(src), rp(out), { t }), cwd: "/w", umask: r.pick([0o022, 0o022, 0o077, 0]), hash: r.u32(), ...(/[$~]/.test(src + out) ? { env: { HOME: "/home/u" } } : {}) }], faults: [] };
  if (r.chance(0.05)) align(sc, r, ctx);
  return sc;
}
const exactAtEnd = (T, P, ctx, viol, who = "") => {
  const ac = K.accepts(T, P, ctx);
  const v = P.atEnd;
  const c = v instanceof Uint8Array ? K.canonOfFile(v) : null;
  if (c === null) { viol.push({ cls: "published garbage", msg: `${cmd(P)} reported success but ${P.out} is not one complete JSON document: ${K.fmt(v)}${who}` }); return false; }
  if (!ac.canons.has(c)) {
    if (ac.unsure) return true;
    const e = ac.all.find((x) => x.ok);
    viol.push({ cls: e ? "wrong schema" : "invalid source accepted", msg: `${cmd(P)} reported success but ${P.out} ${e ? "is not the schema of the source: expected " + e.canon.slice(0, 300) + " got " + c.slice(0, 300) : "was produced from an invalid source (" + ac.all.map((x) => x.why).join("; ") + ")"}${who}` });
    return false;
  }
  return true;
};

// ------------------------------------------------------------------ C01
export const C01 = {
  id: "C01",
  rule: "a case is one seeded scenario: generated source (valid by the reference model), prior output, latencies, clock, and up to 4 faults placed on operations the invocation performs; non-trivial when at least one injected fault fired or the prior output was longer than the new one; distinct by the recorded sequence of operations and outcomes plus the source",
  gen(r, ctx) {
    const g = G(r, ctx);
    if (r.chance(0.015)) g.pad = r.pick([5e3, 66e3, 140e3, 1.1e6, 1.1e6]);
    const sc = base(r, ctx, { text: g.valid(r.pick(SIZES)), t: r.chance(0.1) });
    if (r.chance(0.2)) twin(sc, r, ctx);
    if (r.chance(0.08)) sc.capacity = r.int(3000);
    if (r.chance(0.85)) {
      const ops = dryOps(sc, ctx)[0];
      for (let i = r.weighted([[5, 1], [3, 2], [1, 4]]); i > 0; i--) { const f = K.faultFor(r, ops, 0, { kinds: ["errno", "short", "torn", "delay", "lateerr", "slow"], only: r.chance(0.6) ? (o) => /write|close|rename|read|fsync/.test(o.op) : null }); if (f) sc.faults.push(f); }
    }
    return sc;
  },
  check(sc, ctx) {
    const T = K.runCli(sc, ctx), viol = [], P = T.procs[0];
    if (notHung(T, viol) && P.src) {
      if (K.successful(P)) exactAtEnd(T, P, ctx, viol);
      else if (!K.causes(T, P, ctx).size) viol.push({ cls: "valid source refused", msg: `${cmd(P)} ended with ${P.p.state} code=${P.p.code} although the source is valid and nothing failed: ${P.p.text().slice(-300)}` });
    }
    const e = K.accepts(T, P, ctx).all[0];
    return result(T, viol, { nontrivial: Object.keys(T.w.fired).some((k) => k !== "timer") || (P.src && sc.fs.length > 2), probes: { success_after_fault: K.successful(P) && Object.keys(T.w.fired).length > 0, failed: !K.successful(P), overwrote_longer: K.successful(P) && T.watch.get(P.out)[0].v instanceof Uint8Array && T.watch.get(P.out)[0].v.length > (P.atEnd?.length ?? 0), source_valid: !!e?.ok } });
  },
};

// ------------------------------------------------------------------ C02
export const C02 = {
  id: "C02",
  rule: "a case is a source that was broken by one semantic rule, a textual edit, or storage damage (truncation, bit flips, lost, zeroed, misdirected or duplicated blocks), at rest or by a writer acting while the tool runs, compiled over a prior output; non-trivial when the reference model rejects what the tool could have read; distinct by source bytes",
  gen(r, ctx) {
    const g = G(r, ctx);
    let data, how;
    const k = r.int(10);
    if (k < 5) { const d = g.db(r.pick([0.3, 0.5, 1, 1])); how = r.weighted([[10, () => g.breakRule(d)], [4, () => g.misname(d)], [4, () => g.undeclare(d)], [2, () => g.round(d, true)]])(); for (let i = r.weighted([[6, 0], [1, 1], [1, 3]]); i > 0; i--) how += ", " + g.breakRule(d); data = g.render(d); } else if (k < 8) { const x = g.invalid(r.pick([0.5, 1, 1])); data = x.text; how = x.how; } else { const x = g.damage(enc.encode(g.valid(r.pick([0.5, 1, 2])))); data = fromBytes(x.bytes); how = x.how; }
    const sc = base(r, ctx, { text: data, t: r.chance(0.1) });
    sc.how = how;
    if (r.chance(0.15)) { // the source is being saved while the tool reads it
      const good = enc.encode(g.valid(0.6)); const n = r.int(good.length);
      sc.fs[0].data = fromBytes(good.slice(0, n));
      const ops = dryOps(sc, ctx)[0].filter((o) => o.what.startsWith(sc.fs[0].path));
      if (ops.length) { const o = r.pick(ops); sc.faults.push({ at: "op", pid: 0, op: o.op, nth: o.nth, kind: "env", when: r.pick(["before", "after"]), act: { a: "put", path: sc.fs[0].path, data: fromBytes(r.chance(0.5) ? good.slice(0, r.int(good.length)) : g.damage(good).bytes), replace: r.chance(0.3) } }); sc.how = "torn save"; }
    }
    if (r.chance(0.2)) { const ops = dryOps(sc, ctx)[0]; const f = K.faultFor(r, ops, 0, { kinds: ["short", "errno", "delay"] }); if (f) sc.faults.push(f); }
    return sc;
  },
  check(sc, ctx) {
    const T = K.runCli(sc, ctx), viol = [], P = T.procs[0];
    let bad = false;
    if (notHung(T, viol) && P.src) {
      const ac = K.accepts(T, P, ctx);
      bad = ac.canons.size === 0;
      const allowed = (v) => v instanceof Uint8Array && ac.canons.has(K.canonOfFile(v));
      const l = T.watch.get(P.out);
      if (!ac.unsure) {
        if (K.successful(P) && bad) viol.push({ cls: "invalid source accepted", msg: `${cmd(P)} exited 0 although the source is invalid (${[...new Set(ac.all.map((x) => x.why))].join("; ")}${sc.how ? "; made by: " + sc.how : ""})` });
        for (const x of l.slice(1)) if (!(x.v instanceof Uint8Array && same(x.v, l[0].v)) && !allowed(x.v) && x.v !== null && !(x.v.length === 0 && false)) { viol.push({ cls: "invalid source published", msg: `${P.out} became ${K.fmt(x.v)} although no version of the source compiles to that (${ac.all.map((y) => y.why || "valid").join("; ")})` }); break; }
        if (bad && K.successful(P) === false && P.p.state === "exited" && P.p.code === 0) viol.push({ cls: "invalid source accepted", msg: "exit 0" });
      }
    }
    return result(T, viol, { nontrivial: bad, key: P.src ? latin(toBytes(sc.fs[0].data)) : "", probes: { rejected: bad && P.p.code === 5, ["how:" + (/,/.test(sc.how) ? "several rules" : sc.how)]: bad } });
  },
};
function same(a, b) { return a === b || (a instanceof Uint8Array && b instanceof Uint8Array && Buffer.compare(a, b) === 0); }

// ------------------------------------------------------------------ C03
export const C03 = {
  id: "C03",
  rule: "a case makes one stage fail (arguments, output directory, reading, the source itself, writing) through the file system's state or injected errors, torn writes, late errors or a full disk; non-trivial when the invocation failed; distinct by operations and outcomes",
  gen(r, ctx) {
    const g = G(r, ctx);
    const kind = r.weighted([[1, "args"], [2, "fsstate"], [2, "source"], [6, "fault"], [1, "capacity"]]);
    const sc = base(r, ctx, { text: kind === "source" ? g.invalid(0.6).text : g.valid(r.pick([0.3, 0.6, 1])), t: r.chance(0.1), ...(kind === "args" || kind === "fsstate" ? { src: "/w/a.kf", out: "/w/out" } : {}) });
    const p = sc.procs[0];
    if (kind === "args") {
      sc.argkind = r.pick(["none", "two", "flag", "novalue", "version"]);
      p.argv = { none: ["kuneiform", "-o", "out"], two: ["kuneiform", "a.kf", "b.kf", "-o", "out"], flag: ["kuneiform", "a.kf", "--nosuch"], novalue: ["kuneiform", "a.kf", "-o"], version: ["kuneiform", r.pick(["-v", "--version"])] }[sc.argkind];
    } else if (kind === "fsstate") {
      const s = r.pick(["nosrc", "srcdir", "srcperm", "outfile", "outro", "parentro", "outjsondir", "readonly", "parentfile", "samefile", "dangling"]);
      sc.fsstate = s;
      const src = sc.fs[0];
      if (s === "nosrc") sc.fs = sc.fs.slice(1).concat([{ path: "/w/x", data: "x" }]);
      if (s === "srcdir") sc.fs[0] = { path: src.path, dir: true };
      if (s === "srcperm") src.mode = 0;
      if (s === "outfile") sc.fs = [src, { path: "/w/out", data: "a file" }];
      if (s === "outro") sc.fs = [src, { path: "/w/out", dir: true }, { path: "/w/out/a.json", data: "old" }, { path: "/w/out", dir: true, mode: 0o555 }];
      if (s === "parentro") { sc.fs = [src, { path: "/w/p", dir: true, mode: 0o555 }]; p.argv = ["kuneiform", "a.kf", "-o", "p/q"]; }
      if (s === "parentfile") { sc.fs = [src, { path: "/w/p", data: "f" }]; p.argv = ["kuneiform", "a.kf", "-o", "p/q"]; }
      if (s === "outjsondir") sc.fs = [src, { path: "/w/out/a.json", dir: true }, ...(r.chance(0.5) ? [{ path: "/w/out/a.json/x", data: "x" }] : [])];
      if (s === "readonly") sc.readonly = true;
      if (s === "samefile") { sc.fs = [{ path: "/w/s.json", data: src.data }]; p.argv = ["kuneiform", "s.json", "-o", r.pick([".", "/w"])]; }
      if (s === "dangling") sc.fs = [src, { path: "/w/out/a.json", symlink: "/w/nowhere/z.json" }];
    } else if (kind === "capacity") sc.capacity = r.int(1500);
    else if (kind === "fault") {
      const ops = dryOps(sc, ctx)[0];
      for (let i = r.weighted([[6, 1], [2, 2]]); i > 0; i--) { const f = K.faultFor(r, ops, 0, { kinds: ["errno", "errno", "torn", "lateerr"], only: (o) => o.op !== "stdwrite" }); if (f) sc.faults.push(f); }
      if (sc.faults.length && r.chance(0.3)) { const f = K.faultFor(r, onlyAfter(wetOps(sc, ctx), ops), 0, { kinds: ["errno", "torn", "lateerr"], only: (o) => o.op !== "stdwrite" }); if (f) sc.faults.push(f); }
      if (r.chance(0.15)) { const f = K.faultFor(r, ops, 0, { kinds: ["errno"], only: (o) => o.op === "stdwrite" }); if (f) sc.faults.push(f); }
    }
    return sc;
  },
  check(sc, ctx) {
    const T = K.runCli(sc, ctx), viol = [], P = T.procs[0];
    const a = P.args;
    const fail = P.p.state === "exited" ? P.p.code !== 0 : true;
    if (notHung(T, viol)) {
      if (P.p.state === "trapped") viol.push({ cls: "crashed", msg: `${cmd(P)} crashed: ${P.p.trap} ${P.p.text().slice(0, 300)}` });
      const std = P.p.trace.some((x) => x.op === "stdwrite" && x.err && x.err !== "EINTR");
      if (a.bad) { if (P.p.code !== 1) viol.push({ cls: "wrong exit code", msg: `${cmd(P)}: unusable flags must exit 1, got ${P.p.code}` }); } else if (a.version) { if (P.p.code !== 0) viol.push({ cls: "wrong exit code", msg: `--version must exit 0, got ${P.p.code}` }); } else if (a.files.length !== 1) { if (P.p.code !== 2) viol.push({ cls: "wrong exit code", msg: `${cmd(P)}: ${a.files.length} source files named must exit 2, got ${P.p.code}` }); } else {
        const c = K.causes(T, P, ctx);
        if (fail && !c.has(P.p.code)) viol.push({ cls: "wrong exit code", msg: `${cmd(P)} exited ${P.p.code}; what happened to it justifies ${c.size ? [...c].join(" or ") : "only success"}: ${P.p.text().slice(-300)}` });
        if (!fail) {
          // success although something failed is fine only if the result is right
          const ac = K.accepts(T, P, ctx); const v = P.atEnd;
          if (!ac.unsure && !(v instanceof Uint8Array && ac.canons.has(K.canonOfFile(v)))) viol.push({ cls: "silent failure", msg: `${cmd(P)} exited 0 after ${[...c].length ? "a failure (" + P.p.trace.filter((x) => x.err).map((x) => `${x.op} ${x.what}: ${x.err}`).join(", ") + ")" : "an ordinary run"} but ${P.out} holds ${K.fmt(v)}` });
        }
      }
      if (fail && !std && !P.p.text().trim()) viol.push({ cls: "silent failure", msg: `${cmd(P)} exited ${P.p.code} without printing any diagnostic` });
      // harmless
      const late = P.p.trace.some((x) => sc.faults.some((f) => f.kind === "lateerr" && f.op === x.op && f.nth === x.nth && x.op === "rename"));
      const ac = P.src ? K.accepts(T, P, ctx) : null;
      if (fail) {
        if (P.src) for (const x of T.watch.get(P.out).slice(1)) {
          if (same(x.v, T.watch.get(P.out)[0].v)) continue;
          if (late && x.v instanceof Uint8Array && ac.canons.has(K.canonOfFile(x.v))) continue;
          viol.push({ cls: "failure damaged output", msg: `${cmd(P)} failed (exit ${P.p.code}) and ${P.out} went from ${K.fmt(T.watch.get(P.out)[0].v)} to ${K.fmt(x.v)}` }); break;
        }
      }
    }
    return result(T, viol, { nontrivial: fail, probes: { ["exit " + P.p.code]: true, ["state:" + (sc.fsstate || sc.argkind || "")]: fail } });
  },
};
function linkTarget(T, P) { const n = P.out && T.initial.get(P.out); return n && n.type === "symlink" ? K.absPath(P.out.replace(/\/[^/]*$/, ""), n.target) : null; }

// ------------------------------------------------------------------ C04
export const C04 = {
  id: "C04",
  rule: "a case kills the invocation before, after or in the middle of one operation (torn write) with an older output in place, optionally after earlier faults (short, split or slow writes); non-trivial when the kill happened; distinct by operations and outcomes",
  gen(r, ctx) {
    const g = G(r, ctx);
    const sc = base(r, ctx, { text: g.valid(r.pick(SIZES)), t: r.chance(0.1), old: r.chance(0.8) ? K.prior(r) : undefined });
    if (r.chance(0.2)) twin(sc, r, ctx);
    const ops = dryOps(sc, ctx)[0];
    const hot = (o) => /write|rename|close|unlink|open|fsync|truncate|link|mkdir/.test(o.op) && !/std/.test(o.op);
    if (r.chance(0.35)) { const f = K.faultFor(r, ops, 0, { kinds: ["short", "slow", "torn", "errno", "errno"], only: hot }); if (f) sc.faults.push(f); }
    let ops2 = ops;
    if (sc.faults.length && r.chance(0.7)) { ops2 = wetOps(sc, ctx); if (r.chance(0.6)) ops2 = onlyAfter(ops2, ops); }
    const f = K.faultFor(r, ops2, 0, { kinds: ["kill"], only: r.chance(0.75) && ops2.some(hot) ? hot : null });
    if (f) sc.faults.push(f);
    const outp = K.pathsOf(sc.procs[0]).out;
    if (r.chance(0.1)) { sc.fs = sc.fs.filter((x) => x.path !== outp); sc.fs.push({ path: "/w/real/z.json", data: "{\n  \"owner\": \"\",\n  \"name\": \"linked\"\n}" }, { path: outp, symlink: "/w/real/z.json" }); }
    return sc;
  },
  check(sc, ctx) {
    const T = K.runCli(sc, ctx), viol = [], P = T.procs[0];
    if (notHung(T, viol) && P.src) {
      const ac = K.accepts(T, P, ctx), l = T.watch.get(P.out);
      if (!ac.unsure) for (const x of l.slice(1)) {
        if (same(x.v, l[0].v) || (x.v instanceof Uint8Array && ac.canons.has(K.canonOfFile(x.v)))) continue;
        viol.push({ cls: "torn output", msg: `${P.out} was ${K.fmt(l[0].v)} and became ${K.fmt(x.v)} (neither the previous content nor the complete schema) at t=${(x.t / 1e6).toFixed(3)}ms; the invocation ${P.p.state === "killed" ? "was then killed" : "ended with " + P.p.state + " " + P.p.code}` }); break;
      }
      const target = linkTarget(T, P);
      for (const [path, v] of T.initial) {
        if (path === P.out || path === target || (typeof v === "object" && !(v instanceof Uint8Array))) continue;
        if (!same(v, T.final.get(path))) { viol.push({ cls: "other file damaged", msg: `${path} changed: ${K.fmt(v)} -> ${T.final.has(path) ? K.fmt(T.final.get(path)) : "gone"}` }); break; }
      }
      // a crash may leave a scratch file, but nothing that looks like a result
      for (const [path, v] of T.final) if (!T.initial.has(path) && path !== P.out && path !== target && path.endsWith(".json") && v instanceof Uint8Array) { viol.push({ cls: "stray result", msg: `an interrupted run left ${path}` }); break; }
    }
    const mid = P.p.state === "killed" && T.watch.size;
    return result(T, viol, { nontrivial: P.p.state === "killed", probes: { killed: P.p.state === "killed", killed_after_publish: P.p.state === "killed" && T.watch.get(P.out)?.length > 1, killed_before_publish: P.p.state === "killed" && T.watch.get(P.out)?.length === 1, killed_mid_write: !!T.w.fired["torn write at crash"] } });
  },
};

// ------------------------------------------------------------------ C05
export const C05 = {
  id: "C05",
  rule: "a case is 2-5 invocations that overlap under a seeded schedule (latencies, stalls, writes that become visible in two steps), sharing or not sharing sources, output directories and output files, some killed or failing, with a writer replacing a source; non-trivial when at least two invocations overlapped; distinct by the interleaving of operations",
  gen(r, ctx) {
    const g = G(r, ctx);
    const n = r.weighted([[5, 2], [3, 3], [1, 4], [1, 5]]);
    const texts = [g.valid(r.pick(SIZES)), g.valid(r.pick(SIZES)), r.chance(0.25) ? g.invalid(0.6).text : g.valid(r.pick(SIZES))];
    const sc = { kind: "cli", seed: r.u32(), lat: K.lat(r), clock: K.clock(r), fs: [], procs: [], faults: [] };
    const places = [["/w/a.kf", "/w/out"], ["/w/b/a.kf", "/w/out"], ["/w/c/a.kf", r.chance(0.7) ? "/w/out" : "/w/out/deep/er"], ["/w/d.kf", "/w/out"]];
    const shared = r.chance(0.7);
    const used = new Map();
    for (let i = 0; i < n; i++) {
      const [src, out] = shared ? places[r.int(3)] : places[i % 4];
      if (!used.has(src)) used.set(src, texts[used.size % 3]);
      sc.procs.push({ argv: K.argvs(r, src, out, { t: r.chance(0.05) }), cwd: "/w", umask: 0o022, start: r.pick([0, 0, 0, r.int(3e6)]), hash: r.u32() });
    }
    if (r.chance(0.4)) for (const p of sc.procs) p.ospid = r.chance(0.8) ? 7 : 8; // containers that share a volume
    for (const [p, t] of used) sc.fs.push({ path: p, data: t });
    const o = K.prior(r); if (o !== null) sc.fs.push({ path: "/w/out/a.json", data: o });
    if (r.chance(0.6)) {
      const ops = dryOps(sc, ctx);
      for (let i = r.range(1, 3); i > 0; i--) {
        const pid = r.int(n);
        const f = K.faultFor(r, ops[pid], pid, { kinds: ["slow", "slow", "delay", "delay", "short", "kill", "errno"], only: r.chance(0.7) ? (x) => /write|rename|close|open|mkdir/.test(x.op) && x.op !== "stdwrite" : null });
        if (f) sc.faults.push(f);
      }
      if (r.chance(0.2)) { const pid = r.int(n); const f = K.faultFor(r, ops[pid], pid, { kinds: ["delay"] }); const src = sc.fs[0].path; if (f) sc.faults.push({ at: "op", pid, op: f.op, nth: f.nth, kind: "env", when: "after", act: { a: "put", path: src, data: g.valid(0.6), replace: true } }); }
    }
    return sc;
  },
  check(sc, ctx) {
    const T = K.runCli(sc, ctx), viol = [];
    let overlap = 0;
    if (notHung(T, viol)) {
      const ps = T.procs.filter((P) => P.src && P.p.startedAt !== null);
      const acc = new Map(ps.map((P) => [P, K.accepts(T, P, ctx)]));
      for (const P of ps) for (const Q of ps) if (P !== Q && P.p.startedAt < (Q.p.endedAt ?? Infinity) && Q.p.startedAt < (P.p.endedAt ?? Infinity)) overlap++;
      for (const [path, l] of T.watch) {
        const writers = ps.filter((P) => P.out === path);
        const unsure = writers.some((P) => acc.get(P).unsure);
        if (unsure) continue;
        const from = (v) => v instanceof Uint8Array ? (() => { const c = K.canonOfFile(v); return writers.filter((P) => c !== null && acc.get(P).canons.has(c)); })() : [];
        for (const x of l.slice(1)) {
          if (same(x.v, l[0].v)) continue;
          if (!from(x.v).length) { viol.push({ cls: "mixed output", msg: `${path} became ${K.fmt(x.v)} at t=${(x.t / 1e6).toFixed(3)}ms: not the complete schema of any of the ${writers.length} invocations writing it` }); break; }
        }
        // every publication falls inside the lifetime of an invocation that may publish it
        for (const x of l.slice(1)) if (x.v instanceof Uint8Array && from(x.v).length && !from(x.v).some((P) => P.p.startedAt <= x.t && x.t <= (P.p.endedAt ?? Infinity))) { viol.push({ cls: "lost order", msg: `${path} received the result of an invocation that was not running` }); break; }
        // a successful invocation's result may only be superseded by one that did not end before it began
        for (const P of writers.filter(K.successful)) {
          const f = from(l[l.length - 1].v);
          if (!f.length || f.some((Q) => Q === P || (Q.p.endedAt ?? Infinity) >= P.p.startedAt)) continue;
          viol.push({ cls: "lost result", msg: `${cmd(P)} succeeded, yet ${path} finally holds the result of an invocation that had ended before it started` });
        }
      }
      for (const P of ps) {
        if (K.successful(P)) {
          const v = P.atEnd; const peers = ps.filter((Q) => Q.out === P.out && Q.p.startedAt <= P.p.endedAt && (Q === P || (Q.p.endedAt ?? Infinity) >= P.p.startedAt));
          if (peers.some((Q) => acc.get(Q).unsure)) continue;
          const c = v instanceof Uint8Array ? K.canonOfFile(v) : null;
          if (c === null || !peers.some((Q) => acc.get(Q).canons.has(c))) viol.push({ cls: "mixed output", msg: `${cmd(P)} reported success and at that moment ${P.out} held ${K.fmt(v)}` });
          if (!acc.get(P).canons.size) viol.push({ cls: "invalid source accepted", msg: `${cmd(P)} reported success for an invalid source` });
        } else if (P.p.state === "exited" && !K.causes(T, P, ctx).size) viol.push({ cls: "interference", msg: `${cmd(P)} failed with exit ${P.p.code} though its source is valid and no fault hit it; only the other invocations were in the way: ${P.p.text().slice(-200)} [${P.p.trace.filter((x) => x.err).map((x) => x.op + " " + x.what + " " + x.err)}]` });
        else if (P.p.state === "exited" && P.p.trace.some((x) => x.err) && ![...causesInjected(sc, P)].length && !acc.get(P).all.some((e) => !e.ok || e.unsure)) viol.push({ cls: "interference", msg: `${cmd(P)} failed with exit ${P.p.code} because of the other invocations: ${P.p.trace.filter((x) => x.err).map((x) => x.op + " " + x.what + " " + x.err)} ${P.p.text().slice(-200)}` });
      }
      const touched = new Set([...T.watch.keys(), ...T.srcs.keys()]);
      for (const [path, v] of T.initial) if (!touched.has(path) && !same(v, T.final.get(path))) { viol.push({ cls: "other file damaged", msg: `${path} changed` }); break; }
    }
    return result(T, viol, { nontrivial: overlap > 0, probes: { same_output_race: T.procs.some((P, i) => T.procs.some((Q, j) => i < j && P.out === Q.out && P.p.startedAt < Q.p.endedAt && Q.p.startedAt < P.p.endedAt)), published_twice: [...T.watch.values()].some((l) => l.length > 2), killed: T.procs.some((P) => P.p.state === "killed") } });
  },
};
function causesInjected(sc, P) { return (sc.faults || []).filter((f) => f.pid === P.p.pid && ["errno", "torn", "lateerr"].includes(f.kind)); }

// ------------------------------------------------------------------ C06
export const C06 = {
  id: "C06",
  rule: "a case is a history of up to 4 (now and then 140) faulty invocations of the same source (killed, failing, on a full or read-only disk), after which faults stop and one more invocation runs; non-trivial when at least one earlier invocation did not succeed; distinct by operations and outcomes",
  gen(r, ctx) {
    const g = G(r, ctx);
    const sc = base(r, ctx, { text: g.valid(r.pick(SIZES)) });
    const many = r.chance(0.03);
    const n = many ? r.pick([20, 40, 80, 140]) : r.weighted([[4, 1], [3, 2], [2, 3], [1, 4]]);
    const p0 = sc.procs[0];
    if (r.chance(0.5)) p0.ospid = 7; // the only process of a container that is started again and again
    if (r.chance(0.15)) twin(sc, r, ctx);
    const ops = dryOps(sc, ctx)[0];
    sc.procs = [];
    sc.env = [];
    // a long history of crashes at the same place
    const place = many ? r.pick(ops.filter((o) => /write|rename|close|fsync/.test(o.op) && o.op !== "stdwrite").concat(ops[ops.length - 1])) : null;
    if (many) sc.maxSteps = 200000;
    for (let i = 0; i < n; i++) {
      sc.procs.push({ ...p0, hash: r.u32(), ...(i ? { after: i - 1 } : {}), start: i ? r.int(1e6) : 0 });
      if (many && r.chance(0.9)) { sc.faults.push({ at: "op", pid: i, op: place.op, nth: place.nth, kind: "kill", when: "before" }); continue; }
      for (let k = r.range(1, 2); k > 0; k--) { const f = K.faultFor(r, ops, i, { kinds: ["kill", "kill", "errno", "torn", "lateerr", "short"], only: r.chance(0.7) ? (o) => /write|rename|close|open|unlink|mkdir/.test(o.op) && o.op !== "stdwrite" : null }); if (f) sc.faults.push(f); }
      if (r.chance(0.15)) { const o = r.pick(ops); sc.faults.push({ at: "op", pid: i, op: o.op, nth: o.nth, kind: "env", when: "before", act: r.chance(0.5) ? { a: "capacity", relative: true, value: r.int(600) } : { a: "readonly", value: true } }); }
    }
    sc.procs.push({ ...p0, hash: r.u32(), after: n - 1, start: 10e6, final: true });
    return sc;
  },
  check(sc0, ctx) {
    // when the last faulty invocation has ended, the environment is healthy again
    const sc = { ...sc0, procs: sc0.procs.map((p) => ({ ...p })) };
    const last = sc.procs.length - 1;
    const T = runWithHealing(sc, ctx, last), viol = [], P = T.procs[last];
    if (!T.quiet) viol.push({ cls: "no recovery", msg: "the history did not come to rest" });
    else if (!K.successful(P)) { const ac = K.accepts(T, P, ctx); if (ac.all.every((e) => e.ok && !e.unsure) && P.src) viol.push({ cls: "no recovery", msg: `after faults stopped, ${cmd(P)} ${P.p.state === "new" ? "was never reached" : `ended ${P.p.state} code=${P.p.code}: ${P.p.text().slice(-300)} [${P.p.trace.filter((x) => x.err).map((x) => x.op + " " + x.what + " " + x.err)}]`}` }); } else if (exactAtEnd(T, P, ctx, viol, " (after recovery)")) {
      // same bytes as in a fresh, fault-free world, within a bounded number of operations
      const F = K.runCli({ ...sc, fs: [sc.fs[0], { path: "/w", dir: true }], procs: [{ ...sc.procs[last], after: undefined, start: 0 }], faults: [], env: [], capacity: undefined, readonly: undefined }, ctx);
      const R = F.procs[0];
      if (!same(R.atEnd, P.atEnd)) viol.push({ cls: "history in output", msg: `after recovery ${P.out} is ${K.fmt(P.atEnd)}, in a fresh world it is ${K.fmt(R.atEnd)}` });
      const bound = R.p.ops + 40;
      if (P.p.ops > bound) viol.push({ cls: "no recovery", msg: `recovery took ${P.p.ops} operations, a fresh run takes ${R.p.ops}` });
    }
    const bad = T.procs.slice(0, last).filter((Q) => !K.successful(Q)).length;
    return result(T, viol, { nontrivial: bad > 0, probes: { crashes_2plus: T.procs.filter((Q) => Q.p.state === "killed").length >= 2, scratch_left_behind: [...T.final.keys()].some((k) => !T.initial.has(k) && k !== P.out && k !== P.dir) } });
  },
};
// ------------------------------------------------------------------ C26
export const C26 = {
  id: "C26",
  rule: "a case is 1-4 invocations of one or two sources, one after the other or overlapping, cut off by one or two failures of the machine's power at an operation of theirs or some time after they ended; directory changes since the last synchronisation are lost from some point on, unsynchronised bytes of files are lost, zeroed or cut; then one more invocation per output runs on the restarted machine; non-trivial when the power failure lost something; distinct by operations and outcomes",
  gen(r, ctx) {
    const g = G(r, ctx);
    const sc = base(r, ctx, { text: g.valid(r.pick(SIZES)), t: r.chance(0.05) });
    if (r.chance(0.2)) twin(sc, r, ctx);
    const outp = K.pathsOf(sc.procs[0]).out;
    if (r.chance(0.1)) { sc.fs = sc.fs.filter((x) => x.path !== outp); sc.fs.push({ path: "/w/real/z.json", data: "{\n  \"owner\": \"\",\n  \"name\": \"linked\"\n}" }, { path: outp, symlink: "/w/real/z.json" }); }
    sc.power = true; if (r.chance(0.4)) sc.lazyJournal = true;
    const p0 = sc.procs[0]; sc.procs = []; sc.env = [];
    const second = r.chance(0.3) ? { path: "/w/zz.kf", data: g.valid(r.pick(SIZES)) } : null;
    if (second) sc.fs.push(second);
    const boots = r.weighted([[3, 1], [1, 2]]);
    if (r.chance(0.5)) p0.ospid = 7;
    const dry = dryOps({ ...sc, procs: [p0] }, ctx)[0];
    const hot = dry.filter((o) => /write|rename|close|fsync|open|unlink|mkdir|link|truncate/.test(o.op) && o.op !== "stdwrite");
    const one = (i) => { const o = second && r.chance(0.4) ? { ...p0, argv: p0.argv.map((a) => a === sc.fs[0].path || "/w/" + a === sc.fs[0].path ? second.path : a) } : p0; return { ...o, hash: r.u32() }; };
    let prev = -1;
    for (let b = 0; b < boots; b++) {
      const first = sc.procs.length, n = r.weighted([[5, 1], [2, 2], [1, 3]]);
      for (let k = 0; k < n; k++) {
        const chain = k === 0 || r.chance(0.6); // after the one before it, or at the same time
        sc.procs.push({ ...one(), ...(chain ? (prev >= 0 ? { after: sc.procs.length - 1 } : {}) : sc.procs[first].after !== undefined ? { after: sc.procs[first].after } : {}), start: chain && prev < 0 && !k ? 0 : r.int(1e6) });
        prev = sc.procs.length - 1;
      }
      const pid = prev, idle = r.chance(0.35);
      if (!idle) { const o = r.pick(r.chance(0.8) && hot.length ? hot : dry); if (o) sc.faults.push({ at: "op", pid, op: o.op, nth: o.nth, kind: "env", when: o.op === "write" ? r.pick(["before", "mid", "after"]) : r.pick(["before", "after"]), frac: r.float(), act: { a: "power", cut: r.u32() } }); }
      if (r.chance(0.2)) { const f = K.faultFor(r, dry, first + r.int(n), { kinds: ["short", "errno", "slow", "kill", "delay", "lateerr"] }); if (f) sc.faults.push(f); }
      // the power goes when the last one has ended, whatever became of it: a moment of its own
      sc.procs.push({ argv: ["kuneiform", "-v"], cwd: "/", hash: 1, after: prev, start: r.pick([0, 1e3, 1e9]), down: r.u32() });
      prev = sc.procs.length - 1;
    }
    sc.procs.push({ ...p0, hash: r.u32(), after: prev, start: 1e9, final: true });
    return sc;
  },
  check(sc, ctx) {
    const viol = [], lost = {}, T = K.runCli(sc, ctx), last = T.procs.length - 1, P = T.procs[last];
    if (!T.quiet) viol.push({ cls: "unbounded", msg: "the history did not come to rest" });
    else for (const [path, l] of T.watch) {
      const writers = T.procs.filter((Q) => Q.out === path && Q.p.startedAt !== null);
      const acc = writers.map((Q) => K.accepts(T, Q, ctx)); if (acc.some((a) => a.unsure)) continue;
      for (const x of l.slice(1)) {
        if (same(x.v, l[0].v) || (x.v instanceof Uint8Array && acc.some((a) => a.canons.has(K.canonOfFile(x.v))))) continue;
        const down = x.why === "env:power";
        viol.push({ cls: down ? "lost output" : "torn output", msg: `${path} was ${K.fmt(l[0].v)}${l.length > 2 ? `, then ${l.slice(1, l.indexOf(x)).map((y) => K.fmt(y.v)).join(", ")}` : ""} and ${down ? "after a power failure it is" : "became"} ${K.fmt(x.v)}: neither what was there before nor a complete schema` }); break;
      }
    }
    if (!viol.length && T.quiet) {
      const links = new Set(T.procs.map((Q) => linkTarget(T, Q))), outs = new Set(T.procs.map((Q) => Q.out));
      for (const [path, v] of T.initial) { if (outs.has(path) || links.has(path) || (typeof v === "object" && !(v instanceof Uint8Array))) continue; if (!same(v, T.final.get(path))) { viol.push({ cls: "other file damaged", msg: `${path} changed: ${K.fmt(v)} -> ${T.final.has(path) ? K.fmt(T.final.get(path)) : "gone"}` }); break; } }
      for (const [path, v] of T.final) if (!T.initial.has(path) && !outs.has(path) && !links.has(path) && path.endsWith(".json") && v instanceof Uint8Array) { viol.push({ cls: "stray result", msg: `after a power failure there is ${path}` }); break; }
      if (!viol.length && P.src) {
        const ac = K.accepts(T, P, ctx);
        if (K.successful(P)) exactAtEnd(T, P, ctx, viol, " (after the machine was restarted)");
        else if (ac.all.every((e) => e.ok && !e.unsure)) viol.push({ cls: "no recovery", msg: `after the machine was restarted ${cmd(P)} ${P.p.state === "new" ? "was never reached" : `ended ${P.p.state} code=${P.p.code}: ${P.p.text().slice(-300)} [${P.p.trace.filter((x) => x.err).map((x) => x.op + " " + x.what + " " + x.err)}]`}` });
      }
    }
    const f = T.w.fired;
    return result(T, viol, { nontrivial: !!(f["power failure: directory changes lost"] || f["power failure: file data lost"]), probes: { entries_lost: !!f["power failure: directory changes lost"], data_lost: !!f["power failure: file data lost"], failures_2plus: f["power failure"] >= 2, published_before: [...T.watch.values()].some((l) => l.some((x) => x.v instanceof Uint8Array && x.why !== "env:power" && x.n)) } });
  },
};

function runWithHealing(sc, ctx, last) {
  // the healing step is part of the final invocation's launch
  const launch = sc.procs[last];
  const heal = (w) => { w.fs.capacity = Infinity; w.fs.readonly = false; };
  return K.runCli({ ...sc, procs: sc.procs, onLaunch: { pid: last, fn: heal } }, ctx);
}

// ------------------------------------------------------------------ C10
const ENVS = [{}, { LANG: "tr_TR.UTF-8", LC_ALL: "tr_TR.UTF-8" }, { TZ: "Asia/Kathmandu" }, { GOGC: "1" }, { GOGC: "off" }, { GODEBUG: "madvdontneed=1" }, { HOME: "/nonexistent" }, { PATH: "" }, { TERM: "dumb", NO_COLOR: "1" }, { USER: "nobody" }, { TRACE: "1", KUNEIFORM_TRACE: "1" }, { TMPDIR: "/nonexistent" }];
export const C10 = {
  id: "C10",
  rule: "a case compiles one source in 3-4 worlds that differ in hash seeds, clock and clock jumps, latencies, garbage-collector settings, environment, umask, process id, working directory and spelling of the arguments; non-trivial when the source is valid; distinct by source and environment",
  gen(r, ctx) {
    const g = G(r, ctx);
    const text = r.chance(0.6) ? g.valid(r.pick([0.6, 1, 2, 3])) : r.chance(0.7) ? g.wrong(r.pick([0.6, 1, 2])) : g.invalid(0.6).text;
    const worlds = [], dict = ctx.envNames();
    const noo = r.chance(0.2); // no -o: the default output directory
    const env = () => { if (r.chance(0.45)) return r.pick(ENVS); const e = {}; for (const k of r.sample(dict, r.range(1, 12))) e[k] = r.pick(["1", "true", "/elsewhere/env", "0", "", "x", "json", "on"]); return e; };
    for (let i = r.range(3, 4); i > 0; i--) worlds.push({ ...(noo ? { noo } : {}), seed: r.u32(), hash: r.u32(), lat: K.lat(r), clock: K.clock(r), env: worlds.length ? env() : {}, umask: r.pick([0o022, 0o077, 0, 0o027]), cwd: r.pick(["/w", "/", "/elsewhere", "/w/sub"]), rel: r.chance(0.5), old: K.prior(r), pids: r.int(3), sp: r.u32(), trace: r.chance(0.15) });
    const sc = { kind: "worlds", text, worlds };
    if (r.chance(0.15)) { sc.src = r.pick(["/w/$HOME.kf", "/w/a$x.kf", "/w/${LANG}.kf", "/w/%PATH%.kf", "/w/~.kf", "/w/~a/b.kf", "/w/`id`.kf"]); sc.out = r.pick(["/w/out", "/w/$HOME", "/w/~"]); }
    if (r.chance(0.4)) sc.plans = [points(r), points(r)]; // the same call in the library, its own goroutines (if it has any) scheduled differently
    // files that are looked for and not there: in some worlds they are there
    if (r.chance(0.35)) for (const v of worlds) {
      const l = this.missing(v, text, ctx, sc);
      if (l.length) v.extra = r.sample(l, r.range(1, Math.min(6, l.length))).map((path) => ({ path, data: r.pick(["/elsewhere/cfg", "elsewhere", "{}", "true", "1\n", "output: /elsewhere/cfg\n", "{\"output\":\"/elsewhere/cfg\"}", "*.kf\n", "a.kf\n", ""]) }));
    }
    return sc;
  },
  missing(v, text, ctx, sc) {
    const T = K.runCli(this.scene(v, text, sc).one, ctx), P = T.procs[T.procs.length - 1];
    const under = (p, d) => d && (p === d || p.startsWith(d + "/") || d.startsWith(p + "/"));
    return [...new Set(P.p.trace.filter((t) => t.err === "ENOENT" && /^(open|stat|lstat|readlink)$/.test(t.op)).map((t) => K.absPath(v.cwd, t.what.replace(/:[rw]$/, ""))))].filter((p) => !under(p, P.dir) && p !== P.src && !T.initial.has(p)).slice(0, 30);
  },
  scene(v, text, { src = "/w/a.kf", out = "/w/out" } = {}) {
      const r = new PRNG(v.sp);
      const rel = (p) => { if (!v.rel) return p; const c = v.cwd.split("/").filter(Boolean), t = p.split("/").filter(Boolean); let k = 0; while (k < c.length && k < t.length && c[k] === t[k]) k++; return [...c.slice(k).map(() => ".."), ...t.slice(k)].join("/") || "."; };
      const stem = src.split("/").pop().replace(/\.kf$/, "");
      const fs = [{ path: src, data: text }, { path: v.cwd, dir: true }, ...(v.extra || [])];
      if (v.old !== null) fs.push({ path: v.noo ? v.cwd.replace(/\/$/, "") + "/build/" + stem + ".json" : out + "/" + stem + ".json", data: v.old });
      const argv = K.argvs(r, rel(src), rel(out), { t: v.trace });
      const one = { kind: "cli", seed: v.seed, lat: v.lat, clock: v.clock, fs, faults: [], procs: [{ argv: v.noo ? ["kuneiform", rel(src), ...(v.trace ? ["-t"] : [])] : argv, cwd: v.cwd, env: v.env, umask: v.umask, hash: v.hash }] };
      for (let k = 0; k < v.pids; k++) one.procs.unshift({ argv: ["kuneiform", "-v"], cwd: "/", hash: v.hash, start: 0 });
      return { one, rel };
  },
  check(sc, ctx) {
    const viol = []; let first = null, fired = {}, simNs = 0, steps = 0, sig = "";
    let hist = [];
    for (const [i, v] of sc.worlds.entries()) {
      const { one, rel } = this.scene(v, sc.text, sc);
      const T = K.runCli(one, ctx); const P = T.procs[T.procs.length - 1];
      if (!notHung(T, viol)) break;
      for (const k in T.w.fired) fired[k] = (fired[k] || 0) + T.w.fired[k];
      simNs += T.w.now; steps += T.w.steps; hist = K.describeHist(T);
      const obs = { code: P.p.code, bytes: P.p.code === 0 ? latin(P.atEnd instanceof Uint8Array ? P.atEnd : new Uint8Array()) : null, diag: P.p.code === 0 ? null : P.p.text(2).split("\n").filter((l) => !/^line \d+:\d+ token recognition error/.test(l)).join("\n").replaceAll(rel(sc.src || "/w/a.kf"), "SRC") };
      if (!first) first = obs;
      else {
        if (obs.code !== first.code) viol.push({ cls: "environment decides", msg: `the same source exits ${first.code} in one environment and ${obs.code} in another (${JSON.stringify(v.env)}, cwd ${v.cwd}${v.extra ? ", with " + v.extra.map((f) => f.path) : ""})` });
        else if (obs.bytes !== first.bytes) viol.push({ cls: "environment decides", msg: `the same source gives different bytes in different environments: …${diffAt(first.bytes, obs.bytes)}` });
        else if (obs.diag !== first.diag) viol.push({ cls: "environment decides", msg: `the same invalid source is reported differently: ${JSON.stringify(first.diag)} vs ${JSON.stringify(obs.diag)}` });
        if (viol.length) break;
      }
      sig += `${v.hash}`;
    }
    let inner = 0;
    if (!viol.length && sc.plans) for (const p of sc.plans) {
      const src = toBytes(sc.text), R = ThreadsProc.run(ctx.libi, { threads: [[{ op: "parse", src: 0 }]], sources: [sc.text], points: p, bound: 2e7 }, { hash: 1 });
      const got = R.out?.results?.[0]?.[0]; inner += R.out?.switches || 0;
      if (!got && R.out?.overrun) continue; // C14's business
      const d = differs(got, expected(ctx, { op: "parse" }, src), false);
      if (d) viol.push({ cls: "environment decides", msg: `the library's answer to one caller depends on how its goroutines are scheduled (${R.out?.switches || 0} hand-overs): ${d}` });
      if (viol.length) break;
    }
    return { viol, sig: sig + sc.text, fired, simNs, steps, switches: 0, nontrivial: first?.code === 0, hist: () => hist, probes: { valid: first?.code === 0, rejected: first?.code === 5, scheduled: (sc.plans || []).length, inner_hand_overs: inner } };
  },
};
export function diffAt(a, b) { let i = 0; while (i < a.length && a[i] === b[i]) i++; return `${JSON.stringify(a.slice(Math.max(0, i - 30), i + 40))} vs ${JSON.stringify(b.slice(Math.max(0, i - 30), i + 40))} at byte ${i}`; }

// ------------------------------------------------------------------ C15
export const C15 = {
  id: "C15",
  rule: "a case is 1-2 invocations (ordinary, misused, failing, faulty) in a tree of unrelated files and directories, links included, with other actors creating files meanwhile; non-trivial when a fault fired, an invocation failed or the arguments were misused; distinct by operations and outcomes",
  gen(r, ctx) {
    const g = G(r, ctx);
    const sc = base(r, ctx, { text: r.chance(0.3) ? g.invalid(0.5).text : g.valid(r.pick([0.3, 0.6, 1])), t: r.chance(0.1) });
    const P = K.pathsOf(sc.procs[0]), p = sc.procs[0];
    const stem = P.out.split("/").pop().replace(/\.json$/, "");
    // files a careless tool would hit
    const near = [P.out + ".tmp", P.out + "~", P.out + ".bak", P.dir + "/tmp", P.dir + "/." + stem + ".json.tmp", P.dir + "/" + stem, P.dir + "/.kuneiform-0000000000000000.tmp", "/tmp/kuneiform", "/tmp/x.json", "/w/build/z.json", P.src + ".json", P.src.replace(/\.[^./]*$/, "") + ".json", "/w/kuneiform.log"];
    for (const n of r.sample(near, r.int(6))) if (n !== P.out && n !== P.src && !sc.fs.some((f) => f.path === n || n.startsWith(f.path + "/") && !f.dir || f.path.startsWith(n + "/"))) sc.fs.push({ path: n, data: "bystander " + r.int(100), ...(r.chance(0.2) ? { mode: 0o444 } : {}) });
    if (r.chance(0.12)) { sc.fs = sc.fs.filter((f) => f.path !== P.out); sc.fs.push({ path: "/w/real/z.json", data: r.chance(0.5) ? "{}" : "x".repeat(4000) }, { path: P.out, symlink: "/w/real/z.json" }); }
    else if (r.chance(0.1)) { sc.fs = sc.fs.filter((f) => f.path !== P.out && f.path !== "/w/keep/link.json"); sc.fs.push({ path: P.out, symlink: r.pick(["/w/nowhere/z.json", "/w/keep/new.json"]) }, { path: "/w/keep/k", data: "k" }); sc.dangling = true; }
    else if (r.chance(0.08)) { sc.fs = sc.fs.filter((f) => f.path !== P.out); sc.fs.push({ path: P.dir, dir: true }, { path: P.out, link: P.src }); sc.same = true; }
    if (r.chance(0.2)) { // permissions of what is there
      if (r.chance(0.6)) { const d = sc.fs.find((f) => f.dir && f.path === P.dir); const mode = r.pick([0o555, 0o500, 0o700, 0o777, 0o1777, 0o2775, 0o711, 0o300]); if (d) d.mode = mode; else sc.fs.push({ path: P.dir, dir: true, mode }); }
      if (r.chance(0.3)) { const f = sc.fs.find((f) => f.path === P.src); if (f && f.data !== undefined) f.mode = r.pick([0o400, 0o444, 0o666, 0o000, 0o600]); }
      if (r.chance(0.3)) { const f = sc.fs.find((f) => f.path === P.out); if (f && f.data !== undefined) f.mode = r.pick([0o400, 0o444, 0o600, 0o200]); }
    }
    if (r.chance(0.15)) { sc.misuse = r.pick(["none", "two", "flag", "novalue", "version", "help"]); p.argv = { none: ["kuneiform", "-o", "newdir"], two: ["kuneiform", P.src, "b.kf", "-o", "newdir"], flag: ["kuneiform", P.src, "--nosuch", "-o", "newdir"], novalue: ["kuneiform", P.src, "-o"], version: ["kuneiform", P.src, "-o", "newdir", r.pick(["-v", "--version"])], help: ["kuneiform", r.pick(["-h", "--help"])] }[sc.misuse]; }
    const ops = dryOps(sc, ctx)[0];
    if (r.chance(0.6)) for (let i = r.range(1, 3); i > 0; i--) { const f = K.faultFor(r, ops, 0, { kinds: ["errno", "errno", "torn", "lateerr", "short", "slow", "kill", "delay"], only: r.chance(0.7) ? (o) => /write|close|rename|unlink|open|mkdir|fsync/.test(o.op) && o.op !== "stdwrite" : null }); if (f) sc.faults.push(f); }
    if (sc.faults.length && r.chance(0.25)) { const f = K.faultFor(r, onlyAfter(wetOps(sc, ctx), ops), 0, { kinds: ["errno", "torn", "short", "kill"], only: (o) => o.op !== "stdwrite" }); if (f) sc.faults.push(f); }
    if (r.chance(0.1)) sc.capacity = r.int(2000);
    if (r.chance(0.25) && ops.length) { const o = r.pick(ops); sc.actors = [P.dir + "/appeared.json", P.dir + "/." + stem + ".lock", "/w/appeared"]; const path = r.pick(sc.actors); if (path !== P.out) sc.faults.push({ at: "op", pid: 0, op: o.op, nth: o.nth, kind: "env", when: r.pick(["before", "after"]), act: { a: "put", path, data: "by another program" } }); }
    return sc;
  },
  check(sc, ctx) {
    const T = K.runCli(sc, ctx), viol = [];
    const P = T.procs[0], fail = !(P.p.state === "exited" && P.p.code === 0);
    if (notHung(T, viol)) {
      const target = P.out ? linkTarget(T, P) : null;
      const may = new Set(P.src ? [P.out, target] : []);
      const acted = new Map((sc.faults || []).filter((f) => f.kind === "env" && T.w.hist.some((h) => h.env && h.path === f.act.path)).map((f) => [f.act.path, toBytes(f.act.data)]));
      if (sc.same || target === P.src) { may.delete(P.out); may.delete(target); }
      for (const [path, v] of T.initial) {
        if (may.has(path)) { if (!T.final.has(path)) viol.push({ cls: "file removed", msg: `${cmd(P)} removed ${path}` }); continue; }
        const now = T.final.get(path);
        if (acted.has(path)) { if (!same(now, acted.get(path))) viol.push({ cls: "other file damaged", msg: `${cmd(P)} changed ${path}, which another program had just written` }); continue; }
        const link = (x) => x && typeof x === "object" && !(x instanceof Uint8Array) ? "-> " + x.target : x;
        if (!same(link(v), link(now))) { viol.push({ cls: path === P.src ? "source damaged" : "other file damaged", msg: `${cmd(P)} changed ${path}: ${K.fmt(link(v))} became ${now === undefined ? "nothing" : K.fmt(link(now))}` }); break; }
      }
      // nor their permissions and times
      for (const [path, m] of T.meta) {
        const n = T.finalMeta.get(path);
        if (!n || may.has(path) || acted.has(path)) continue;
        if (n.mode !== m.mode) { viol.push({ cls: "mode changed", msg: `${cmd(P)} changed the permissions of ${path} from ${m.mode.toString(8)} to ${n.mode.toString(8)}` }); break; }
        if (n.mtime !== m.mtime && T.initial.get(path) !== "dir") { viol.push({ cls: "time changed", msg: `${cmd(P)} changed the modification time of ${path}` }); break; }
      }
      // the same inode may not change under another name either
      const unl = P.p.state === "killed" || P.p.trace.some((x) => /^(unlink|rename|close)$/.test(x.op) && x.err);
      for (const [path, v] of T.final) {
        if (T.initial.has(path) || may.has(path) || acted.has(path)) continue;
        if (v === "dir" && [...acted.keys()].some((a) => a.startsWith(path + "/"))) continue;
        if (P.dir && v === "dir" && (path === P.dir || P.dir.startsWith(path + "/"))) continue;
        if (unl && P.dir && v instanceof Uint8Array && !path.endsWith(".json") && (path.startsWith(P.dir + "/") || path.startsWith("/tmp/") || (target && path.startsWith(target.replace(/[^/]*$/, ""))))) continue;
        viol.push({ cls: "stray file", msg: `${cmd(P)} (${P.p.state} ${P.p.code}) left ${v === "dir" ? "the directory " : ""}${path} behind` }); break;
      }
    }
    return result(T, viol, { nontrivial: fail || Object.keys(T.w.fired).some((k) => k !== "timer"), probes: { ["exit " + P.p.code]: true, killed: P.p.state === "killed", link: sc.fs.some((f) => f.symlink), same_file: !!sc.same, ["misuse:" + (sc.misuse || "")]: !!sc.misuse } });
  },
};

// ------------------------------------------------------------------ C19
const READOPS = (o, src) => (o.op === "read" && o.what === src) || (o.op === "open" && o.what === src + ":r") || (/stat/.test(o.op) && o.what === src);
export const C19 = {
  id: "C19",
  rule: "a case compiles one source twice: delivered whole at once, and delivered by a slow or awkward file (reads of a few bytes, interrupted calls, stalls, a size report that is too small, too large or zero, the source reached through links); non-trivial when a delivery fault fired; distinct by operations and outcomes plus source",
  gen(r, ctx) {
    const g = G(r, ctx);
    const x = r.float();
    if (r.chance(0.01)) g.pad = r.pick([66e3, 140e3, 1.1e6]);
    const text = x < 0.65 ? g.valid(r.pick([0.3, 0.6, 1, 2, 3])) : x < 0.85 ? g.invalid(0.6).text : fromBytes(g.damage(enc.encode(g.valid(0.6))).bytes);
    const sc = base(r, ctx, { text, old: null });
    const src = sc.fs[0].path, n = toBytes(text).length;
    if (r.chance(0.25)) { // reached through a link, or a link to a link; the link's own size is that of its target's name
      const to = r.pick(["/data/real.txt", "/r", "/data/" + "long".repeat(30) + ".kf"]);
      sc.fs[0].path = to; sc.direct = src;
      if (r.chance(0.3)) { sc.fs.push({ path: "/l2", symlink: to }, { path: src, symlink: "/l2" }); } else sc.fs.push({ path: src, symlink: to });
    }
    if (r.chance(0.5)) sc.lie = { path: sc.fs[0].path, size: r.pick([0, 0, 1, 10, n >> 1, Math.max(0, n - 1), n + 1, n + 5000, 4096, 512]) };
    if (r.chance(0.15)) { sc.drip = { path: sc.fs[0].path, n: Math.max(r.pick([1, 1, 2, 7, 64, 512, 4095]), Math.ceil(n / 4000)), eintr: r.pick([0, 0, 2, 10]) }; return sc; }
    const ops = dryOps(sc, ctx)[0].filter((o) => READOPS(o, src));
    if (r.chance(0.85)) {
      const reads = ops.filter((o) => o.op === "read");
      const burst = r.chance(0.6);
      if (burst) { let left = n; for (let i = 0; i < 60 && left > 0; i++) { const k = r.weighted([[3, 1], [3, r.range(1, 7)], [3, r.range(1, 200)], [1, r.range(1, 4000)]]); left -= k; sc.faults.push({ at: "op", pid: 0, op: "read", nth: i, kind: "short", n: k }); if (r.chance(0.1)) sc.faults.push({ at: "op", pid: 0, op: "read", nth: i, kind: "delay", delay: r.pick([1e6, 60e9]) }); if (r.chance(0.08)) sc.faults[sc.faults.length - 1] = { at: "op", pid: 0, op: "read", nth: i, kind: "errno", code: "EINTR" }; } }
      else for (let i = r.range(1, 3); i > 0 && reads.length; i--) { const o = r.pick(ops); sc.faults.push({ at: "op", pid: 0, op: o.op, nth: o.nth, ...(o.op === "read" ? r.pick([{ kind: "short", frac: r.float() }, { kind: "errno", code: "EINTR" }, { kind: "delay", delay: 3600e9 }]) : { kind: "delay", delay: r.pick([1e6, 30e9]) }) }); }
    }
    return sc;
  },
  check(sc, ctx) {
    const T = K.runCli(sc, ctx), viol = [], P = T.procs[0];
    if (notHung(T, viol) && P.src) {
      const plain = sc.direct ? [{ ...sc.fs[0], path: sc.direct }, ...sc.fs.slice(1).filter((f) => f.path !== sc.direct)] : sc.fs; // delivered whole, and no links on the way
      const B = K.runCli({ ...sc, fs: plain, faults: [], lie: undefined, drip: undefined, lat: { kind: "zero" }, clock: {} }, ctx), Q = B.procs[0];
      const d = (x) => x.p.text().replace(/^line \d+:\d+ token recognition error.*$/gm, "");
      if (P.p.state !== Q.p.state || P.p.code !== Q.p.code) viol.push({ cls: "delivery decides", msg: `delivered whole, the source makes the tool exit ${Q.p.code}; delivered as [${Object.entries(T.w.fired).map(([k, v]) => k + "×" + v)}${sc.lie ? ", reported size " + sc.lie.size : ""}] it ends ${P.p.state} ${P.p.code}: ${P.p.text().slice(-200)}` });
      else if (!same(P.atEnd ?? null, Q.atEnd ?? null)) viol.push({ cls: "delivery decides", msg: `${P.out} depends on how the source was delivered ([${Object.entries(T.w.fired).map(([k, v]) => k + "×" + v)}]${sc.lie ? " reported size " + sc.lie.size : ""}): ${K.fmt(Q.atEnd ?? null)} vs ${K.fmt(P.atEnd ?? null)}` });
      else if (P.p.code !== 0 && d(P) !== d(Q)) viol.push({ cls: "delivery decides", msg: `the report depends on how the source was delivered: ${JSON.stringify(d(Q).slice(-200))} vs ${JSON.stringify(d(P).slice(-200))}` });
      else if (K.successful(P)) exactAtEnd(T, P, ctx, viol);
    }
    return result(T, viol, { key: latin(toBytes(sc.fs[0].data)), nontrivial: Object.keys(T.w.fired).some((k) => /^(read|open|fstat|delay|lie)/.test(k)), probes: { valid: P.p.code === 0, rejected: P.p.code === 5, lied: !!T.w.fired["lie"], reads: P.p.opCount.read || 0 } });
  },
};

// ------------------------------------------------------------------ C20
// What a deployer of the JSON relies on, checked on the JSON alone.
const ID = /^[A-Za-z][A-Za-z0-9_]*$/;
export function integrity(s) { // null, or what is wrong
  const strs = (x, w) => Array.isArray(x) && x.every((y) => typeof y === "string") ? null : `${w} is not a list of texts`;
  if (!s || typeof s !== "object") return "not an object";
  if (s.owner !== "") return "owner is not empty";
  if (!ID.test(s.name ?? "")) return `database name ${JSON.stringify(s.name)}`;
  const uniq = (l, w) => { const d = l.find((x, i) => l.indexOf(x) !== i); return d === undefined ? null : `two ${w} called ${d}`; };
  const all = (...xs) => xs.find((x) => x) || null;
  const tables = s.tables ?? [], actions = s.actions ?? [], exts = s.extensions ?? [];
  const cols = new Map();
  for (const t of tables) {
    if (!ID.test(t.name ?? "")) return `table name ${JSON.stringify(t.name)}`;
    if (!t.columns?.length) return `table ${t.name} has no columns`;
    const names = t.columns.map((c) => c.name);
    if (names.some((n) => !ID.test(n ?? ""))) return `column name in ${t.name}`;
    if (!cols.has(t.name)) cols.set(t.name, new Set(names));
    const e = all(uniq(names, `columns of ${t.name}`), uniq([...names, ...(t.indexes ?? []).map((x) => x.name)], `columns or indexes of ${t.name}`));
    if (e) return e;
    for (const c of t.columns) {
      if (!["int", "text", "blob"].includes(c.type)) return `column ${t.name}.${c.name} has type ${JSON.stringify(c.type)}`;
      const at = (c.attributes ?? []).map((a) => a.type);
      const e2 = uniq(at, `attributes on ${t.name}.${c.name}`); if (e2) return e2;
      for (const a of c.attributes ?? []) {
        const num = typeof a.value === "string" && /^[0-9]+$/.test(a.value), lit = typeof a.value === "string" && (num || /^'.*'$/s.test(a.value));
        if (["primary_key", "unique", "not_null"].includes(a.type)) { if (a.value !== undefined) return `attribute ${a.type} of ${t.name}.${c.name} has a value`; } else if (a.type === "default") { if (!lit) return `default of ${t.name}.${c.name} is ${JSON.stringify(a.value)}`; } else if (["min", "max", "min_length", "max_length"].includes(a.type)) { if (!num) return `${a.type} of ${t.name}.${c.name} is ${JSON.stringify(a.value)}`; } else return `attribute ${JSON.stringify(a.type)} on ${t.name}.${c.name}`;
        if (c.type === "int" && /length/.test(a.type)) return `${a.type} on the int column ${t.name}.${c.name}`;
        if (c.type === "text" && /^(min|max)$/.test(a.type)) return `${a.type} on the text column ${t.name}.${c.name}`;
      }
    }
    for (const x of t.indexes ?? []) {
      if (!ID.test(x.name ?? "")) return `index name ${JSON.stringify(x.name)}`;
      if (!["primary", "unique_btree", "btree"].includes(x.type)) return `index ${x.name} has type ${JSON.stringify(x.type)}`;
      if (strs(x.columns) || !x.columns.length) return `index ${x.name} has no columns`;
      for (const c of x.columns) if (!names.includes(c)) return `index ${t.name}.${x.name} uses ${c}, which is no column`;
    }
  }
  let e = all(uniq(tables.map((t) => t.name), "tables"), uniq(actions.map((a) => a.name), "actions"), uniq(exts.map((x) => x.alias), "extensions"));
  if (e) return e;
  for (const t of tables) for (const f of t.foreign_keys ?? []) {
    if (strs(f.child_keys) || strs(f.parent_keys) || !f.child_keys.length || !f.parent_keys.length) return `foreign key of ${t.name} has no columns`;
    if (!cols.has(f.parent_table)) return `foreign key of ${t.name} refers to the unknown table ${f.parent_table}`;
    for (const c of f.child_keys) if (!cols.get(t.name).has(c)) return `foreign key of ${t.name} uses ${c}, which is no column`;
    for (const c of f.parent_keys) if (!cols.get(f.parent_table).has(c)) return `foreign key of ${t.name} refers to ${f.parent_table}.${c}, which is no column`;
    for (const a of f.actions ?? []) if (!["UPDATE", "DELETE"].includes(a.on) || !["NO ACTION", "RESTRICT", "SET NULL", "SET DEFAULT", "CASCADE"].includes(a.do)) return `foreign key action ${JSON.stringify(a)}`;
    e = uniq((f.actions ?? []).map((a) => a.on), `foreign key actions on`); if (e) return e;
  }
  for (const x of exts) {
    if (!ID.test(x.name ?? "") || !ID.test(x.alias ?? "")) return `extension ${JSON.stringify(x.name)} as ${JSON.stringify(x.alias)}`;
    for (const c of x.config ?? []) if (!ID.test(c.argument ?? "") || !/^([0-9]+|'.*')$/s.test(c.value ?? "")) return `configuration ${JSON.stringify(c)} of ${x.alias}`;
  }
  return null;
}
export function callsOf(s, oracle) { // null, or what is wrong: calls lead to declared actions, extensions and variables
  const acts = new Set((s.actions ?? []).map((a) => a.name)), exts = new Set((s.extensions ?? []).map((x) => x.alias));
  for (const a of s.actions ?? []) {
    if (!ID.test(a.name ?? "")) return `action name ${JSON.stringify(a.name)}`;
    if (typeof a.public !== "boolean" || !["view", "update"].includes(a.mutability)) return `action ${a.name} is ${a.public} ${a.mutability}`;
    for (const x of a.auxiliaries ?? []) if (x !== "owner") return `action ${a.name} has the attribute ${x}`;
    if (a.name === "init" && (a.public || a.mutability !== "update" || (a.inputs ?? []).length)) return "init is public, read-only or has inputs";
    const ins = a.inputs ?? []; if (ins.some((x, i) => !/^\$[A-Za-z][A-Za-z0-9_]*$/.test(x) || ins.indexOf(x) !== i)) return `inputs of ${a.name}: ${ins}`;
    for (const n of a.annotations ?? []) if (!/^[A-Za-z][A-Za-z0-9_]*\(.*\)$/s.test(n)) return `annotation ${JSON.stringify(n)}`;
    if (!a.statements?.length) return `action ${a.name} has no statements`;
    const vars = new Set(ins);
    for (const st of a.statements) {
      if (!st.endsWith(";")) return `statement ${JSON.stringify(st)} has no end`;
      const o = oracle(st);
      if (o.died) return null;
      if (!o.ok) return `statement ${JSON.stringify(st)} of ${a.name} is no statement: ${o.why}`;
      const bad = [...o.args, ...o.nested].find((p) => p !== null && (p[0] === "$" ? !vars.has(p) : p !== "@caller"));
      if (o.kind === "call" && !acts.has(o.method)) return `${a.name} calls the unknown action ${o.method}`;
      if (o.kind === "ext" && !exts.has(o.ext)) return `${a.name} calls the unknown extension ${o.ext}`;
      if (o.kind !== "dml" && bad) return `${a.name} passes the unknown variable ${bad}`;
      if (o.kind === "ext") { if (new Set(o.receivers).size !== o.receivers.length) return `${a.name} receives twice into one variable`; o.receivers.forEach((v) => vars.add(v)); }
    }
  }
  return null;
}
export const C20 = {
  id: "C20",
  rule: "a case compiles a source in which one consistency rule was broken, or a valid one with many cross references, under storage damage, short reads, output faults and kills; whatever JSON is ever visible at the output path is checked by itself, without the source; non-trivial when a schema was published or the source is inconsistent; distinct by source and operations",
  gen(r, ctx) {
    const g = G(r, ctx);
    const x = r.float();
    let text;
    if (x < 0.55) { const d = g.db(r.pick([1, 1, 2])); const y = r.float(); if (y < 0.4) g.breakRule(d); else if (y < 0.6) g.misname(d); else if (y < 0.7) g.round(d, true); else if (y < 0.85) g.recase(d); else g.undeclare(d); text = g.render(d); } else if (x < 0.8) text = g.valid(r.pick([1, 2])); else if (x < 0.9) text = g.textual(g.valid(1)).text; else text = fromBytes(g.damage(enc.encode(g.valid(1))).bytes);
    const sc = base(r, ctx, { text, old: null });
    if (r.chance(0.6)) { const ops = dryOps(sc, ctx)[0]; for (let i = r.range(1, 3); i > 0; i--) { const f = K.faultFor(r, ops, 0, { kinds: ["short", "errno", "torn", "slow", "kill", "delay"], only: (o) => o.op !== "stdwrite" }); if (f) sc.faults.push(f); } }
    return sc;
  },
  check(sc, ctx) {
    const T = K.runCli(sc, ctx), viol = [], P = T.procs[0];
    let published = 0;
    if (notHung(T, viol) && P.src) for (const x of T.watch.get(P.out).slice(1)) {
      if (!(x.v instanceof Uint8Array)) continue;
      let s; try { s = JSON.parse(new TextDecoder("utf-8", { fatal: true }).decode(x.v)); } catch { viol.push({ cls: "no schema", msg: `${P.out} became ${K.fmt(x.v)}, which is no JSON document` }); break; }
      published++;
      const e = integrity(s) || callsOf(s, ctx.expectOracle);
      if (e) { viol.push({ cls: "inconsistent schema", msg: `${P.out} holds an inconsistent schema: ${e}` }); break; }
    }
    return result(T, viol, { key: latin(toBytes(sc.fs[0].data)), nontrivial: published > 0 || P.p.code === 5, probes: { published, rejected: P.p.code === 5, killed: P.p.state === "killed" } });
  },
};

// ------------------------------------------------------------------ C12
export const C12 = {
  id: "C12",
  rule: "a case runs the same source without and with --trace, the traced run under console faults (failing, short, slow, stalled writes to standard output or error); non-trivial when a console fault fired or trace output was produced; distinct by operations and outcomes",
  gen(r, ctx) {
    const g = G(r, ctx); let long;
    const sc = base(r, ctx, { text: (long = r.chance(0.05)) ? g.long() : r.chance(0.75) ? g.valid(r.pick([0.3, 0.6, 1])) : g.invalid(0.4).text, old: null, src: "/w/a.kf", out: "/w/out" });
    sc.procs[0].argv = K.argvs(r, "a.kf", "out", { t: long || r.chance(0.8) });
    if (!long && r.chance(0.75)) {
      const ops = dryOps(sc, ctx)[0];
      for (let i = r.range(1, 3); i > 0; i--) { const f = K.faultFor(r, ops, 0, { kinds: ["errno", "short", "torn", "delay", "slow"], only: (o) => o.op === "stdwrite" }); if (f) sc.faults.push(f); }
      if (r.chance(0.3)) sc.stdfail = r.pick(["EIO", "ENOSPC", "EBADF"]);
    }
    return sc;
  },
  check(sc, ctx) {
    const T = K.runCli(sc, ctx), viol = [], P = T.procs[0];
    let traced = false;
    if (notHung(T, viol) && P.src) {
      const plainArgv = P.p.spec.argv.filter((a) => a !== "-t" && a !== "--trace");
      const B = K.runCli({ ...sc, faults: [], stdfail: undefined, procs: [{ ...sc.procs[0], argv: plainArgv }] }, ctx), Q = B.procs[0];
      traced = P.args.trace;
      if (P.p.code !== Q.p.code || P.p.state !== Q.p.state) viol.push({ cls: "diagnostics interfere", msg: `${cmd(P)} with console faults [${Object.keys(T.w.fired)}] ended ${P.p.state} ${P.p.code}; quietly it ends ${Q.p.state} ${Q.p.code}: ${P.p.text().slice(-200)}` });
      else if (!same(P.atEnd ?? null, Q.atEnd ?? null)) viol.push({ cls: "diagnostics interfere", msg: `${P.out} differs between a quiet run and ${cmd(P)}: ${K.fmt(Q.atEnd ?? null)} vs ${K.fmt(P.atEnd ?? null)}` });
      const hurt = Object.keys(T.w.fired).some((k) => k.startsWith("stdwrite")) || sc.stdfail;
      if (traced && !hurt && (P.p.code === 0 || P.p.code === 5) && P.p.text().length <= Q.p.text().length) viol.push({ cls: "no trace", msg: `${cmd(P)} printed no trace` });
      if (traced && P.p.code === 0 && !hurt) { // the trace covers the whole source: it names every table and action
        const e = ctx.expect.of(toBytes(sc.fs[0].data));
        if (e.ok) { const s = JSON.parse(e.canon); const t = Buffer.from(P.p.text(), "latin1").toString("utf8"); const whole = "database" + s.name, lines = t.split("\n").filter((l) => !l.includes(whole)); // the line for the source as a whole says little
          const names = [...s.tables.map((x) => x.name), ...s.tables.flatMap((x) => [...x.columns, ...x.indexes].map((y) => y.name)), ...s.actions.map((x) => x.name), ...s.extensions.map((x) => x.alias)];
          for (const n of names) if (!whole.includes(n) && !lines.some((l) => l.includes(n))) { viol.push({ cls: "no trace", msg: `the trace does not mention ${n}` }); break; } }
      }
      if (traced && P.p.code === 5 && !hurt) { // also that of a source that is refused for one of its declarations
        const e = ctx.expect.of(toBytes(sc.fs[0].data));
        if (!e.ok && e.stage === "semantic") {
          const toks = lex(goDecode(toBytes(sc.fs[0].data))).toks, t = P.p.text(1), u = Buffer.from(t, "latin1").toString("utf8");
          for (let i = 0; i + 1 < toks.length; i++) if (/^(TABLE|ACTION|DATABASE)$/.test(toks[i].t) && toks[i + 1].t === "ID" && !u.includes(toks[i + 1].v)) { viol.push({ cls: "no trace", msg: `the trace of a refused source does not mention ${toks[i + 1].v}` }); break; }
        }
      }
      if (!traced && !hurt && P.p.code === 0 && P.p.text(1) !== Q.p.text(1)) viol.push({ cls: "diagnostics interfere", msg: "console output differs between identical runs" });
    }
    return result(T, viol, { nontrivial: traced || Object.keys(T.w.fired).some((k) => k.startsWith("stdwrite")), probes: { traced, console_fault: Object.keys(T.w.fired).some((k) => k.startsWith("stdwrite")), console_dead: !!sc.stdfail } });
  },
};

// ------------------------------------------------------------------ C24
export const C24 = {
  id: "C24",
  rule: "a case is the history of one or several invocations with kills, faults and overlaps as in C04, C05 and C06; every document ever visible at an output path is loaded into the library's schema types by one long-lived process, validated, and serialised again; non-trivial when at least one document appeared; distinct by operations and outcomes",
  gen(r, ctx) { const x = r.float(); return x < 0.2 ? C04.gen(r, ctx) : x < 0.6 ? C05.gen(r, ctx) : x < 0.85 ? C01.gen(r, ctx) : C19.gen(r, ctx); },
  check(sc, ctx) {
    const T = K.runCli(sc, ctx), viol = [];
    let loaded = 0, l = null; const hist = [];
    if (notHung(T, viol)) outer: for (const [path, vs] of T.watch) {
      const seen = new Set();
      for (const x of vs.slice(1)) {
        if (!(x.v instanceof Uint8Array) || same(x.v, vs[0].v)) continue;
        const k = latin(x.v); if (seen.has(k)) continue; seen.add(k);
        if (!l) { l = new LibProc(ctx.lib, { hash: sc.seed }); l.p.spec.syncConsole = true; }
        for (let again = 0; again < 2; again++) {
          const a = l.call({ op: "load" }, x.v); loaded++;
          const what = !a ? `the loading process ${l.p.state} ${l.p.trap || ""}` : a.panic ? "loading panics: " + a.panic : a.err ? a.err : a.jerr ? a.jerr : null;
          hist.push(`load ${path} of t=${x.t}: ${what || "ok"}`);
          if (what) { viol.push({ cls: "cannot be loaded", msg: `${path} became ${K.fmt(x.v)}, which cannot be loaded: ${what}` }); break outer; }
          const c = K.exactForm(new TextDecoder().decode(x.v)), b = K.exactForm(a.json);
          if (c !== b) { viol.push({ cls: "lossy", msg: `${path}, loaded and serialised again, differs: ${c === null ? "no document" : diffAt(c, b ?? "")}` }); break outer; }
          if (again === 0) { const c2 = l.call({ op: "load" }, enc.encode(a.json)); if (!c2 || c2.json !== a.json) { viol.push({ cls: "lossy", msg: `${path}: serialising what was loaded gives ${K.fmt(enc.encode(a.json))}, loading that and serialising gives ${c2 ? K.fmt(enc.encode(c2.json || c2.err || "")) : "nothing"}` }); break outer; } }
        }
      }
    }
    l?.close();
    const R = result(T, viol, { nontrivial: loaded > 0, probes: { loaded, killed: T.procs.some((P) => P.p.state === "killed") } });
    const h = R.hist; R.hist = () => [...h(), ...hist];
    return R;
  },
};

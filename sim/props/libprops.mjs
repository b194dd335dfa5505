// libprops.mjs - properties decided on callers of the library packages: threads under a
// controlled scheduler, long-lived processes, the web module.
import { spawnSync } from "node:child_process";
import fs from "node:fs";
import { createHash } from "node:crypto";
import { Gen, goDecode, variant } from "../gen.mjs";
import { PRNG } from "../prng.mjs";
import { toBytes, fromBytes, enc, latin } from "../world.mjs";
import { LibProc, WebProc, ThreadsProc } from "../sessions.mjs";
import { canonOfFile } from "../cli.mjs";
import { isKnown } from "../known.mjs";

const G = (r, ctx) => new Gen(r, (s) => ctx.expectOracle(s));
export const sha = (s) => createHash("sha1").update(s).digest("hex").slice(0, 12);
export const short = (x, n = 160) => { const s = typeof x === "string" ? x : JSON.stringify(x); return s === undefined ? "nothing" : s.length > n ? s.slice(0, n) + "…" : s; };

// ---- what a caller who is alone in a fresh process is told
const alone = new Map();
export function expected(ctx, op, src) { // op: parse/parse1/annotation request, src: bytes
  const k = op.op + (op.trace ? "T" : "") + (op.listener ? "L" : "") + "\0" + latin(src);
  let a = alone.get(k);
  if (!a) {
    const l = new LibProc(ctx.lib, { hash: 7 });
    l.p.spec.syncConsole = true;
    a = l.call({ op: op.op, trace: !!op.trace, listener: op.listener ? "l" : "" }, src) || { panic: "no answer" };
    l.close();
    if (alone.size > 5000) alone.clear();
    alone.set(k, a);
  }
  return a;
}
const FIELDS = ["ok", "err", "syntax", "json", "jerr", "panic", "ann"];
export function differs(got, want, listener) { // null, or what differs
  if (!got) return "no answer";
  for (const f of [...FIELDS, ...(listener ? ["llen", "lerrs"] : [])]) if (JSON.stringify(got[f] ?? null) !== JSON.stringify(want[f] ?? null)) return `${f}: got ${short(got[f])}, alone it is ${short(want[f])}`;
  return null;
}
// the reference model's word on a source
export function modelSays(ctx, src, got) {
  const e = ctx.expect.of(src);
  if (e.unsure || !got || got.panic) return null;
  if (got.ok !== e.ok) return e.ok ? `a valid source was rejected: ${short(got.err)}` : `an invalid source was accepted (${e.why})`;
  if (e.ok) { const c = canonOfFile(enc.encode(got.json)); if (c !== e.canon) return `the schema is not that of the source: ${short(got.json)}`; }
  return null;
}
function annotationText(r, g) {
  if (r.chance(0.15)) return r.pick(["", "x", "a(", "()", "a)", "name", "(a=1)"]);
  const a = []; for (let i = r.range(0, 4); i > 0; i--) a.push(`${g.name()}${r.pick(["=", " = "])}${g.lit()}`);
  return `${g.name()}(${a.join(r.pick([",", ", "]))})`;
}
function annotationTexts(r, g, n) { // some of them nearly the same: one character, one word or the order differs
  const out = [annotationText(r, g)];
  while (out.length < n) {
    const t = r.pick(out);
    if (r.chance(0.4)) { out.push(annotationText(r, g)); continue; }
    const k = r.int(4), at = t.indexOf("(") + 1;
    const m = [...t.slice(at).matchAll(/[A-Za-z]+|[0-9]+/g)]; const w = m.length ? r.pick(m) : null;
    if (k === 3 || !w) out.push(at > 0 ? r.pick(["", "x"]) + t.slice(0, at) + "z9='1', " + t.slice(at) : annotationText(r, g));
    else { const i = at + w.index + r.int(w[0].length), c = t[i]; out.push(t.slice(0, i) + (/[0-9]/.test(c) ? (c === "7" ? "8" : "7") : c === "z" ? "y" : "z") + t.slice(i + 1)); }
  }
  return r.shuffle(out);
}
export function sourcePool(r, ctx, n, sizes = [0.3, 0.6, 1]) {
  const g = G(r, ctx); const out = [];
  if (n > 1 && r.chance(0.4)) return g.siblings(r.pick(sizes), n);
  for (let i = 0; i < n; i++) {
    const x = r.float();
    if (x < 0.5) out.push(g.valid(r.pick(sizes)));
    else if (x < 0.74) out.push(g.invalid(r.pick(sizes)).text);
    else if (x < 0.8) out.push(g.wrong(r.pick(sizes)));
    else if (x < 0.9) out.push(fromBytes(g.damage(enc.encode(g.valid(r.pick(sizes)))).bytes));
    else { // a near twin: same length, same shape, other names
      const t = out.find((s) => typeof s === "string") || g.valid(0.6);
      const m = [...t.matchAll(/[a-z]+/g)]; const w = m.length ? r.pick(m) : null;
      out.push(w ? t.slice(0, w.index) + (w[0][0] === "z" ? "y" : "z") + t.slice(w.index + 1) : t);
    }
  }
  return out;
}
export function points(r, callers = 0) {
  if (callers > 1 && r.chance(0.15)) { // in lockstep: each caller in turn, a few steps at a time
    const gap = r.pick([-1, -1, -2, -3, -5, 1, 2, 7, 40]), out = [];
    for (let k = r.pick([1, 3, 20]); k > 0; k--) for (let i = 0; i < callers; i++) out.push([gap, i < callers - 1 ? i : 0]);
    return out;
  }
  const scale = r.weighted([[3, 8], [3, 60], [3, 600], [2, 4000], [1, 0]]); // 0: no switch but at the ends
  const p = [];
  if (r.chance(0.4)) { // hand-overs where callers can meet (a negative gap counts only such places), some of them few and far between
    const few = r.chance(0.5), span = r.pick([4, 12, 40, 200]);
    for (let i = few ? r.range(1, 6) : r.pick([20, 80, 200]); i > 0; i--) p.push([-r.range(1, span), r.int(64)]);
    if (r.chance(0.3)) for (const x of p) if (r.chance(0.3)) x[0] = r.range(1, 2000);
    return p;
  }
  if (!scale) return p;
  // bursts: dense switching for a while, then long stretches
  const burst = r.chance(0.3);
  for (let i = r.pick([10, 60, 200]); i > 0; i--) p.push([burst && r.chance(0.2) ? r.range(100, 5000) : r.range(1, scale * 2), r.int(64)]);
  return p;
}
export function threadsOf(r, ctx, { kinds = ["parse", "parse", "parse", "parse1", "annotation"], dumps = 0.15, mutate = 0 } = {}) {
  const g = G(r, ctx);
  const sources = sourcePool(r, ctx, r.weighted([[3, 1], [4, 2], [3, 4]]));
  const nsrc = sources.length;
  const anns = []; for (const t of annotationTexts(r, g, r.pick([2, 2, 3]))) { anns.push(sources.length); sources.push(t); }
  const threads = []; let h = 0;
  for (let i = r.weighted([[4, 2], [3, 3], [2, 4], [1, 6]]); i > 0; i--) {
    const t = []; const mine = [];
    for (let j = r.weighted([[3, 1], [3, 2], [2, 3], [1, 5]]); j > 0; j--) {
      const op = r.pick(kinds);
      const o = op === "annotation" ? { op, src: r.pick(anns) } : op === "parse1" ? { op, src: r.int(nsrc) } : { op, src: r.int(nsrc), trace: r.chance(0.1), listener: r.chance(0.4) ? "l" + h++ : "" };
      if (r.chance(0.5) || mutate) { o.keep = "k" + h++; mine.push(o.keep); }
      t.push(o);
      if (mine.length && r.chance(mutate)) t.push({ op: "mutate", src: 0, handle: r.pick(mine), seed: r.u32() });
      if (mine.length && r.chance(dumps)) t.push({ op: "dump", src: 0, handle: r.pick(mine) });
    }
    for (const k of mine) if (r.chance(0.7)) t.push({ op: "dump", src: 0, handle: k });
    threads.push(t);
  }
  if (r.chance(0.08)) { // a crowd: many callers at once want the same thing
    const op = r.pick(kinds), n = r.pick([5, 8, 12]), tiny = sources.length; sources.push(g.valid(0.1), g.invalid(0.1).text);
    threads.length = 0;
    for (let i = 0; i < n; i++) threads.push(Array.from({ length: r.pick([1, 1, 2]) }, () => op === "annotation" ? { op, src: r.pick(anns) } : op === "parse1" ? { op, src: tiny + r.int(2) } : { op, src: tiny + r.int(2), trace: false, listener: r.chance(0.4) ? "l" + h++ : "" }));
  }
  return { kind: "threads", threads, sources, points: points(r, threads.length), hash: r.u32() };
}
// Oracle over the outcome of a threads scenario.
function judgeThreads(sc, out, ctx, viol, { model = true } = {}) {
  const bytes = sc.sources.map((s) => toBytes(s));
  for (let i = 0; i < sc.threads.length; i++) {
    const kept = new Map();
    for (let j = 0; j < sc.threads[i].length; j++) {
      const o = sc.threads[i][j], got = out.results[i]?.[j];
      if (!got) break; // reported as stuck
      const say = (w) => viol.push({ cls: "interference", msg: `caller ${i} call ${j} (${o.op}${o.trace ? " traced" : ""} source ${o.src ?? ""}${o.handle || ""}): ${w}` });
      if (o.op === "mutate") { kept.delete(o.handle); continue; }
      if (o.op === "dump") {
        const w = kept.get(o.handle);
        if (w && w.handle) { const d = differs(got, w.want, false); if (d) viol.push({ cls: "result changed", msg: `caller ${i}: what it was given by ${o.handle} changed afterwards: ${d}` }); }
        continue;
      }
      const want = expected(ctx, o, bytes[o.src]);
      const d = differs(got, want, !!o.listener);
      if (d) say(d);
      else if (model && o.op !== "annotation") { const m = modelSays(ctx, bytes[o.src], got); if (m) viol.push({ cls: "wrong answer", msg: `caller ${i} call ${j}: ${m}` }); }
      if (o.keep) kept.set(o.keep, { handle: o.keep, want });
    }
  }
}
export function threadHist(sc, out, sites) {
  const l = sc.threads.map((t, i) => `caller ${i}: ${t.map((o, j) => `${o.op}${o.trace ? "/trace" : ""}(${o.handle || "source " + o.src})->${short(out?.results?.[i]?.[j] ? (out.results[i][j].ok ? "ok " + sha(out.results[i][j].json || JSON.stringify(out.results[i][j].ann || null)) : "error " + (out.results[i][j].err || out.results[i][j].panic)) : "no answer", 120)}`).join("; ")}`);
  for (const [step, from, to, site] of (out?.log || []).slice(0, 300)) l.push(`step ${step}: caller ${from} stops before ${sites[site - 1] || "its end"}, caller ${to} continues`);
  return l;
}
export const sitesOf = (ctx) => ctx._sites ||= JSON.parse(fs.readFileSync(`${ctx.dir}/sites-2.json`, "utf8"));
export const sigOf = (out) => sha(JSON.stringify(out?.log || []));
const soloMemo = new Map();
function soloSteps(ctx, o, src) {
  if (o.op === "mutate" || o.op === "dump") return 100;
  const k = o.op + (o.trace ? "T" : "") + latin(src);
  let n = soloMemo.get(k);
  if (n === undefined) {
    const r = ThreadsProc.run(ctx.libi, { threads: [[{ ...o, src: 0, keep: "" }]], sources: [fromBytes(src)], points: [], bound: 5e6 });
    n = r.out ? r.out.steps : 0;
    if (!r.out || r.out.overrun) n = Infinity;
    if (soloMemo.size > 5000) soloMemo.clear();
    soloMemo.set(k, n);
  }
  return n;
}

// ------------------------------------------------------------------ C07
export const C07 = {
  id: "C07",
  rule: "a case is 2-6 caller threads in one fresh process, each with 1-5 calls (parse with or without its own listener or trace, the one-argument parse, annotation parse, reading an earlier result again) over a shared pool of sources, and an explicit schedule of hand-overs at statement granularity; non-trivial when at least one hand-over happened inside a call; distinct by the recorded sequence of hand-overs plus sources",
  gen(r, ctx) { return threadsOf(r, ctx); },
  check(sc, ctx) {
    const viol = [];
    const R = ThreadsProc.run(ctx.libi, { ...sc, bound: 2e7 }, { hash: sc.hash });
    const out = R.out;
    if (!out) viol.push({ cls: "process died", msg: `the process ${R.state} (${R.trap || ""}) ${R.text.slice(-600)}` });
    else {
      judgeThreads(sc, out, ctx, viol);
      if (!viol.length && (out.deadlock || out.overrun)) viol.push({ cls: "no answer", msg: `callers ${out.stuck} never got an answer (${out.deadlock ? "deadlock" : "no end in sight"})` });
    }
    return { viol, key: JSON.stringify(sc.sources.length), sig: sha(JSON.stringify(sc.sources)) + sigOf(out), fired: { "hand-over": out?.switches || 0, ...R.fired }, simNs: 0, steps: out?.steps || 0, switches: out?.switches || 0, nontrivial: (out?.switches || 0) >= sc.threads.length, hist: () => threadHist(sc, out, sitesOf(ctx)), probes: { switched_in_first_use: (out?.log || []).filter((x) => x[0] < 200 && x[3]).length > 0, switched_in_grammar: (out?.log || []).some((x) => /kfgrammar/.test(sitesOf(ctx)[x[3] - 1] || "")), switched_in_visitor: (out?.log || []).some((x) => /visitor/.test(sitesOf(ctx)[x[3] - 1] || "")), switched_in_validator: (out?.log || []).some((x) => /schema\//.test(sitesOf(ctx)[x[3] - 1] || "")), rejected: out ? out.results.flat().filter((x) => !x.ok).length : 0, accepted: out ? out.results.flat().filter((x) => x.ok).length : 0 } };
  },
};

// ------------------------------------------------------------------ C08
let scratchN = 0;
export function runRace(ctx, sc) {
  const base = `${ctx.dir}/race-${process.pid}-${scratchN++}`;
  const b64 = (s) => typeof s === "string" ? Buffer.from(s, "utf8").toString("base64") : s.b64;
  const req = JSON.stringify({ threads: sc.threads, sources: sc.sources.map(b64), points: sc.points.flat(), bound: 2e7, warm: sc.warm || [] });
  const p = spawnSync(`${ctx.dir}/threads-race`, [`${base}.json`], { input: req, env: { PATH: "/bin", HOME: "/nonexistent", GORACE: "atexit_sleep_ms=0 exitcode=66 history_size=4", GOTRACEBACK: "all" }, timeout: 300000, maxBuffer: 64 << 20, stdio: ["pipe", "ignore", "pipe"] });
  let out = null; try { out = JSON.parse(fs.readFileSync(`${base}.json`, "utf8")); } catch { /* died */ }
  fs.rmSync(`${base}.json`, { force: true });
  if (p.error || p.signal) throw new Error(`the race program did not finish: ${p.error || p.signal}`);
  return { code: p.status, err: p.stderr.toString("utf8"), out };
}
export function raceReports(err) {
  const out = [];
  for (const b of err.split("==================")) {
    if (!/WARNING: DATA RACE/.test(b)) continue;
    const frames = [...b.matchAll(/^ {2}(\S+)\(.*\)\n +(\S+?):(\d+)/gm)].map((m) => ({ fn: m[1].split("/").pop(), file: m[2], line: m[3], mod: m[2] }));
    const kinds = [...b.matchAll(/^(Read|Write|Previous read|Previous write|\[failed)/gm)].map((m) => m[1]);
    out.push({ kinds, frames: frames.slice(0, 12), text: b.trim().slice(0, 3000) });
  }
  return out;
}
export const C08 = {
  id: "C08",
  rule: "a case is 2-6 caller threads in one fresh native process built with the race detector, calls and hand-overs as in C07; hand-overs are hidden from the detector so that only the program's own synchronisation orders accesses; non-trivial when at least two threads ran library code and one hand-over happened inside a call; distinct by sequence of hand-overs plus sources",
  gen(r, ctx) {
    const sc = threadsOf(r, ctx, { mutate: 0.15 });
    sc.cold = r.chance(0.7);
    if (!sc.cold) sc.warm = [{ op: "parse", src: 0 }];
    return sc;
  },
  check(sc, ctx) {
    const viol = [];
    const R = runRace(ctx, sc);
    const races = raceReports(R.err);
    for (const x of races) {
      const own = x.frames.filter((f) => f.file.startsWith("/repo/") || /kuneiform/.test(f.file)).slice(0, 3).map((f) => f.fn);
      viol.push({ cls: "data race", msg: `data race (${x.kinds.join(" / ")}): ${x.frames.slice(0, 6).map((f) => `${f.fn} ${f.file.split("/").slice(-2).join("/")}:${f.line}`).join(", ")}`, own });
      break;
    }
    if (!races.length && !R.out) viol.push({ cls: "process died", msg: `the process ended with status ${R.code} and no outcome: ${R.err.slice(0, 1500)}` });
    return { viol, key: "", sig: sha(JSON.stringify(sc.sources)) + sigOf(R.out), fired: { "hand-over": R.out?.switches || 0 }, simNs: 0, steps: R.out?.steps || 0, switches: R.out?.switches || 0, nontrivial: (R.out?.switches || 0) >= sc.threads.length, hist: () => [...threadHist(sc, R.out, sitesOf(ctx)), ...races.flatMap((x) => x.text.split("\n"))], probes: { cold: !!sc.cold, first_use_overlap: (R.out?.log || []).filter((x) => x[0] < 200 && x[3]).length > 0, own_result_mutated: sc.threads.flat().some((o) => o.op === "mutate") } };
  },
};

// very many different texts, and then some of the early ones again: steps name the i-th variant of a source
export function manyTexts(r, ctx) {
  const g = G(r, ctx); const sources = [];
  for (let i = r.range(1, 3); i > 0; i--) sources.push(r.weighted([[3, () => g.valid(0.3)], [2, () => g.invalid(0.3).text], [1, () => { const t = g.valid(0.3); return t.slice(0, r.int(t.length)); }]])());
  sources.push(r.pick(["database d; action a() public { SELECT a FROM t WHERE; }", "database d; table t { a int, a int }", "database d; action a($p) public { a($q); }", "database d; action a() public { SELECT x FROM t; }", "database d"]));
  const n = r.pick([20, 70, 140, 140, 300, 300, 600, 1100]), steps = [], op = () => r.chance(0.2) ? "parse1" : "parse";
  const even = r.chance(0.4), of = Array.from({ length: n }, (_, i) => even ? i % sources.length : r.int(sources.length));
  const at = (i) => ({ calls: [{ op: op(), src: of[i], v: i }] });
  for (let i = 0; i < n; i++) { steps.push(at(i)); if (r.chance(0.03)) steps.push(at(r.int(i + 1))); }
  const back = r.pick([0, 0, r.int(n), n - 1]);
  for (let i = 0; i < r.pick([10, 40, 100]) && back + i < n; i++) steps.push(at(back + i));
  for (let i = r.pick([5, 30]); i > 0; i--) steps.push(at(r.int(n)));
  return { sources, steps };
}
// ------------------------------------------------------------------ C09
export const C09 = {
  id: "C09",
  rule: "a case is one long-lived process and a history of 5-40 calls (now and then 300, or up to a thousand different texts and then early ones again) over a small pool of sources, valid, invalid and damaged, some overlapping, some traced, with failing or slow console writes, clock jumps and garbage-collector settings; non-trivial when some source is compiled after another one failed; distinct by history and sources",
  gen(r, ctx) {
    const g = G(r, ctx);
    if (r.chance(0.03)) return { kind: "session", ...manyTexts(r, ctx), faults: [], clock: {}, env: r.pick([{}, { GOGC: "1" }]), hash: r.u32(), lat: { kind: "zero" } };
    const long = r.chance(0.04);
    const sources = sourcePool(r, ctx, r.range(2, 6), long ? [0.3] : [0.3, 0.6, 1]);
    const nsrc = sources.length; const nann = r.range(2, 5); sources.push(...annotationTexts(r, g, nann));
    const annish = r.chance(0.15) ? 0.6 : 0.1;
    const steps = []; let h = 0;
    const pace = r.pick([0, 1e4, 1e7, 1e9]), storm = !long && r.chance(0.06);
    const one = () => r.chance(annish) ? { op: "annotation", src: nsrc + r.int(nann) } : { op: r.chance(0.2) ? "parse1" : "parse", src: r.int(nsrc), trace: r.chance(0.12), listener: r.chance(0.3) ? "l" + h++ : "", keep: r.chance(0.2) ? "k" + h++ : "" };
    if (storm) for (let k = r.range(1, 3); k > 0; k--) { // the same call over and over
      const o = one(); o.listener = o.keep = "";
      const few = toBytes(sources[o.src]).length > 1500 ? 25 : 90;
      for (let i = r.range(5, few); i > 0; i--) steps.push({ calls: [o], ...(pace ? { pace: Math.min(pace, 1e7) } : {}) });
      for (let i = r.range(0, 3); i > 0; i--) steps.push({ calls: [one()] });
    }
    for (let i = long ? 300 : r.range(5, storm ? 10 : 40); i > 0; i--) {
      const s = { calls: [one()] };
      if (r.chance(0.15)) for (let k = r.range(1, 3); k > 0; k--) s.calls.push(one());
      if (pace) s.pace = r.chance(0.9) ? pace : r.pick([1e3, 1e9, 60e9, 3600e9]);
      steps.push(s);
    }
    const faults = [];
    for (let i = r.weighted([[2, 0], [2, 2], [1, 8]]); i > 0; i--) faults.push({ at: "op", pid: 0, op: "stdwrite", nth: r.int(60), ...r.pick([{ kind: "errno", code: "EIO" }, { kind: "errno", code: "ENOSPC" }, { kind: "short", frac: 0.5 }, { kind: "delay", delay: 60e9 }]) });
    return { kind: "session", sources, steps, faults, clock: r.pick([{}, {}, { jumps: [{ at: 1000, by: -86400e9 }] }, { base: 0 }]), env: r.pick([{}, {}, { GOGC: "1" }, { GOGC: "off" }]), hash: r.u32(), lat: { kind: r.pick(["zero", "uniform", "tied"]) } };
  },
  check(sc, ctx) {
    const viol = []; const bytes = sc.sources.map((s) => toBytes(s));
    const l = new LibProc(ctx.lib, { hash: sc.hash, env: sc.env, sc: { faults: sc.faults, clock: sc.clock, lat: sc.lat } });
    let failedBefore = false, repeats = 0, steps = 0; const seen = new Set(); const hist = [], told = new Map();
    const textOf = (o) => o.v === undefined ? bytes[o.src] : toBytes(variant(sc.sources[o.src], o.v));
    for (const [n, s] of sc.steps.entries()) {
      const ids = s.calls.map((o) => l.submit({ op: o.op, trace: !!o.trace, listener: o.listener || "", keep: o.keep || "" }, textOf(o)));
      l.settle(ids, s.pace || Infinity); steps += l.w.steps;
      for (const [k, o] of s.calls.entries()) {
        const got = l.answers.get(ids[k]);
        hist.push(`call ${n}.${k} ${o.op}${o.trace ? "/trace" : ""} source ${o.src}${o.v === undefined ? "" : "#" + o.v}: ${got ? (got.ok ? "ok " + sha(got.json || JSON.stringify(got.ann || null)) : "error " + short(got.err || got.panic, 100)) : "no answer"}`);
        // a text of which there are very many: as it was answered the first time, and as the model has it
        const key = o.v === undefined ? null : o.op + o.src + "#" + o.v;
        const want = key === null ? expected(ctx, o, bytes[o.src]) : told.get(key) || (got && !got.panic ? got : expected(ctx, o, textOf(o)));
        if (key !== null && got) told.set(key, got);
        const d = differs(got, want, !!o.listener);
        if (d) { viol.push({ cls: "history matters", msg: `call ${n}.${k} (${o.op} source ${o.src}) after ${n} steps: ${d}${l.alive ? "" : ` (the process ${l.p.state}: ${l.p.text(2).slice(-300)})`}` }); break; }
        const m = o.op === "annotation" ? null : modelSays(ctx, textOf(o), got);
        if (m) { viol.push({ cls: "wrong answer", msg: `call ${n}.${k}: ${m}` }); break; }
        if (seen.has(o.src)) repeats++;
        if (seen.size && failedBefore) repeats++;
        seen.add(o.src); if (!got.ok) failedBefore = true;
      }
      if (viol.length) break;
    }
    const fired = l.w.fired, simNs = l.w.now;
    l.close();
    return { viol, sig: sha(JSON.stringify([sc.sources, sc.steps])), fired, simNs, steps, switches: 0, nontrivial: failedBefore && repeats > 0, hist: () => hist, probes: { repeats, overlapped: sc.steps.filter((s) => s.calls.length > 1).length, traced: sc.steps.flatMap((s) => s.calls).filter((o) => o.trace).length, calls: hist.length } };
  },
};

// ------------------------------------------------------------------ C11
const BADARGS = [[], ["a", "b"], [1], [null], [undefined], [true], [{}], [[]], [NaN], [{ toString() { throw new Error("boom"); } }], [""], ["\ud800"], ["database x;\u0000"]];
const KNOWN_ASYNC = { id: "C11-async-console", what: "under a host whose console writes complete later (not a browser), a call whose source makes the statement lexer of kwil-db/parse print to standard error (antlr ConsoleErrorListener) returns undefined and ends the module with 'all goroutines are asleep': the handler in wasm/wasm.go blocks on the write" };
export const C11 = {
  id: "C11",
  rule: "a case is one page: the module is loaded, then 4-40 calls (now and then hundreds, or up to a thousand different texts and then early ones again) with valid, invalid and damaged texts and misused arguments, with failing console writes, clock jumps, garbage-collector settings and reloads of the module; run 0 is the recorded asynchronous-console finding; non-trivial when a call succeeded after a failed or misused one; distinct by history",
  gen(r, ctx, i) {
    if (i === 0) return { kind: "session", sources: ["database x; action a() public { a(1 | 2); }"], steps: [{ src: 0 }], hash: 1, asyncConsole: true, faults: [], clock: {}, env: {} };
    if (r.chance(0.03)) { const m = manyTexts(r, ctx); return { kind: "session", sources: m.sources, steps: m.steps.flatMap((s) => [...(r.chance(0.01) ? [{ bad: r.int(BADARGS.length) }] : []), { src: s.calls[0].src, v: s.calls[0].v }]), faults: [], clock: {}, env: {}, hash: r.u32(), asyncConsole: false }; }
    const long = r.chance(0.05);
    const sources = sourcePool(r, ctx, r.range(2, 6), long ? [0.3] : [0.3, 0.6, 1]);
    const steps = [];
    for (let k = long ? r.pick([300, 600]) : r.range(4, 40); k > 0; k--) steps.push(r.chance(0.2) ? { bad: r.int(BADARGS.length) } : r.chance(0.04) ? { reload: true } : { src: r.int(sources.length) });
    const faults = [];
    for (let k = r.weighted([[2, 0], [2, 2], [1, 6]]); k > 0; k--) faults.push({ at: "op", pid: 0, op: "stdwrite", nth: r.int(30), kind: "errno", code: r.pick(["EIO", "ENOSPC", "EAGAIN"]) });
    return { kind: "session", sources, steps, faults, clock: r.pick([{}, {}, { jumps: [{ at: 0, by: -86400e9 }] }, { base: 0 }]), env: r.pick([{}, {}, { GOGC: "1" }, { GOGC: "off" }]), hash: r.u32(), asyncConsole: r.chance(0.1) };
  },
  check(sc, ctx) {
    const viol = [], known = [], hist = []; const bytes = sc.sources.map((s) => toBytes(s));
    const texts = bytes.map((b) => goDecode(b));
    const textOf = (s) => s.v === undefined ? texts[s.src] : goDecode(toBytes(variant(sc.sources[s.src], s.v)));
    const load = () => new WebProc(ctx.web, { hash: sc.hash, sc: { faults: sc.faults, clock: sc.clock, env: sc.env }, env: sc.env, asyncConsole: sc.asyncConsole });
    let w = load(), afterBad = false, recovered = 0, steps = 0; const fired = {};
    const drop = () => { for (const k in w.w.fired) fired[k] = (fired[k] || 0) + w.w.fired[k]; steps += w.w.steps; w.close(); };
    const first = new Map();
    if (!w.ready) viol.push({ cls: "module unavailable", msg: `after loading, the entry point is missing (${w.p.state} ${w.p.trap || ""})` });
    for (const [n, s] of sc.steps.entries()) {
      if (viol.length) break;
      if (s.reload) { drop(); w = load(); hist.push(`${n} reload`); if (!w.ready) viol.push({ cls: "module unavailable", msg: "after a reload, the entry point is missing" }); continue; }
      const before = w.p.text(2).length;
      let v, threw = null;
      try { v = s.bad !== undefined ? w.call(...BADARGS[s.bad]) : w.call(textOf(s)); } catch (e) { threw = String(e); }
      if (sc.asyncConsole) { w.w.run(1e4); }
      hist.push(`${n} call(${s.bad !== undefined ? "bad arguments " + s.bad : "source " + s.src + (s.v === undefined ? "" : "#" + s.v)}) -> ${threw ? "threw " + threw : v === undefined ? "undefined" : typeof v === "string" ? JSON.stringify(v) : v && typeof v === "object" ? (v.error !== undefined ? "error " + short(v.error, 80) : "json " + sha(String(v.json))) : String(v)}`);
      const bad = (m, cls = "call not answered") => viol.push({ cls, msg: `call ${n} (${s.bad !== undefined ? "arguments " + short(BADARGS[s.bad].map(String2)) : "source " + s.src}): ${m}` });
      if (threw) { bad("threw " + threw); break; }
      if (sc.asyncConsole && v === undefined && /all goroutines are asleep/.test(w.p.text(2).slice(before)) && /ConsoleErrorListener/.test(w.p.text(2).slice(before))) { if (!isKnown(KNOWN_ASYNC.id)) { bad(`returned ${v}: ${KNOWN_ASYNC.what}`, "module died"); break; } known.push(KNOWN_ASYNC); afterBad = true; drop(); w = load(); continue; }
      if (w.p.state !== "running") { bad(`the module ${w.p.state} (${w.p.trap || w.p.text(2).slice(-300)})`, "module died"); break; }
      if (v === undefined || v === null) {
        bad(`returned ${v}`); break;
      }
      const misuse = s.bad !== undefined && BADARGS[s.bad].length !== 1;
      if (misuse) { if (typeof v === "object" && v.json) bad(`a call with ${BADARGS[s.bad].length} arguments returned a schema`); afterBad = true; continue; }
      if (typeof v !== "object") { bad(`returned ${short(String2(v))}`); break; }
      const ok = v.error === undefined || v.error === null || v.error === "";
      if (ok && (typeof v.json !== "string" || v.json === "")) { bad("neither a schema nor an error"); break; }
      if (!ok && v.json) { bad("both a schema and an error"); break; }
      if (!ok && typeof v.error !== "string") { bad(`the error is not a text: ${short(String2(v.error))}`); break; }
      if (s.bad !== undefined) { if (ok) { bad(`arguments that are no source gave a schema ${short(v.json)}`); break; } afterBad = true; continue; }
      const m = modelSays(ctx, enc.encode(textOf(s)), ok ? { ok: true, json: v.json } : { ok: false, err: v.error });
      if (m) { viol.push({ cls: "wrong answer", msg: `call ${n}: ${m}` }); break; }
      const want = s.v !== undefined ? { json: v.json } : expected(ctx, { op: "parse" }, enc.encode(texts[s.src]));
      if (ok && want.json !== v.json) { bad("the schema differs from the library's", "wrong answer"); break; }
      if (!ok && want.err && !v.error.includes(want.err)) { bad(`the error ${short(v.error)} does not carry the library's ${short(want.err)}`, "wrong answer"); break; }
      const id = s.src + "#" + (s.v ?? ""), f = first.get(id); const o = JSON.stringify([v.json, v.error]);
      if (f === undefined) first.set(id, o); else if (f !== o) { bad("the same text was answered differently before", "history matters"); break; }
      if (ok && afterBad) recovered++;
      if (!ok) afterBad = true;
    }
    drop();
    return { viol, known, sig: sha(JSON.stringify([sc.sources, sc.steps])), fired, simNs: 0, steps, switches: 0, nontrivial: recovered > 0, hist: () => hist, probes: { recovered, misuses: sc.steps.filter((s) => s.bad !== undefined).length, reloads: sc.steps.filter((s) => s.reload).length, calls: hist.length } };
  },
};
function String2(v) { try { return JSON.stringify(v) ?? String(v); } catch { return "[object]"; } }

// ------------------------------------------------------------------ C13
export const C13 = {
  id: "C13",
  rule: "a case is 1-4 caller threads that keep results, overwrite everything reachable from results they own (schemas, annotations, spare slice capacity), compile again and read their other results again, under a schedule of hand-overs; non-trivial when a result was overwritten and another one of the same source read or computed afterwards; distinct by hand-overs plus history",
  gen(r, ctx) {
    const sc = threadsOf(r, ctx, { kinds: ["parse", "parse", "parse1", "annotation"], mutate: 0.5, dumps: 0.4 });
    if (r.chance(0.3)) { sc.threads = [sc.threads.flat()]; sc.points = []; }
    return sc;
  },
  check(sc, ctx) {
    const viol = [];
    const R = ThreadsProc.run(ctx.libi, { ...sc, bound: 2e7 }, { hash: sc.hash });
    const out = R.out;
    if (!out) viol.push({ cls: "process died", msg: `the process ${R.state} (${R.trap || ""}) ${R.text.slice(-600)}` });
    else { judgeThreads(sc, out, ctx, viol); for (const v of viol) if (v.cls === "interference") v.cls = "result changed"; }
    const flat = sc.threads.flat(); const mi = flat.findIndex((o) => o.op === "mutate");
    return { viol, sig: sha(JSON.stringify([sc.sources, sc.threads])) + sigOf(out), fired: { "hand-over": out?.switches || 0, overwrite: flat.filter((o) => o.op === "mutate").length }, simNs: 0, steps: out?.steps || 0, switches: out?.switches || 0, nontrivial: mi >= 0 && flat.slice(mi + 1).some((o) => o.op !== "mutate"), hist: () => threadHist(sc, out, sitesOf(ctx)), probes: { overwritten_cells: out ? out.results.flatMap((t, i) => t.filter((_, j) => sc.threads[i][j].op === "mutate")).reduce((a, x) => a + x.llen, 0) : 0, reread: flat.filter((o) => o.op === "dump").length } };
  },
};

// ------------------------------------------------------------------ C14
export const C14 = {
  id: "C14",
  rule: "a case is 1-6 caller threads as in C07, with sources of every kind (valid, invalid, damaged, deeply nested, repetitive) and adversarial schedules; every call must be answered within three times the statements the calls execute alone, plus a constant; non-trivial when a hand-over happened inside a call or a source is rejected; distinct by hand-overs plus sources",
  gen(r, ctx) {
    const sc = threadsOf(r, ctx);
    if (r.chance(0.03)) { // a long life
      const g = G(r, ctx); const n = r.pick([80, 150, 400]);
      sc.sources = [g.invalid(0.3).text, g.invalid(0.3).text, g.valid(0.3)];
      sc.threads = Array.from({ length: r.range(1, 3) }, () => Array.from({ length: n }, () => ({ op: r.pick(["parse", "parse1"]), src: r.weighted([[5, 0], [3, 1], [1, 2]]), trace: false, listener: r.chance(0.3) ? "!" : "" })));
    } else if (r.chance(0.3)) { // awkward shapes
      const n = r.pick([20, 60, 150, 150, 300]), m = Math.min(n, 60), v = r.pick(["1", "'x'", "$p", "$nosuch"]), nest = (a, b) => `database d; action a($p) public { a(${a.repeat(m)}${v}${b.repeat(m)}); }`;
      sc.sources[0] = r.chance(0.3) ? r.pick([nest("abs(", ")"), nest("-", ""), nest("- ", ""), nest("1 + ", ""), nest("", " * 2"), nest("(1 + ", ")"), nest("format('x', ", ")"), nest("(", " < 2)"), nest("upper(1 = ", ")"), nest("", ", $p")]) : r.pick([
        `database d; action a() public { abs(${"(".repeat(n)}1${")".repeat(n)}); }`, `database d; ${"table t { a int } ".repeat(n)}`, `database d; table t { ${Array.from({ length: n }, (_, i) => "c" + i + " int").join(", ")} }`,
        `database d; action a() public { ${"SELECT 1; ".repeat(n)} }`, "{".repeat(n), "database d; " + "@".repeat(n), `database d; action a(${Array.from({ length: n }, (_, i) => "$p" + i).join(",")}) public { SELECT 1; }`, "/*".repeat(n), "'".repeat(n), `database d; action a() public { ${"/* ".repeat(n)} SELECT 1; }`,
      ]);
    }
    return sc;
  },
  check(sc, ctx) {
    const viol = []; const bytes = sc.sources.map((s) => toBytes(s));
    let solo = 0, endless = null;
    for (const t of sc.threads) for (const o of t) { const n = soloSteps(ctx, o, bytes[o.src]); if (n === Infinity) endless = o; else solo += n; }
    const bound = 3 * solo + 20000;
    let out = null, R = { state: "", fired: {} };
    if (endless) viol.push({ cls: "no end in sight", msg: `a ${endless.op} of source ${endless.src}, alone in its process, executes more than 5 million statements or never answers` });
    else {
      R = ThreadsProc.run(ctx.libi, { ...sc, bound }, { hash: sc.hash }); out = R.out;
      if (!out) viol.push({ cls: "process died", msg: `the process ${R.state} (${R.trap || ""}) ${R.text.slice(-600)}` });
      else if (out.deadlock) viol.push({ cls: "deadlock", msg: `callers ${out.stuck} wait for each other for ever` });
      else if (out.overrun) viol.push({ cls: "no end in sight", msg: `callers ${out.stuck} were not answered within ${bound} statements (alone, all calls together take ${solo})` });
      else if (out.stuck) viol.push({ cls: "no answer", msg: `callers ${out.stuck} were not answered` });
    }
    return { viol, sig: sha(JSON.stringify(sc.sources)) + sigOf(out), fired: { "hand-over": out?.switches || 0, ...R.fired }, simNs: 0, steps: out?.steps || 0, switches: out?.switches || 0, nontrivial: (out?.switches || 0) >= sc.threads.length || (out?.results || []).flat().some((x) => !x.ok), hist: () => threadHist(sc, out, sitesOf(ctx)), probes: { statements: out?.steps || 0, tight: out && solo ? out.steps / solo > 0.9 : 0 } };
  },
};

// ------------------------------------------------------------------ C23
const judged = new Map();
function expectedJudged(ctx, src) { // a result judged again, by a caller who is alone
  const k = latin(src); let a = judged.get(k);
  if (!a) {
    const l = new LibProc(ctx.lib, { hash: 7 }); l.p.spec.syncConsole = true;
    l.call({ op: "parse", keep: "k" }, src); a = l.call({ op: "validate", handle: "k" }) || { panic: "no answer" };
    l.close(); if (judged.size > 5000) judged.clear(); judged.set(k, a);
  }
  return a;
}
export const C23 = {
  id: "C23",
  rule: "a case compiles 1-3 sources, then 2-6 caller threads read, serialise and validate those same finished results at once, while some of them compile, or overwrite results of their own, under a schedule of hand-overs; every other case runs natively under the race detector; non-trivial when at least one hand-over happened inside a call; distinct by hand-overs plus sources",
  gen(r, ctx, i) {
    const g = G(r, ctx);
    const sources = []; for (let k = r.weighted([[4, 1], [2, 2], [1, 3]]); k > 0; k--) sources.push(r.chance(0.85) ? g.valid(r.pick([0.3, 0.6, 1])) : g.invalid(0.4).text);
    const warm = sources.map((_, k) => ({ op: "parse", src: k, keep: "s" + k, raw: r.chance(0.8) }));
    const threads = []; let h = 0;
    for (let k = r.weighted([[4, 2], [3, 3], [2, 4], [1, 6]]); k > 0; k--) {
      const t = []; const mine = [];
      for (let j = r.range(1, 5); j > 0; j--) {
        const x = r.float();
        if (x < 0.4) t.push({ op: "validate", src: 0, handle: r.pick(warm).keep });
        else if (x < 0.75) t.push({ op: "dump", src: 0, handle: r.pick(warm).keep });
        else { const o = { op: "parse", src: r.int(sources.length), trace: false, listener: "", keep: "k" + h++ }; mine.push(o.keep); t.push(o); if (r.chance(0.3)) t.push({ op: "mutate", src: 0, handle: o.keep, seed: r.u32() }); else t.push({ op: "validate", src: 0, handle: o.keep, own: o.src }); }
      }
      threads.push(t);
    }
    return { kind: "threads", threads, sources, warm, points: points(r, threads.length), hash: r.u32(), race: i % 2 === 1 };
  },
  check(sc, ctx) {
    const viol = []; const bytes = sc.sources.map(toBytes);
    let R, out, races = [];
    if (sc.race) { R = runRace(ctx, sc); out = R.out; races = raceReports(R.err); } else { R = ThreadsProc.run(ctx.libi, { ...sc, bound: 2e7 }, { hash: sc.hash }); out = R.out; }
    if (races.length) viol.push({ cls: "data race", msg: `data race (${races[0].kinds.join(" / ")}): ${races[0].frames.slice(0, 6).map((f) => `${f.fn} ${f.file.split("/").slice(-2).join("/")}:${f.line}`).join(", ")}` });
    else if (!out) viol.push({ cls: "process died", msg: sc.race ? `the process ended with status ${R.code}: ${R.err.slice(0, 1500)}` : `the process ${R.state} (${R.trap || ""}) ${R.text.slice(-600)}` });
    else for (let i = 0; i < sc.threads.length && !viol.length; i++) for (let j = 0; j < sc.threads[i].length; j++) {
      const o = sc.threads[i][j], got = out.results[i]?.[j];
      if (!got) { if (out.deadlock || out.overrun) viol.push({ cls: "no answer", msg: `caller ${i} got no answer` }); break; }
      if (o.op === "mutate") continue;
      const src = o.handle ? (o.own ?? sc.warm.findIndex((w) => w.keep === o.handle)) : o.src;
      const mine = o.handle && sc.threads[i].find((x) => x.keep === o.handle); const k = mine ? mine.src : src;
      if (k === undefined || k < 0) continue; // its source is gone from a shrunk scenario
      const want = o.op === "validate" ? expectedJudged(ctx, bytes[k]) : expected(ctx, { op: "parse" }, bytes[k]);
      const d = differs(got, want, false) || (o.op === "validate" && JSON.stringify(got.lerrs ?? null) !== JSON.stringify(want.lerrs ?? null) ? `its parts: got ${short(got.lerrs)}, alone they are ${short(want.lerrs)}` : null);
      if (d) { viol.push({ cls: "shared result", msg: `caller ${i} call ${j} (${o.op} ${o.handle || "source " + o.src}): ${d}` }); break; }
      if (o.op === "validate" && want.err && !expected(ctx, { op: "parse" }, bytes[k]).err) { viol.push({ cls: "result refused", msg: `a returned schema does not pass the validator again: ${short(want.err)}` }); break; }
    }
    return { viol, key: "", sig: sha(JSON.stringify([sc.sources, !!sc.race])) + sigOf(out), fired: { "hand-over": out?.switches || 0 }, simNs: 0, steps: out?.steps || 0, switches: out?.switches || 0, nontrivial: (out?.switches || 0) >= sc.threads.length, hist: () => [...threadHist(sc, out, sitesOf(ctx)), ...races.flatMap((x) => x.text.split("\n"))], probes: { raced: !!sc.race, validated: sc.threads.flat().filter((o) => o.op === "validate").length, overwritten_own: sc.threads.flat().filter((o) => o.op === "mutate").length } };
  },
};

// apiprops.mjs - properties of the entry points taken together, of failing library calls,
// and of what a long-lived process holds on to.
import { Gen, goDecode, variant } from "../gen.mjs";
import { toBytes, fromBytes, enc, latin } from "../world.mjs";
import { LibProc, WebProc, ThreadsProc } from "../sessions.mjs";
import * as K from "../cli.mjs";
import { alignText } from "./cliprops.mjs";
import { expected, sourcePool, threadsOf, threadHist, sitesOf, sigOf, modelSays, sha, short } from "./libprops.mjs";

const G = (r, ctx) => new Gen(r, (s) => ctx.expectOracle(s));
const dec = (u8) => u8 instanceof Uint8Array ? Buffer.from(u8).toString("utf8") : null;

// ------------------------------------------------------------------ C16
export const C16 = {
  id: "C16",
  rule: "a case hands one source (valid, invalid or damaged) to the command line tool, both library functions, the trace mode and the web module, each with its own history, hash seed, collector settings and delivery faults (short, slow, interrupted reads, slow console); non-trivial when at least four entry points answered and some had a history; distinct by source and histories",
  gen(r, ctx) {
    const g = G(r, ctx);
    const x = r.float();
    if (r.chance(0.015)) g.pad = r.pick([66e3, 140e3, 1.1e6]);
    let text = x < 0.5 ? g.valid(r.pick([0.3, 0.6, 1, 2])) : x < 0.85 ? g.invalid(r.pick([0.5, 1])).text : fromBytes(g.damage(enc.encode(g.valid(0.6))).bytes);
    if (!g.pad && r.chance(0.06)) text = alignText(text, r, (t) => { const e = expected(ctx, { op: "parse" }, toBytes(t)); return e.ok && e.json ? enc.encode(e.json).length : -1; });
    g.pad = 0;
    const before = sourcePool(r, ctx, r.int(3), [0.3, 0.6]);
    const n = toBytes(text).length;
    const faults = [];
    if (r.chance(0.6)) { let left = n; for (let i = 0; i < 30 && left > 0; i++) { const k = r.weighted([[3, r.range(1, 9)], [2, r.range(1, 500)]]); left -= k; faults.push({ at: "op", pid: 0, op: "read", nth: i, ...(r.chance(0.1) ? { kind: "errno", code: "EINTR" } : { kind: "short", n: k }) }); } }
    if (r.chance(0.3)) faults.push({ at: "op", pid: 0, op: "stdwrite", nth: r.int(4), ...r.pick([{ kind: "short", frac: 0.5 }, { kind: "delay", delay: 30e9 }, { kind: "delay", delay: 1e6 }]) });
    return { kind: "session", sources: [text, ...before], steps: r.sample([{ via: "cli", src: 0 }, { via: "parse1", src: 0 }, { via: "parse", src: 0 }, { via: "parse", src: 0, listener: true }, { via: "parse", src: 0, trace: true }, { via: "web", src: 0 }], 6).flatMap((s) => [...(before.length && r.chance(0.4) ? [{ via: r.pick(["parse", "web", "parse1"]), src: 1 + r.int(before.length) }] : []), s]), faults, lat: K.lat(r), clock: K.clock(r), env: r.pick([{}, {}, { GOGC: "1" }, { GOGC: "off" }]), hash: r.u32() };
  },
  check(sc, ctx) {
    const viol = [], hist = [], answers = []; const fired = {}; let steps = 0, simNs = 0;
    const bytes = sc.sources.map(toBytes), texts = bytes.map(goDecode);
    let l = null, w = null, n = 0;
    const add = (x) => { for (const k in x.fired) fired[k] = (fired[k] || 0) + x.fired[k]; steps += x.steps; simNs += x.now; };
    for (const s of sc.steps) {
      let a = null; n++;
      if (s.via === "cli") {
        const T = K.runCli({ kind: "cli", seed: sc.hash + n, lat: sc.lat, clock: sc.clock, faults: sc.faults, fs: [{ path: "/w/a.kf", data: sc.sources[s.src] }], procs: [{ argv: ["kuneiform", "a.kf", "-o", "out"], cwd: "/w", env: sc.env, hash: sc.hash + n }] }, ctx);
        const P = T.procs[0]; add(T.w);
        if (!T.quiet || P.p.state !== "exited") { viol.push({ cls: "entry points disagree", msg: `the tool ${P.p.state} ${P.p.trap || ""} on this source: ${P.p.text().slice(-200)}` }); break; }
        a = { ok: P.p.code === 0, json: P.p.code === 0 ? dec(P.atEnd) : null, err: P.p.code === 0 ? null : Buffer.from(P.p.text(), "latin1").toString("utf8"), code: P.p.code };
        if (!a.ok && a.code !== 5) { viol.push({ cls: "entry points disagree", msg: `the tool exited ${a.code}: ${a.err.slice(-200)}` }); break; }
      } else if (s.via === "web") {
        if (!w) { w = new WebProc(ctx.web, { hash: sc.hash + n, env: sc.env }); if (!w.ready) { viol.push({ cls: "entry points disagree", msg: "the web module offers no entry point" }); break; } }
        const v = w.call(texts[s.src]);
        a = !v || typeof v !== "object" ? { ok: false, err: null, dead: `answered ${short(String(v))} (${w.p.state} ${w.p.trap || ""} ${w.p.text(2).slice(-200)})` } : { ok: !v.error, json: v.error ? null : v.json, err: v.error ?? null };
      } else {
        l ||= new LibProc(ctx.lib, { hash: sc.hash + n, env: sc.env, sc: { lat: sc.lat, clock: sc.clock, faults: [] } });
        const g = l.call({ op: s.via, trace: !!s.trace, listener: s.listener ? "!" : "" }, bytes[s.src]);
        a = !g ? { ok: false, dead: `gave no answer (${l.p.state} ${l.p.trap || ""} ${l.p.text(2).slice(-200)})` } : g.panic ? { ok: false, dead: "panicked: " + g.panic } : { ok: g.ok, json: g.ok ? g.json : null, err: g.ok ? null : g.err };
      }
      const name = `${s.via}${s.trace ? " traced" : ""}${s.listener ? " with a listener" : ""}`;
      hist.push(`${name} (source ${s.src}): ${a.dead || (a.ok ? "schema " + sha(a.json || "") : "error " + short(a.err, 100))}`);
      if (s.src !== 0) continue;
      if (a.dead) { viol.push({ cls: "entry points disagree", msg: `${name} ${a.dead}` }); break; }
      answers.push({ name, ...a });
    }
    if (l) { add(l.w); l.close(); } if (w) { add(w.w); w.close(); }
    if (!viol.length && answers.length) {
      const lib = answers.find((a) => /^parse/.test(a.name));
      for (const a of answers) for (const b of [answers[0]]) {
        if (a.ok !== b.ok) viol.push({ cls: "entry points disagree", msg: `${b.name} ${b.ok ? "accepts" : "rejects"} what ${a.name} ${a.ok ? "accepts" : "rejects"}: ${short(a.err || b.err)}` });
        else if (a.ok && a.json !== b.json) viol.push({ cls: "entry points disagree", msg: `${a.name} and ${b.name} give different schemas: ${short(a.json)} vs ${short(b.json)}` });
        if (viol.length) break;
      }
      if (!viol.length && lib && !lib.ok) for (const a of answers) if (!(a.err || "").includes(lib.err)) { viol.push({ cls: "entry points disagree", msg: `${a.name} reports ${short(a.err)}, ${lib.name} reports ${short(lib.err)}` }); break; }
      const e = ctx.expect.of(bytes[0]);
      if (!viol.length && !e.unsure && answers[0].ok !== e.ok) viol.push({ cls: "wrong answer", msg: e.ok ? `every entry point rejects a valid source: ${short(answers[0].err)}` : `every entry point accepts an invalid source (${e.why})` });
    }
    return { viol, sig: sha(JSON.stringify([sc.sources, sc.steps])), fired, simNs, steps, switches: 0, nontrivial: answers.length >= 4 && sc.sources.length > 1, hist: () => hist, probes: { answers: answers.length, accepted: answers.length && answers[0].ok, rejected: answers.length && !answers[0].ok } };
  },
};

// ------------------------------------------------------------------ C17
export const C17 = {
  id: "C17",
  rule: "a case is 1-4 caller threads that parse valid, invalid and damaged sources with and without listeners of their own, under a schedule of hand-overs; non-trivial when at least one call failed; distinct by hand-overs plus sources",
  gen(r, ctx) {
    const sc = threadsOf(r, ctx, { kinds: ["parse", "parse", "parse", "parse1"], dumps: 0 });
    const g = G(r, ctx);
    sc.sources = sc.sources.map((s, i) => i >= sc.sources.length - 2 || r.chance(0.3) ? s : r.chance(0.6) ? g.invalid(r.pick([0.3, 0.6, 1])).text : fromBytes(g.damage(enc.encode(g.valid(r.pick([0.3, 0.6])))).bytes));
    for (const t of sc.threads) for (const o of t) { if (o.op === "parse") o.listener = r.chance(0.7) ? "!" : ""; o.keep = ""; }
    sc.threads = sc.threads.map((t) => t.filter((o) => o.op !== "dump"));
    if (r.chance(0.25)) { sc.threads = [sc.threads.flat()]; sc.points = []; }
    return sc;
  },
  check(sc, ctx) {
    const viol = []; const bytes = sc.sources.map(toBytes);
    const R = ThreadsProc.run(ctx.libi, { ...sc, bound: 2e7 }, { hash: sc.hash });
    const out = R.out; let failed = 0, syn = 0, sem = 0;
    if (!out) viol.push({ cls: "process died", msg: `the process ${R.state} (${R.trap || ""}) ${R.text.slice(-600)}` });
    else for (let i = 0; i < sc.threads.length && !viol.length; i++) for (let j = 0; j < sc.threads[i].length; j++) {
      const o = sc.threads[i][j], got = out.results[i]?.[j];
      if (!got) { if (out.deadlock || out.overrun) viol.push({ cls: "no answer", msg: `caller ${i} got no answer` }); break; }
      const e = ctx.expect.of(bytes[o.src]);
      const bad = (m) => viol.push({ cls: "unusable failure", msg: `caller ${i} call ${j} (${o.op}${o.trace ? " traced" : ""}${o.listener ? " with a listener" : ""} source ${o.src}): ${m}` });
      if (got.panic) { bad(`a panic escaped: ${short(got.panic)}`); break; }
      if (got.ok) {
        if (!got.json || got.jerr) { bad(`success without a result (${got.jerr || "no JSON"})`); break; }
        if (o.listener && got.llen !== 0) { bad(`success, yet the listener holds ${got.llen} errors: ${short(got.lerrs)}`); break; }
        if (!e.unsure && !e.ok) { bad(`an invalid source was accepted (${e.why})`); break; }
        continue;
      }
      failed++;
      if (!got.err) { bad("failure without a message"); break; }
      if (!e.unsure && e.ok) { bad(`a valid source was rejected: ${short(got.err)}`); break; }
      if (!e.unsure) {
        const wantSyn = e.stage === "lex" || e.stage === "syntax";
        if (wantSyn) syn++; else sem++;
        if (got.syntax !== wantSyn && !!got.syntax !== wantSyn) { bad(`the source ${wantSyn ? "breaks the grammar" : "follows the grammar and breaks a rule"} (${e.why}), the error ${got.syntax ? "is" : "is not"} a syntax error: ${short(got.err)}`); break; }
      }
      if (o.listener) {
        if (got.llen < 1) { bad("failure, yet the listener holds nothing"); break; }
        if (!got.err.startsWith(got.lerrs[0])) { bad(`the message ${short(got.err)} does not start with the first recorded error ${short(got.lerrs[0])}`); break; }
        if (/line \d+:\d+/.test(got.err) && got.lerrs.some((x) => !x)) { bad("an empty error in the listener"); break; }
      }
    }
    return { viol, sig: sha(JSON.stringify(sc.sources)) + sigOf(out), fired: { "hand-over": out?.switches || 0, ...R.fired }, simNs: 0, steps: out?.steps || 0, switches: out?.switches || 0, nontrivial: failed > 0, hist: () => threadHist(sc, out, sitesOf(ctx)), probes: { failed, syntax: syn, rule: sem, many_errors: (out?.results || []).flat().filter((x) => x.llen > 1).length } };
  },
};

// ------------------------------------------------------------------ C18
export const C18 = {
  id: "C18",
  rule: "a case is one long-lived process (library or web module) that compiles an endless succession of different sources of a few shapes (valid, breaking rules, breaking the grammar), traced or not, with and without listeners, under failing console writes and collector settings; what it holds is compared between early and late; non-trivial when some of the calls failed or were traced; distinct by shapes",
  gen(r, ctx) {
    const g = G(r, ctx);
    const shapes = [];
    for (let i = r.range(1, 3); i > 0; i--) shapes.push(r.weighted([[3, () => g.valid(r.pick([0.3, 0.6]))], [3, () => g.invalid(0.4).text], [1, () => { const t = g.valid(0.4); return t.slice(0, r.int(t.length)); }]])());
    const web = r.chance(0.25);
    const faults = []; for (let k = r.weighted([[2, 0], [1, 5]]); k > 0; k--) faults.push({ at: "op", pid: 0, op: "stdwrite", nth: r.int(60), kind: "errno", code: r.pick(["EIO", "ENOSPC"]) });
    return { kind: "session", web, sources: shapes, steps: r.sample([{}, { op: "parse1" }, { listener: "!" }, { trace: true }, { op: "annotation" }, { together: 3 }], r.range(1, 4)), warm: 60, calls: 100, faults, env: web ? { GOGC: "10" } : r.pick([{}, {}, { GOGC: "1" }, { GOGC: "400" }]), pace: r.pick([0, 1e5, 1e6, 1e7]), hash: r.u32() };
  },
  check(sc, ctx) {
    const viol = [], hist = []; let i = 0, failed = 0, answered = 0; let mem, doSome, close, dead = () => null;
    const pieces = sc.steps.length ? sc.steps : [{}];
    if (sc.web) {
      const w = new WebProc(ctx.web, { hash: sc.hash, env: sc.env, sc: { faults: sc.faults } });
      const src = sc.sources.map((s) => typeof s === "string" ? s : goDecode(toBytes(s)));
      doSome = (n) => { for (let k = 0; k < n && w.p.state === "running"; k++, i++) { const v = w.call(variant(src[i % src.length], i)); answered++; if (v && v.error) failed++; if (i % 3 === 0 || sc.pace) w.w.run(1e5, sc.pace || Infinity); w.p.stdout = undefined; } };
      mem = () => ({ bytes: w.p.go.mem.buffer.byteLength, objects: 0, goroutines: 0, values: w.p.go._values.length });
      close = () => { const x = w.w; w.close(); return x; }; dead = () => w.p.state === "running" ? null : `${w.p.state} ${w.p.trap || ""} ${w.p.text(2).slice(-200)}`;
    } else {
      const l = new LibProc(ctx.lib, { hash: sc.hash, env: sc.env, sc: { faults: sc.faults } });
      doSome = (n) => {
        for (let k = 0; k < n && l.alive; k++, i++) {
          const o = pieces[i % pieces.length]; const ids = [];
          for (let m = o.together || 1; m > 0; m--, m && i++) ids.push(l.submit({ op: o.op || "parse", trace: !!o.trace, listener: o.listener || "" }, o.op === "annotation" ? enc.encode(variant("note(a=1,b='x')", i)) : toBytes(variant(sc.sources[i % sc.sources.length], i))));
          l.settle(ids, sc.pace || Infinity); l.w.hist.length = 0; l.p.trace.length = 0;
          for (const id of ids) { const a = l.answers.get(id); if (a) { answered++; if (!a.ok) failed++; } l.answers.delete(id); }
        }
      };
      mem = () => { const id = l.submit({ op: "mem" }); l.settle([id], sc.pace || Infinity); const a = l.answers.get(id); l.answers.delete(id); return a; };
      close = () => { const x = l.w; l.close(); return x; }; dead = () => l.alive ? null : `${l.p.state} ${l.p.trap || ""} ${l.p.text(2).slice(-200)}`;
    }
    const point = () => { const m = mem(); if (m) hist.push(`after ${i} calls: ${JSON.stringify(m)}`); return m; };
    const grown = (a, b) => { const g = {}; for (const k in a) g[k] = b[k] - a[k]; return g; };
    const K0 = sc.web ? { warm: 300, calls: 500 } : { warm: sc.warm ?? 60, calls: sc.calls ?? 100 };
    doSome(K0.warm); let a = point(); const i0 = i;
    doSome(K0.calls); let b = point();
    const calls0 = i - i0;
    if (!a || !b || dead()) viol.push({ cls: "process died", msg: `the process did not survive ${i} calls: ${dead() || "no answer"}` });
    else {
      const limits = sc.web ? { bytes: 200000, values: calls0 * 0.2 } : { bytes: calls0 * 8 + 2048, objects: calls0 * 0.1 + 8, goroutines: 2 };
      const g = grown(a, b); const sus = Object.keys(limits).filter((k) => g[k] > limits[k]);
      if (sus.length) {
        // is it a cache that fills up, or growth without end?
        const rate = {}; for (const k of sus) rate[k] = g[k] / calls0;
        let still = sus.slice();
        for (const n of [400, 1500, sc.web ? 2500 : 6000]) {
          const c0 = i, m0 = point(); doSome(n); const m1 = point();
          if (!m0 || !m1 || dead()) { viol.push({ cls: "process died", msg: `the process did not survive ${i} calls: ${dead() || "no answer"}` }); still = []; break; }
          const h = grown(m0, m1); still = still.filter((k) => h[k] / (i - c0) > rate[k] * 0.4);
          if (!still.length) break;
        }
        if (still.length) { const z = point(); viol.push({ cls: "unbounded growth", msg: `what the process holds grows with every call: ${still.map((k) => `${k} ${b[k]} after ${i0 + calls0} calls, ${z[k]} after ${i}`).join("; ")}` }); }
      }
    }
    const x = close();
    return { viol, sig: sha(JSON.stringify([sc.sources, sc.steps, sc.web])), fired: x.fired, simNs: x.now, steps: x.steps, switches: 0, nontrivial: failed > 0 || pieces.some((p) => p.trace), hist: () => hist, probes: { calls: i, answered, failed, web: sc.web, bytes_held: b ? b.bytes : 0 } };
  },
};

// run.mjs - the orchestrator:  node sim/run.mjs check C01 | replay FILE | determinism C01 [n] | build
//
// exit 0: property held on everything explored.  exit 1: "VIOLATION property=.. replay=..".
// Anything else (3): the check itself could not do its work.
import fs from "node:fs";
import path from "node:path";
import os from "node:os";
import { spawn } from "node:child_process";
import readline from "node:readline";
import { build, VERIF, REPO } from "./build.mjs";
import { PROPS } from "./registry.mjs";
import { META } from "./meta.mjs";
import { shrinks } from "./shrink.mjs";

const [cmd, arg, arg2] = process.argv.slice(2);
const SEED = Number(process.env.VERIF_SEED || 1) | 0;
const TIER = process.env.VERIF_TIER === "thorough" ? "thorough" : "quick";
const WORKERS = Number(process.env.VERIF_WORKERS || Math.max(1, Math.min(8, os.cpus().length)));
const t00 = Date.now();
const dir = path.join(VERIF, "out", `build-${process.pid}`);
const cleanup = () => { try { fs.rmSync(dir, { recursive: true, force: true }); } catch { /* nothing to remove */ } };
process.on("exit", cleanup);
for (const s of ["SIGINT", "SIGTERM"]) process.on(s, () => process.exit(3));
const HANG = 150;
const die = (m) => { console.error("ERROR: " + m); process.exit(3); };

class Worker {
  constructor(id, script = "worker.mjs") {
    this.p = spawn(process.execPath, ["--expose-gc", "--stack-size=3900", "--max-old-space-size=2500", path.join(VERIF, "sim", script), dir, id], { stdio: ["pipe", "pipe", "pipe"] });
    this.err = ""; this.p.stderr.on("data", (d) => { this.err = (this.err + d).slice(-3000); });
    this.wait = []; this.dead = false;
    readline.createInterface({ input: this.p.stdout }).on("line", (l) => { let m; try { m = JSON.parse(l); } catch { return; } const f = this.wait.shift(); if (f) f(m); });
    this.p.on("close", (c, s) => { this.dead = true; for (const f of this.wait.splice(0)) f({ error: `worker ended (${c ?? s}): ${this.err}` }); });
    this.p.stdin.on("error", () => {});
    this.ready = new Promise((r) => this.wait.push(r));
  }
  cpu() { try { const f = fs.readFileSync(`/proc/${this.p.pid}/stat`, "utf8").replace(/^.*\) /s, "").split(" "); return (Number(f[11]) + Number(f[12])) / 100; } catch { return 0; } } // seconds of processor time
  ask(m) {
    return new Promise((r) => {
      if (this.dead) return r({ error: "worker is gone: " + this.err });
      // a case takes milliseconds to seconds; one that computes on for HANG seconds of
      // processor time is stuck: an error of the check, never a violation (C14 counts statements)
      const cpu0 = this.cpu(), t0 = Date.now();
      const dog = setInterval(() => { if (this.cpu() - cpu0 > HANG) { done({ error: `the case computed for ${HANG} s of processor time without finishing`, i: m.i }); this.stop(); } else if (Date.now() - t0 > 500e3) { done({ error: "no answer in 500 s", i: m.i }); this.stop(); } }, 2000);
      const done = (x) => { clearInterval(dog); r(x); };
      this.wait.push(done); this.p.stdin.write(JSON.stringify(m) + "\n");
    });
  }
  stop() { this.dead = true; this.p.kill("SIGKILL"); }
}
async function pool(id, n) { const ws = Array.from({ length: n }, () => new Worker(id)); for (const w of ws) { const m = await w.ready; if (m.error) die(m.error); } return ws; }

// ---- minimisation: greedy, candidates tried in parallel, same violation class required
async function minimise(id, sc, cls, ws, budgetMs) {
  const t0 = Date.now(); let tries = 0, cur = sc, changed = true;
  const bad = (m) => m.viol?.some((v) => v.cls === cls);
  while (changed && Date.now() - t0 < budgetMs) {
    changed = false;
    const it = shrinks(cur)[Symbol.iterator]();
    for (;;) {
      const batch = []; while (batch.length < ws.length) { const c = it.next(); if (c.done) break; batch.push(c.value); }
      if (!batch.length || Date.now() - t0 > budgetMs) break;
      const rs = await Promise.all(batch.map((c, i) => ws[i].ask({ sc: c, tag: i })));
      tries += batch.length;
      const k = rs.findIndex(bad);
      if (k >= 0) { cur = batch[k]; changed = true; break; }
    }
  }
  return { sc: cur, tries };
}

async function check(id) {
  const prop = PROPS[id], meta = META[id];
  if (!prop || !meta) die("unknown property " + id);
  const conf = meta[TIER];
  await build(dir, meta.programs);
  const buildMs = Date.now() - t00;
  if (prop.native) return native(id, prop, meta, conf, buildMs);
  const ws = await pool(id, WORKERS);
  const agg = { runs: 0, nontrivial: new Set(), sigs: new Set(), fired: {}, probes: {}, simNs: 0, steps: 0, switches: 0, samples: [], known: new Map() };
  const t0 = Date.now(); let next = 0, firstViol = null, error = null, errors = 0;
  const loop = async (w) => {
    while (next < conf.runs && Date.now() - t0 < conf.seconds * 1000 && !firstViol && errors < 5) {
      const i = next++;
      const m = await w.ask({ seed: SEED, i, sample: i < 3 });
      if (m.error) { error ??= m; if (++errors > 4 || w.dead) return; continue; }
      agg.runs++;
      agg.sigs.add(m.sig); if (m.nontrivial) agg.nontrivial.add(m.sig);
      for (const k in m.fired) agg.fired[k] = (agg.fired[k] || 0) + m.fired[k];
      for (const k in m.probes) agg.probes[k] = (agg.probes[k] || 0) + (typeof m.probes[k] === "number" ? m.probes[k] : m.probes[k] ? 1 : 0);
      agg.simNs += m.simNs || 0; agg.steps += m.steps || 0; agg.switches += m.switches || 0;
      if (m.sc && agg.samples.length < 3 && m.nontrivial) agg.samples.push(m.sc);
      for (const k of m.known || []) agg.known.set(k.id, k);
      if (m.viol.length && (!firstViol || m.i < firstViol.i)) firstViol = m;
    }
  };
  await Promise.all(ws.map(loop));
  if (error && !firstViol) { ws.forEach((w) => w.stop()); die(`run ${error.i} of ${id}: ${error.error}`); }
  const wallRun = (Date.now() - t0) / 1000;
  let replay = null;
  if (firstViol) {
    const cls = firstViol.viol[0].cls;
    console.log(`seed ${SEED} run ${firstViol.i}: ${firstViol.viol[0].msg}`);
    const alive = ws.filter((w) => !w.dead);
    const min = alive.length ? await minimise(id, firstViol.sc, cls, alive, conf.minimiseMs ?? 45000) : { sc: firstViol.sc, tries: 0 };
    ws.forEach((w) => w.stop());
    // the minimised scenario must fail the same way in a fresh process
    let sc = min.sc, note = `minimised in ${min.tries} runs`;
    const again = async (s) => { const [w] = await pool(id, 1); const m = await w.ask({ sc: s, hist: true }); w.stop(); return m.viol?.some((v) => v.cls === cls) ? m : null; };
    let m = await again(sc);
    if (!m) { sc = firstViol.sc; note = "not minimised"; m = await again(sc); }
    if (!m) die(`run ${firstViol.i} of ${id} reported "${firstViol.viol[0].msg}" but does not replay`);
    replay = path.join(VERIF, "out", "replays", `${id}-${SEED}-${firstViol.i}.json`);
    fs.mkdirSync(path.dirname(replay), { recursive: true });
    const v = m.viol.find((x) => x.cls === cls);
    fs.writeFileSync(replay, JSON.stringify({ property: id, seed: SEED, run: firstViol.i, violation: v, note, scenario: sc, trace: m.hist }, null, 1));
    console.log(`${v.cls}: ${v.msg}`);
    for (const l of (m.hist || []).slice(-40)) console.log("  " + l);
  }
  ws.forEach((w) => w.stop());
  evidence(id, meta, {
    evaluations: agg.runs, distinct_nontrivial: agg.nontrivial.size, rule: prop.rule, samples: agg.samples,
    distinct_histories: agg.sigs.size, runs_per_hour: Math.round(agg.runs / wallRun * 3600), simulated_seconds: Math.round(agg.simNs / 1e9), simulator_events: agg.steps, context_switches: agg.switches,
    faults_injected: agg.fired, probes: agg.probes, interleaving_measure: "distinct recorded operation histories (who did what to what in which order with which outcome), hashed", real_components: meta.real, stubbed_components: meta.stubs, build_seconds: buildMs / 1000, workers: WORKERS,
  }, firstViol ? 1 : 0);
  for (const k of agg.known.values()) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
  console.log(`${id} ${TIER} seed=${SEED}: ${agg.runs} runs in ${wallRun.toFixed(1)} s (build ${(buildMs / 1000).toFixed(1)} s), ${agg.nontrivial.size} distinct non-trivial, ${Object.values(agg.fired).reduce((a, b) => a + b, 0)} faults; probes ${JSON.stringify(agg.probes)}`);
  if (replay) { console.log(`VIOLATION property=${id} replay=${replay}`); process.exit(1); }
  if (agg.runs < conf.runs * 0.05) die(`only ${agg.runs} runs of ${conf.runs} fitted into ${conf.seconds} s`);
  process.exit(0);
}
async function native(id, prop, meta, conf, buildMs) {
  const r = await prop.native({ dir, seed: SEED, tier: TIER, conf, workers: WORKERS, verif: VERIF });
  if (r.error) die(r.error);
  evidence(id, meta, { ...r.coverage, real_components: meta.real, stubbed_components: meta.stubs, build_seconds: buildMs / 1000, workers: WORKERS }, r.violation ? 1 : 0);
  console.log(r.summary);
  if (r.violation) { console.log(r.violation.msg); console.log(`VIOLATION property=${id} replay=${r.violation.replay}`); process.exit(1); }
  process.exit(0);
}
function evidence(id, meta, coverage, violations) {
  const f = path.join(VERIF, "evidence", `${id}.json`);
  fs.mkdirSync(path.dirname(f), { recursive: true });
  fs.writeFileSync(f, JSON.stringify({ property: id, tier: TIER, seed: SEED, level: meta.level, coverage, assumptions: meta.assumptions, wall_s: (Date.now() - t00) / 1000, violations }, null, 1) + "\n");
}
async function replayFile(file) {
  const r = JSON.parse(fs.readFileSync(file, "utf8"));
  const meta = META[r.property], prop = PROPS[r.property];
  await build(dir, meta.programs);
  if (prop.nativeReplay) { const m = await prop.nativeReplay({ dir, replay: r, verif: VERIF }); console.log(m.text); if (m.error) die(m.error); if (m.viol) { console.log(`VIOLATION property=${r.property} replay=${file}`); process.exit(1); } console.log("not reproduced"); process.exit(0); }
  const [w] = await pool(r.property, 1);
  const m = await w.ask({ sc: r.scenario, hist: true }); w.stop();
  if (m.error) die(m.error);
  for (const l of m.hist || []) console.log("  " + l);
  for (const v of m.viol) console.log(`${v.cls}: ${v.msg}`);
  if (m.viol.length) { console.log(`VIOLATION property=${r.property} replay=${file}`); process.exit(1); }
  console.log("not reproduced"); process.exit(0);
}
// the same seeds, twice, at different worker counts and in different processes: the full
// recorded histories must be identical
async function determinism(id, n) {
  const meta = META[id];
  await build(dir, meta.programs);
  const pass = async (workers, order) => {
    const ws = await pool(id, workers); const out = new Map(); const q = order.slice();
    await Promise.all(ws.map(async (w) => { while (q.length) { const i = q.shift(); const m = await w.ask({ seed: SEED, i, full: true }); if (m.error) die(m.error); out.set(i, m.histHash + m.sig + JSON.stringify([m.fired, m.probes, m.viol])); } }));
    ws.forEach((w) => w.stop());
    return out;
  };
  const seq = Array.from({ length: n }, (_, i) => i);
  const a = await pass(WORKERS, seq), b = await pass(3, seq.slice().reverse());
  const diff = seq.filter((i) => a.get(i) !== b.get(i));
  console.log(`${id}: ${n} seeds twice (${WORKERS} workers forward, 3 workers backward): ${diff.length} differ ${diff.slice(0, 10)}`);
  process.exit(diff.length ? 3 : 0);
}
process.on("unhandledRejection", (e) => die(String(e?.stack || e)));
if (cmd === "check") await check(arg);
else if (cmd === "replay") await replayFile(arg);
else if (cmd === "determinism") await determinism(arg, Number(arg2 || 60));
else if (cmd === "build") { await build(dir, new Set(Object.values(META).flatMap((m) => m.programs))); console.log("build ok"); process.exit(0); } else die("usage: run.mjs check ID | replay FILE | determinism ID [n] | build");

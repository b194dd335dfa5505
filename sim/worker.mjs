// worker.mjs - one simulation worker: executes seeds handed out by the orchestrator.
import readline from "node:readline";
import { createHash } from "node:crypto";
import { makeCtx } from "./ctx.mjs";
import { PROPS } from "./registry.mjs";
import { PRNG } from "./prng.mjs";

const [build, id] = process.argv.slice(2);
const prop = PROPS[id];
const ctx = makeCtx(build);
export function one(seed, i) {
  const r = new PRNG("run", id, seed, i);
  const sc = prop.gen(r, ctx, i);
  const out = prop.check(sc, ctx);
  return { sc, out };
}
const say = (o) => process.stdout.write(JSON.stringify(o) + "\n");
const hash = (s) => createHash("sha1").update(s).digest("hex").slice(0, 16);
say({ ready: true });
let runs = 0;
const rl = readline.createInterface({ input: process.stdin });
rl.on("line", (line) => {
  const m = JSON.parse(line);
  try {
    if (m.seed !== undefined) {
      const { sc, out } = one(m.seed, m.i);
      const rec = { i: m.i, sig: hash((out.key || "") + out.sig), nontrivial: !!out.nontrivial, fired: out.fired, simNs: out.simNs, steps: out.steps, switches: out.switches, probes: out.probes, viol: out.viol, known: out.known };
      if (out.viol.length || out.known?.length || m.sample) { rec.sc = sc; }
      if (m.full) { rec.hist = out.hist(); rec.histHash = hash(JSON.stringify([out.hist(), out.viol])); }
      say(rec);
    } else if (m.sc) {
      const out = prop.check(m.sc, ctx);
      say({ tag: m.tag, viol: out.viol, known: out.known, hist: m.hist ? out.hist() : undefined, probes: out.probes });
    }
  } catch (e) { say({ i: m.i, tag: m.tag, error: String(e.stack || e) }); }
  if (++runs % 40 === 0 && global.gc) global.gc();
});
rl.on("close", () => process.exit(0));

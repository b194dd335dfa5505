// sessions.mjs - the library harness and the web module as simulated processes.
import { World, enc } from "./world.mjs";

export class LibProc { // a long-lived process using the kuneiform packages as a library
  constructor(module, { world, hash = 1, sc = {}, env } = {}) {
    this.w = world || new World({ seed: hash, lat: { kind: "zero" }, ...sc });
    this.answers = new Map(); this.next = 1;
    this.p = this.w.spawn(module, { argv: ["lib"], cwd: "/", hash, env, globals: { kfDone: (id, s) => { this.answers.set(id, JSON.parse(s)); this.w.log({ pid: this.p.pid, ev: "answer", id }); this.onAnswer?.(id); } } });
    this.p.launch();
    this.w.run(1e6);
  }
  get alive() { return this.p.state === "running"; }
  submit(req, bytes = new Uint8Array()) {
    const id = this.next++; this.w.sized = (this.w.sized || 0) + bytes.length;
    this.w.log({ pid: this.p.pid, ev: "submit", id });
    this.p.cpu(() => this.p.go.global.kfSubmit(id, JSON.stringify(req), bytes));
    return id;
  }
  call(req, bytes, maxSteps = 1e5) {
    const id = this.submit(req, bytes);
    this.w.steps = 0; this.w.run(maxSteps); this.w.sized = 0;
    return this.answers.get(id);
  }
  // lets the calls `ids` be answered, then `pace` ns pass (Infinity: whatever is pending happens)
  settle(ids, pace = Infinity, maxSteps = 1e5) {
    this.w.steps = 0;
    if (pace === Infinity) { this.w.run(maxSteps); this.w.sized = 0; return; }
    for (let span = 1e6; span < 1e15 && this.w.q.size && this.w.steps < maxSteps && this.alive && ids.some((id) => !this.answers.has(id)); span *= 10) this.w.run(maxSteps, span);
    if (this.alive) this.w.run(maxSteps, pace);
    if (!ids.some((id) => !this.answers.has(id))) this.w.sized = 0;
  }
  close() { this.w.release(); }
}
export class WebProc { // the module a page loads
  constructor(module, { hash = 1, sc = {}, env, asyncConsole = false } = {}) {
    this.w = new World({ seed: hash, lat: { kind: "zero" }, ...sc });
    this.p = this.w.spawn(module, { argv: ["js"], cwd: "/", hash, env, syncConsole: !asyncConsole });
    this.p.launch();
    this.w.run(1e6);
  }
  get ready() { return typeof this.p.go?.global?.parseKuneiform === "function"; }
  call(...args) {
    let v; this.p.cpu(() => { v = this.p.go.global.parseKuneiform(...args); });
    return v;
  }
  close() { this.w.release(); }
}
export class ThreadsProc { // caller threads in one process, every hand-over decided by the scenario
  // t: {threads, sources, points, bound, warm}
  static run(module, t, { hash = 1, maxKicks = 2000, sc = {} } = {}) {
    const w = new World({ seed: hash, lat: { kind: "zero" }, ...sc });
    let out = null;
    const p = w.spawn(module, { argv: ["threads"], cwd: "/", hash, syncConsole: true, globals: { kfDone: (s) => { out = JSON.parse(s); } } });
    p.launch(); w.run(1e6);
    const b64 = (s) => Buffer.from(s, "utf8").toString("base64");
    const req = JSON.stringify({ threads: t.threads, sources: t.sources.map((s) => typeof s === "string" ? b64(s) : s.b64), points: t.points.flat(), bound: t.bound, warm: t.warm || [] });
    p.cpu(() => p.go.global.kfThreads(req));
    let kicks = 0;
    for (;;) {
      w.run(1e6);
      if (out || p.state !== "running") break;
      let more = false; p.cpu(() => { more = p.go.global.kfKick(); });
      if (out) break;
      if (++kicks > maxKicks || (!more && !w.q.size)) break;
    }
    const r = { out, state: p.state, trap: p.trap, text: p.text(), kicks, fired: w.fired };
    w.release();
    return r;
  }
}

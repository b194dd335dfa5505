// hosts.mjs - the statement oracle (dependency only) run as a plain function.
import { GoProc } from "./gohost.mjs";
import { PRNG } from "./prng.mjs";
import fsn from "node:fs";

export const loadModule = (file) => new WebAssembly.Module(fsn.readFileSync(file));

// A host whose console writes complete at once and in which nothing ever fails.
export function plainHost(p, seed = 1) {
  let t = 0; const r = new PRNG("plain", seed);
  return { nanotime: () => 1e9 + (t += 100), walltime: () => 1.7e18 + t, random: (u8) => r.fill(u8), setTimer: () => 0, clearTimer() {}, writeSync() {}, exit() {}, trapped(why) { p.why = why; } };
}
export class Oracle {
  constructor(file) { this.module = loadModule(file); this.cache = new Map(); this.calls = 0; this.boot(); }
  boot() {
    const G = { fs: { constants: { O_WRONLY: 1, O_RDWR: 2, O_CREAT: 64, O_TRUNC: 512, O_APPEND: 1024, O_EXCL: 128, O_DIRECTORY: 65536 }, write: (fd, b, o, l, p, cb) => cb(null, l), fstat: (fd, cb) => cb({ code: "ENOSYS" }), writeSync: (fd, b) => b.length },
      process: { getuid: () => 1, getgid: () => 1, geteuid: () => 1, getegid: () => 1, getgroups: () => [], pid: 1, ppid: 1, umask: () => 0, cwd: () => "/" }, path: { resolve: (...s) => s.join("/") } };
    const st = {};
    this.p = new GoProc(this.module, { argv: ["oracle"], env: {}, host: plainHost(st), globals: G });
    this.g = G; this.st = st;
    this.p.start();
    this.g = this.p.global;
  }
  judge(text) {
    let a = this.cache.get(text);
    if (!a) {
      const s = this.g.judge(text);
      if (typeof s !== "string") { // the dependency itself died on this text (stack exhaustion)
        this.boot(); a = { ok: false, why: "oracle died: " + this.st.why, died: true };
      } else a = JSON.parse(s);
      a.args ||= []; a.nested ||= []; a.receivers ||= [];
      if (this.cache.size > 50000) this.cache.clear();
      this.cache.set(text, a); this.calls++;
    }
    return a;
  }
}

// world.mjs - one simulated machine: processes, disk, clock, scheduler, faults, history.
//
// A run is a pure function of the scenario object (and of the programs): virtual time
// decides the order of events, every latency is drawn from a generator keyed by
// (scenario seed, process, operation number), every fault is listed in the scenario.
import { GoProc } from "./gohost.mjs";
import { SimFS, FsError, C } from "./simfs.mjs";
import { PRNG } from "./prng.mjs";

export const enc = new TextEncoder();
export const latin = (u8) => Buffer.from(u8.buffer, u8.byteOffset, u8.byteLength).toString("latin1");
export const toBytes = (d) => typeof d === "string" ? enc.encode(d) : d instanceof Uint8Array ? d : Uint8Array.from(Buffer.from(d.b64, "base64"));
export const fromBytes = (u8) => {
  const s = Buffer.from(u8.buffer, u8.byteOffset, u8.byteLength);
  const t = s.toString("utf8");
  return Buffer.compare(Buffer.from(t, "utf8"), s) === 0 ? t : { b64: s.toString("base64") };
};

class Heap { // ordered by (at, seq)
  constructor() { this.a = []; }
  less(x, y) { return x.at < y.at || (x.at === y.at && x.seq < y.seq); }
  push(e) { const a = this.a; a.push(e); let i = a.length - 1; while (i > 0) { const p = (i - 1) >> 1; if (!this.less(a[i], a[p])) break; [a[i], a[p]] = [a[p], a[i]]; i = p; } }
  pop() {
    const a = this.a; const top = a[0]; const last = a.pop();
    if (a.length) { a[0] = last; let i = 0; for (;;) { let m = i; const l = 2 * i + 1, r = l + 1; if (l < a.length && this.less(a[l], a[m])) m = l; if (r < a.length && this.less(a[r], a[m])) m = r; if (m === i) break; [a[i], a[m]] = [a[m], a[i]]; i = m; } }
    return top;
  }
  get size() { return this.a.length; }
}

export class World {
  // sc: { seed, clock:{base(ns), jumps:[{at(ns), by(ns)}]}, lat:{kind,...}, faults:[...] , capacity }
  constructor(sc) {
    this.sc = sc; this.now = 0; this.seq = 0; this.q = new Heap(); this.steps = 0;
    this.fs = new SimFS({ now: () => this.wall() / 1e6, capacity: sc.capacity ?? Infinity });
    this.procs = []; this.hist = []; this.fired = {}; this.onChange = null; this._ver = this.fs.version;
    this.faults = (sc.faults || []).map((f) => ({ ...f, done: false }));
    this.switches = 0; this.lastPid = -1; this.order = [];
  }
  wall() {
    const c = this.sc.clock || {};
    let w = (c.base ?? 1700000000e9) + this.now;
    for (const j of c.jumps || []) if (this.now >= j.at) w += j.by;
    return Math.max(0, w);
  }
  count(k, n = 1) { this.fired[k] = (this.fired[k] || 0) + n; }
  after(dt, fn, tag) { const e = { at: this.now + Math.max(0, dt), seq: this.seq++, fn, tag, off: false }; this.q.push(e); return e; }
  log(rec) { this.hist.push({ n: this.hist.length, t: this.now, ...rec }); }
  changed(why) {
    if (this.fs.version !== this._ver) { this._ver = this.fs.version; if (this.onChange) this.onChange(why); }
  }
  spawn(module, spec) { // spec: {argv, cwd, env, umask, start, after, uid}
    const p = new Proc(this, this.procs.length, module, spec);
    this.procs.push(p);
    return p;
  }
  begin() {
    for (const p of this.procs) if (p.spec.after === undefined) this.after(p.spec.start || 0, () => p.launch());
  }
  ended(p) {
    for (const q of this.procs) if (q.spec.after === p.pid && q.state === "new") this.after(q.spec.start || 0, () => q.launch());
  }
  // runs until nothing is left to do; false when the step bound was hit
  run(maxSteps = 20000, span = Infinity) { // span: how much virtual time may pass
    const until = this.now + span; maxSteps += 40 * (this.sized || 0); // tracing prints some lines per token
    while (this.q.size) {
      if (this.q.a[0].at > until) { if (this.q.a[0].off) { this.q.pop(); continue; } this.now = until; return true; }
      const e = this.q.pop();
      if (e.off) continue;
      if (++this.steps > maxSteps) return false;
      this.now = Math.max(this.now, e.at);
      e.fn();
      this.changed("event");
    }
    if (span !== Infinity) this.now = Math.max(this.now, until);
    return true;
  }
  release() { for (const p of this.procs) p.go?.release(); }
  // environment actions, performed by actors other than the processes under test
  act(a) {
    const fs = this.fs;
    this.count("env:" + a.a);
    switch (a.a) {
      case "put": { // an editor saves: in place (same inode) or by replacing the file
        const node = fs.peekNode(a.path);
        if (node && node.type === "file" && !a.replace) { fs.grow(toBytes(a.data).length - node.data.length); node.data = toBytes(a.data).slice(); fs.touch(node); }
        else fs.put(a.path, toBytes(a.data), a.mode ?? 0o644);
        if (new PRNG(this.sc.seed, "keepstamp", a.path, this.steps).chance(0.4)) this.stamp(a.path, this.steps);
        break;
      }
      case "rm": { const parts = fs.split(a.path), name = parts.pop(); const d = fs.peekNode("/" + parts.join("/")); if (d?.entries) { d.entries.delete(name); fs.touch(d); } break; }
      case "mkdir": fs.mkdirp(a.path); break;
      case "chmod": { const n = fs.peekNode(a.path); if (n) { n.mode = a.mode; fs.touch(n); } break; }
      case "symlink": { const parts = fs.split(a.path), name = parts.pop(); const d = fs.mkdirp(parts.join("/")); d.entries.delete(name); fs.can = () => true; try { fs.symlink({ cwd: "/", umask: 0 }, a.target, a.path); } finally { delete fs.can; } break; }
      case "capacity": fs.capacity = a.value === null ? Infinity : a.relative ? fs.used + a.value : a.value; break;
      case "readonly": fs.readonly = a.value; break;
      case "power": { // the machine goes down: every process dies, what was not on the disk may be gone
        for (const p of this.procs) if (p.state === "running") { this.count("crash"); p.end("killed", null); }
        const lost = fs.powerLoss(new PRNG(this.sc.seed, "power", a.cut ?? this.steps));
        this.count("power failure"); if (lost.entries) this.count("power failure: directory changes lost"); if (lost.files) this.count("power failure: file data lost");
        this.downs = [...(this.downs || []), this.hist.length];
        break;
      }
      default: throw new Error("unknown environment action " + a.a);
    }
    this.log({ env: a.a, path: a.path });
    this.changed("env:" + a.a);
  }
  stamp(path, why) {
    const n = this.fs.peekNode(path), r = new PRNG(this.sc.seed, "mtime", path, why);
    if (n) n.mtime = Math.max(0, Math.floor(this.wall() / 1e6) + r.pick([0, 0, -1000, -3600e3, -86400e3 * 30, -r.int(1e6), r.int(1e6), 86400e3]));
  }
  setup(list) {
    this.fs.mkdirp("/tmp").mode = 0o1777; // as everywhere
    for (const f of list) {
      if (f.dir) { const n = this.fs.mkdirp(f.path); if (f.mode !== undefined) n.mode = f.mode; }
      else if (f.symlink !== undefined) this.act({ a: "symlink", path: f.path, target: f.symlink });
      else if (f.link !== undefined) { this.fs.can = () => true; try { this.fs.link({ cwd: "/", umask: 0 }, f.link, f.path); } finally { delete this.fs.can; } }
      else this.fs.put(f.path, toBytes(f.data), f.mode ?? 0o644);
    }
    // permission bits last, so that setup itself is not refused
    for (const f of list) if (f.dir && f.mode !== undefined) this.fs.peekNode(f.path).mode = f.mode;
    // time stamps: files were copied, checked out or restored from anywhere, so they say nothing about content
    for (const f of list) this.stamp(f.path, "setup");
    this.hist = []; this.fired = {}; this._ver = this.fs.version;
  }
}

export function mkerr(code, what) { const e = new Error(`${code}: simulated ${what || ""}`); e.code = code; return e; }

export class Proc {
  constructor(world, pid, module, spec) {
    Object.assign(this, { world, pid, module, spec });
    this.state = "new"; this.code = null; this.out = []; this.ops = 0; this.opCount = {}; this.trace = [];
    this.ctx = { cwd: spec.cwd || "/", umask: spec.umask ?? 0o022 };
    this.fds = new Map([[0, { std: 0 }], [1, { std: 1 }], [2, { std: 2 }]]);
    this.hash = new PRNG(spec.hash ?? world.sc.seed, "hash", pid);
    this.tick = 0; this.opened = []; this.startedAt = null; this.endedAt = null; this.inflight = 0;
    this.stdio = { 1: "", 2: "" };
  }
  text(fd) { return fd === undefined ? this.stdio[1] + this.stdio[2] : this.stdio[fd]; }
  launch() {
    const w = this.world;
    this.state = "running"; this.startedAt = w.now;
    w.log({ pid: this.pid, ev: "start", argv: this.spec.argv });
    const fault = w.faults.find((f) => !f.done && f.pid === this.pid && f.at === "launch");
    if (fault) { fault.done = true; w.count("delay"); w.after(fault.delay, () => this._start()); return; }
    this._start();
  }
  _start() {
    if (this.state !== "running") return;
    const w = this.world;
    const host = {
      nanotime: () => w.now + 1e9 + (this.tick += 100),
      walltime: () => w.wall(),
      random: (u8) => this.hash.fill(u8),
      setTimer: (cb, ms) => { w.count("timer"); return w.after(ms * 1e6, () => { if (this.state === "running") this.cpu(cb); }, "timer"); },
      clearTimer: (e) => { e.off = true; },
      writeSync: (fd, bytes) => { this.stdio[fd === 1 ? 1 : 2] += latin(bytes); },
      exit: (code) => this.end("exited", code),
      trapped: (why) => { this.trap = why; this.end("trapped", 2); },
    };
    this.go = new GoProc(this.module, { argv: this.spec.argv, env: { HOME: "/root", PATH: "/bin", PWD: this.ctx.cwd, ...(this.spec.env || {}) }, host, globals: this.globals() });
    this.cpu(() => this.go.start());
  }
  cpu(f) { // the process computes; in simulated time this is instantaneous
    const w = this.world;
    if (w.lastPid !== this.pid) { w.switches++; w.lastPid = this.pid; }
    f();
    w.changed("cpu");
  }
  end(state, code) {
    if (this.state !== "running") return;
    const w = this.world;
    this.state = state; this.code = code; this.endedAt = w.now;
    w.log({ pid: this.pid, ev: state, code });
    for (const [, f] of this.fds) f.closed = true;
    this.fds.clear();
    if (state === "killed") this.go?.kill(); else w.after(0, () => this.go?.release());
    w.ended(this);
  }
  kill() { if (this.state === "running") { this.world.count("crash"); this.end("killed", null); } }
  latency(kind) {
    const l = this.world.sc.lat || {};
    const r = new PRNG(this.world.sc.seed, "lat", this.pid, this.ops, kind);
    switch (l.kind) {
      case "zero": return 0;
      case "heavy": return r.chance(l.p ?? 0.15) ? r.range(1e6, l.max ?? 60e9) : r.range(1e3, 1e5); // now and then a stall of up to minutes
      case "tied": return r.int(3) * 1000;
      default: return r.range(l.min ?? 1000, l.max ?? 200000);
    }
  }
  globals() {
    const p = this;
    const fs = { constants: C };
    // name -> [number of arguments before the callback, implementation]
    const S = p.world.fs;
    const fd = (n) => { const f = p.fds.get(n); if (!f) throw new FsError("EBADF", "fd " + n); return f; };
    const ops = {
      open: (path, flags, mode) => { const f = S.open(p.ctx, path, flags, mode); let n = 3; while (p.fds.has(n)) n++; p.fds.set(n, f); p.opened.push(f); return n; },
      close: (n) => { fd(n); p.fds.delete(n); },
      mkdir: (path, mode) => S.mkdir(p.ctx, path, mode),
      readdir: (path) => S.readdir(p.ctx, path),
      stat: (path) => S.stat(p.ctx, path), lstat: (path) => S.lstat(p.ctx, path), fstat: (n) => { const f = fd(n); const st = S.fstat(f); const lie = p.world.sc.lie; if (lie && f.node && f.node === S.peekNode(lie.path)) { st.size = lie.size; p.world.count("lie"); } return st; },
      unlink: (path) => S.unlink(p.ctx, path), rmdir: (path) => S.rmdir(p.ctx, path),
      chmod: (path, m) => S.chmod(p.ctx, path, m), fchmod: (n, m) => S.chmodNode(fd(n).node, m),
      chown: () => {}, fchown: () => {}, lchown: () => {},
      utimes: (path, a, m) => S.utimes(p.ctx, path, a, m),
      rename: (a, b) => S.rename(p.ctx, a, b), truncate: (path, n) => S.truncate(p.ctx, path, n), ftruncate: (n, l) => S.ftruncate(fd(n), l),
      readlink: (path) => S.readlink(p.ctx, path), link: (a, b) => S.link(p.ctx, a, b), symlink: (a, b) => S.symlink(p.ctx, a, b),
      fsync: (n) => { S.fsync(fd(n), !p.world.sc.lazyJournal); },
      read: (n, buf, off, len, pos) => { const f = fd(n); if (f.std !== undefined) return 0; const d = S.read(f, len, pos); buf.set(d, off);
        f.got ||= []; for (const b of d) f.got.push(b); if (d.length === 0 && len > 0) f.eof = true; return d.length; },
      write: (n, buf, off, len, pos) => {
        const f = fd(n); const b = buf.subarray(off, off + len);
        if (f.std !== undefined) { p.stdio[f.std === 1 ? 1 : 2] += latin(b); return len; }
        return S.write(f, b, pos);
      },
    };
    for (const name of Object.keys(ops)) fs[name] = (...args) => p.syscall(name, ops[name], args);
    fs.writeSync = (n, buf) => { p.stdio[n === 1 ? 1 : 2] += latin(buf); return buf.length; };
    const uid = S.uid;
    const process = {
      getuid: () => uid, getgid: () => uid, geteuid: () => uid, getegid: () => uid, getgroups: () => [], pid: p.spec.ospid ?? 1000 + p.pid, ppid: 1,
      umask: (m) => { const o = p.ctx.umask; if (m !== undefined) p.ctx.umask = m; return o; },
      cwd: () => p.ctx.cwd, chdir: (d) => { const n = S.lookup(p.ctx.cwd, d); if (n.type !== "dir") throw mkerr("ENOTDIR"); p.ctx.cwd = S.abs(p.ctx.cwd, d); },
    };
    const path = { resolve: (...s) => s.join("/") };
    return { fs, process, path, console: { log() {}, error() {}, warn() {} }, ...(p.spec.globals || {}) };
  }
  describe(name, args) {
    const a = args[0];
    if (name === "open") return `${this.world.fs.abs(this.ctx.cwd, a)}:${(args[1] & 3) ? "w" : "r"}`;
    if (typeof a === "number") { const f = this.fds.get(a); return f ? (f.std !== undefined ? `fd${a}` : f.path) : `fd${a}?`; }
    if (typeof a === "string") return this.world.fs.abs(this.ctx.cwd, a) + (typeof args[1] === "string" ? ">" + args[1] : "");
    return "";
  }
  syscall(name, impl, args) {
    const w = this.world;
    const cb = args.pop();
    const idx = this.ops++;
    const std = (name === "write" || name === "read") && this.fds.get(args[0])?.std !== undefined;
    const cls = std ? "std" + name : name;
    const nth = (this.opCount[cls] = (this.opCount[cls] || 0) + 1) - 1;
    const what = this.describe(name, args);
    const rec = { pid: this.pid, op: cls, nth, what };
    this.trace.push(rec);
    const mine = w.faults.filter((f) => !f.done && f.pid === this.pid && (f.at === "op") && f.op === cls && f.nth === nth);
    let fault = null, pre = 0, post = 0, killBefore = false, killAfter = false, killMid = null;
    for (const f of mine) {
      f.done = true;
      if (f.kind === "delay") { pre += f.delay; w.count("delay"); }
      else if (f.kind === "delayret") { post += f.delay; w.count("delayret"); }
      else if (f.kind === "kill") { if (f.when === "before") killBefore = true; else if (f.when === "after") killAfter = true; else killMid = f; }
      else if (f.kind === "env") { f._env = true; }
      else fault = f;
    }
    const envs = mine.filter((f) => f._env);
    // a file that is delivered a few bytes at a time, to the end
    if (name === "read" && !fault && w.sc.drip && this.fds.get(args[0])?.node && this.fds.get(args[0]).node === w.fs.peekNode(w.sc.drip.path)) fault = w.sc.drip.eintr && nth % w.sc.drip.eintr === 1 ? { kind: "errno", code: "EINTR" } : { kind: "short", n: w.sc.drip.n };
    if (std && w.sc.stdfail && !fault) fault = { kind: "errno", code: w.sc.stdfail };
    if (std && this.spec.syncConsole) { // browser: the console write completes before the call returns
      let errc = null, res;
      for (const e of envs) w.act(e.act);
      if (this.state !== "running") return;
      if (fault?.kind === "errno") { errc = fault.code; w.count(`${cls}:${fault.code}`); } else res = impl(...args);
      rec.err = errc; w.log({ ...rec, ev: "op" });
      this.consoleWrites = (this.consoleWrites || 0) + 1;
      if (errc) cb(mkerr(errc, name)); else cb(null, res);
      return;
    }
    this.inflight++;
    w.after(pre + this.latency("in"), () => {
      if (this.state !== "running") return;
      for (const e of envs) if (e.when === "before" || (e.when !== "after" && e.when !== "mid")) w.act(e.act);
      if (this.state !== "running") return;
      const mid = envs.find((e) => e.when === "mid");
      if (mid) { if (name === "write") { const n = Math.floor(args[3] * (mid.frac ?? 0.5)); if (n > 0) { const a = args.slice(); a[3] = n; try { impl(...a); } catch (e) { if (!(e instanceof FsError)) throw e; } } } w.act(mid.act); if (this.state !== "running") return; }
      if (killBefore) { w.log({ ...rec, ev: "kill-before" }); this.kill(); return; }
      let res, errc = null, extra = 0;
      const attempt = (a) => { try { return impl(...a); } catch (e) { if (e instanceof FsError) { errc = e.code; return undefined; } throw e; } };
      const partial = (n) => { // the first n bytes of a write reach the file
        const a = args.slice(); a[3] = n;
        return attempt(a);
      };
      if (killMid && name === "write") {
        const n = Math.min(args[3], Math.max(0, Math.floor(args[3] * (killMid.frac ?? 0.5))));
        if (n > 0) partial(n);
        w.count("torn write at crash"); w.log({ ...rec, ev: "kill-mid", n }); w.changed("torn"); this.kill(); return;
      }
      if (fault && fault.kind === "errno") { errc = fault.code; w.count(`${cls}:${fault.code}`); }
      else if (fault && fault.kind === "short") {
        const want = args[3];
        const n = Math.max(1, Math.min(want, fault.n !== undefined ? fault.n : Math.floor(want * fault.frac)));
        res = partial(n); w.count(cls + ":short");
      } else if (fault && fault.kind === "torn") { // part of the write lands, then the device fails
        const n = Math.min(args[3], Math.floor(args[3] * (fault.frac ?? 0.5)));
        if (n > 0) partial(n);
        errc = fault.code; w.count(cls + ":torn+" + fault.code);
      } else if (fault && fault.kind === "slow") { // a write that becomes visible in two steps
        const n = Math.min(args[3] - 1, Math.max(0, Math.floor(args[3] * (fault.frac ?? 0.5))));
        if (n > 0 && fault.delay && !std) {
          partial(n); w.count(cls + ":split"); w.changed("split"); w.log({ ...rec, ev: "split", n });
          const rest = args.slice(); rest[2] = args[2] + n; rest[3] = args[3] - n; if (rest[4] !== null) rest[4] = args[4] + n;
          w.after(fault.delay, () => {
            if (this.state !== "running") return;
            const m = errc ? 0 : attempt(rest);
            const total = n + (m || 0); w.changed(cls);
            finish(errc && total ? null : errc, total);
          });
          return;
        }
        res = attempt(args);
      } else if (fault && fault.kind === "lateerr") { // the operation happened, its report is an error (close, fsync, rename on network disks)
        attempt(args); errc = fault.code; w.count(`${cls}:late ${fault.code}`);
      } else res = attempt(args);
      w.changed(cls);
      finish(errc, res);
    });
    const finish = (errc, res) => {
      const w = this.world;
      for (const e of envs) if (e.when === "after") w.act(e.act);
      if (this.state !== "running") return;
      rec.err = errc; if (typeof res === "number") rec.res = res;
      w.log({ ...rec, ev: "op" });
      if (killAfter) { w.log({ ...rec, ev: "kill-after" }); this.kill(); return; }
      w.after(post + this.latency("out"), () => {
        this.inflight--;
        if (this.state !== "running") return;
        this.cpu(() => errc ? cb(mkerr(errc, `${name} ${what}`)) : cb(null, ...(res === undefined ? [] : [res])));
      });
    };
  }
}

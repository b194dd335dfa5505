// gohost.mjs - the simulator's replacement for a JavaScript host of Go programs.
//
// Runs a Go program compiled for GOOS=js GOARCH=wasm.  Everything a Go process can
// observe of the outside world (file system, clocks, timers, random bytes, pid,
// cwd, environment) is an import of the wasm module or a property of its global
// object, so a GoProc sees exactly what `host` (see world.mjs) decides to show it.
// Nothing in here reads a real clock, real randomness or a real file.
const encoder = new TextEncoder();
const decoder = new TextDecoder("utf-8");

export class GoTrap extends Error {}

export class GoProc {
  // host: { nanotime(): number(ns), walltime(): number(ns), random(Uint8Array),
  //         setTimer(cb, delayMs): id, clearTimer(id), writeSync(fd, bytes), exit(code) }
  constructor(module, { argv, env, host, globals }) {
    this.module = module;
    this.argv = argv;
    this.env = env || {};
    this.host = host;
    this.exited = false;
    this.trap = null;
    this.running = false;
    this.global = Object.assign({
      Object, Array, Uint8Array, Uint8ClampedArray, Error, TypeError, Function, String, Number, Boolean, Symbol, Promise,
    }, globals);
    this.global.globalThis = this.global;
    this._pendingEvent = null;
    this._timers = new Map();
    this._nextTimer = 1;
    this.inst = new WebAssembly.Instance(module, this._imports());
  }

  start() {
    this.mem = new DataView(this.inst.exports.mem.buffer);
    this._values = [NaN, 0, null, true, false, this.global, this];
    this._goRefCounts = new Array(this._values.length).fill(Infinity);
    this._ids = new Map([[0, 1], [null, 2], [true, 3], [false, 4], [this.global, 5], [this, 6]]);
    this._idPool = [];
    let offset = 4096;
    const strPtr = (str) => {
      const ptr = offset;
      const bytes = encoder.encode(str + "\0");
      new Uint8Array(this.mem.buffer, offset, bytes.length).set(bytes);
      offset += bytes.length;
      if (offset % 8 !== 0) offset += 8 - (offset % 8);
      return ptr;
    };
    const ptrs = [];
    for (const a of this.argv) ptrs.push(strPtr(a));
    ptrs.push(0);
    for (const k of Object.keys(this.env).sort()) ptrs.push(strPtr(`${k}=${this.env[k]}`));
    ptrs.push(0);
    const argv = offset;
    for (const p of ptrs) {
      this.mem.setUint32(offset, p, true);
      this.mem.setUint32(offset + 4, 0, true);
      offset += 8;
    }
    if (offset >= 4096 + 8192) throw new Error("argv and environment too long");
    this._enter(() => this.inst.exports.run(this.argv.length, argv));
  }

  _enter(f) {
    if (this.exited || this.dead) return;
    const was = this.running;
    this.running = true;
    try { f(); } catch (e) {
      // A wasm trap (unreachable, stack exhaustion) is the death of the process.
      if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) {
        this.dead = true; this.trap = String(e.message);
        this.host.trapped(this.trap);
      } else throw e;
    } finally { this.running = was; }
  }

  _resume() {
    if (this.exited || this.dead) return;
    this._enter(() => this.inst.exports.resume());
  }

  // kill: the process vanishes between two instructions; nothing of it runs again.
  kill() { this.dead = true; this.release(); }
  release() {
    this.inst = null; this._values = null; this._ids = null; this._goRefCounts = null; this.mem = null;
  }

  _makeFuncWrapper(id) {
    const go = this;
    return function () {
      const event = { id, this: this, args: arguments };
      go._pendingEvent = event;
      go._resume();
      return event.result;
    };
  }

  _imports() {
    const go = this;
    const host = this.host;
    const setInt64 = (addr, v) => {
      go.mem.setUint32(addr, v, true);
      go.mem.setUint32(addr + 4, Math.floor(v / 4294967296), true);
    };
    const getInt64 = (addr) => go.mem.getUint32(addr, true) + go.mem.getInt32(addr + 4, true) * 4294967296;
    const loadValue = (addr) => {
      const f = go.mem.getFloat64(addr, true);
      if (f === 0) return undefined;
      if (!isNaN(f)) return f;
      return go._values[go.mem.getUint32(addr, true)];
    };
    const storeValue = (addr, v) => {
      const nanHead = 0x7FF80000;
      if (typeof v === "number" && v !== 0) {
        if (isNaN(v)) {
          go.mem.setUint32(addr + 4, nanHead, true);
          go.mem.setUint32(addr, 0, true);
          return;
        }
        go.mem.setFloat64(addr, v, true);
        return;
      }
      if (v === undefined) { go.mem.setFloat64(addr, 0, true); return; }
      let id = go._ids.get(v);
      if (id === undefined) {
        id = go._idPool.pop();
        if (id === undefined) id = go._values.length;
        go._values[id] = v;
        go._goRefCounts[id] = 0;
        go._ids.set(v, id);
      }
      go._goRefCounts[id]++;
      let flag = 0;
      switch (typeof v) {
        case "object": if (v !== null) flag = 1; break;
        case "string": flag = 2; break;
        case "symbol": flag = 3; break;
        case "function": flag = 4; break;
      }
      go.mem.setUint32(addr + 4, nanHead | flag, true);
      go.mem.setUint32(addr, id, true);
    };
    const loadSlice = (addr) => new Uint8Array(go.inst.exports.mem.buffer, getInt64(addr), getInt64(addr + 8));
    const loadSliceOfValues = (addr) => {
      const array = getInt64(addr), len = getInt64(addr + 8);
      const a = new Array(len);
      for (let i = 0; i < len; i++) a[i] = loadValue(array + i * 8);
      return a;
    };
    const loadString = (addr) => decoder.decode(new DataView(go.inst.exports.mem.buffer, getInt64(addr), getInt64(addr + 8)));
    const getsp = () => go.inst.exports.getsp() >>> 0;
    // calls into JS objects may not kill the process half way through a call
    const guarded = (sp, okOff, f) => {
      let v, ok = 1;
      try { v = f(); } catch (err) {
        if (err instanceof GoTrap || err instanceof WebAssembly.RuntimeError) throw err;
        v = err; ok = 0;
      }
      sp = getsp();
      storeValue(sp + okOff - 8, v);
      go.mem.setUint8(sp + okOff, ok);
    };
    return {
      _gotest: { add: (a, b) => a + b, callExport: () => { throw new Error("unused"); } },
      gojs: {
        "runtime.wasmExit": (sp) => {
          sp >>>= 0;
          const code = go.mem.getInt32(sp + 8, true);
          go.exited = true;
          host.exit(code);
        },
        "runtime.wasmWrite": (sp) => {
          sp >>>= 0;
          const fd = getInt64(sp + 8), p = getInt64(sp + 16), n = go.mem.getInt32(sp + 24, true);
          host.writeSync(fd, new Uint8Array(go.inst.exports.mem.buffer, p, n).slice());
        },
        "runtime.resetMemoryDataView": () => { go.mem = new DataView(go.inst.exports.mem.buffer); },
        "runtime.nanotime1": (sp) => { sp >>>= 0; setInt64(sp + 8, host.nanotime()); },
        "runtime.walltime": (sp) => {
          sp >>>= 0;
          const ns = host.walltime();
          const sec = Math.floor(ns / 1e9);
          setInt64(sp + 8, sec);
          go.mem.setInt32(sp + 16, Math.floor(ns - sec * 1e9), true);
        },
        "runtime.scheduleTimeoutEvent": (sp) => {
          sp >>>= 0;
          const id = go._nextTimer++;
          go._timers.set(id, host.setTimer(() => {
            let guard = 0;
            go._resume();
            while (!go.dead && !go.exited && go._timers.has(id) && guard++ < 8) go._resume();
          }, getInt64(sp + 8)));
          go.mem.setInt32(sp + 16, id, true);
        },
        "runtime.clearTimeoutEvent": (sp) => {
          sp >>>= 0;
          const id = go.mem.getInt32(sp + 8, true);
          if (go._timers.has(id)) host.clearTimer(go._timers.get(id));
          go._timers.delete(id);
        },
        "runtime.getRandomData": (sp) => { sp >>>= 0; host.random(loadSlice(sp + 8)); },
        "syscall/js.finalizeRef": (sp) => {
          sp >>>= 0;
          const id = go.mem.getUint32(sp + 8, true);
          if (--go._goRefCounts[id] === 0) {
            const v = go._values[id];
            go._values[id] = null;
            go._ids.delete(v);
            go._idPool.push(id);
          }
        },
        "syscall/js.stringVal": (sp) => { sp >>>= 0; storeValue(sp + 24, loadString(sp + 8)); },
        "syscall/js.valueGet": (sp) => {
          sp >>>= 0;
          const r = Reflect.get(loadValue(sp + 8), loadString(sp + 16));
          storeValue(getsp() + 32, r);
        },
        "syscall/js.valueSet": (sp) => { sp >>>= 0; Reflect.set(loadValue(sp + 8), loadString(sp + 16), loadValue(sp + 32)); },
        "syscall/js.valueDelete": (sp) => { sp >>>= 0; Reflect.deleteProperty(loadValue(sp + 8), loadString(sp + 16)); },
        "syscall/js.valueIndex": (sp) => { sp >>>= 0; storeValue(sp + 24, Reflect.get(loadValue(sp + 8), getInt64(sp + 16))); },
        "syscall/js.valueSetIndex": (sp) => { sp >>>= 0; Reflect.set(loadValue(sp + 8), getInt64(sp + 16), loadValue(sp + 24)); },
        "syscall/js.valueCall": (sp) => {
          sp >>>= 0;
          guarded(sp, 64, () => {
            const v = loadValue(sp + 8);
            const m = Reflect.get(v, loadString(sp + 16));
            return Reflect.apply(m, v, loadSliceOfValues(sp + 32));
          });
        },
        "syscall/js.valueInvoke": (sp) => {
          sp >>>= 0;
          guarded(sp, 48, () => Reflect.apply(loadValue(sp + 8), undefined, loadSliceOfValues(sp + 16)));
        },
        "syscall/js.valueNew": (sp) => {
          sp >>>= 0;
          guarded(sp, 48, () => Reflect.construct(loadValue(sp + 8), loadSliceOfValues(sp + 16)));
        },
        "syscall/js.valueLength": (sp) => { sp >>>= 0; setInt64(sp + 16, parseInt(loadValue(sp + 8).length)); },
        "syscall/js.valuePrepareString": (sp) => {
          sp >>>= 0;
          const str = encoder.encode(String(loadValue(sp + 8)));
          storeValue(sp + 16, str);
          setInt64(sp + 24, str.length);
        },
        "syscall/js.valueLoadString": (sp) => { sp >>>= 0; const str = loadValue(sp + 8); loadSlice(sp + 16).set(str); },
        "syscall/js.valueInstanceOf": (sp) => { sp >>>= 0; go.mem.setUint8(sp + 24, (loadValue(sp + 8) instanceof loadValue(sp + 16)) ? 1 : 0); },
        "syscall/js.copyBytesToGo": (sp) => {
          sp >>>= 0;
          const dst = loadSlice(sp + 8), src = loadValue(sp + 32);
          if (!(src instanceof Uint8Array || src instanceof Uint8ClampedArray)) { go.mem.setUint8(sp + 48, 0); return; }
          const c = src.subarray(0, dst.length);
          dst.set(c);
          setInt64(sp + 40, c.length);
          go.mem.setUint8(sp + 48, 1);
        },
        "syscall/js.copyBytesToJS": (sp) => {
          sp >>>= 0;
          const dst = loadValue(sp + 8), src = loadSlice(sp + 16);
          if (!(dst instanceof Uint8Array || dst instanceof Uint8ClampedArray)) { go.mem.setUint8(sp + 48, 0); return; }
          const c = src.subarray(0, dst.length);
          dst.set(c);
          setInt64(sp + 40, c.length);
          go.mem.setUint8(sp + 48, 1);
        },
        debug: () => {},
      },
    };
  }
}

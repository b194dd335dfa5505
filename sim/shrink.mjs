// shrink.mjs - smaller scenarios to try, most drastic first.
const clone = (o) => structuredClone(o);
export function* texts(s) { // pieces removed from a source: halves, quarters, ... then lines, then tokens
  if (typeof s !== "string") return;
  const tok = s.match(/\s+|[A-Za-z0-9_]+|[^\sA-Za-z0-9_]/g) || [];
  for (let len = Math.floor(tok.length / 2); len >= 1; len = Math.floor(len / 2)) {
    const step = Math.max(1, len);
    for (let i = 0; i + len <= tok.length; i += step) yield tok.slice(0, i).concat(tok.slice(i + len)).join("");
    if (tok.length > 400 && len < 8) break;
  }
}
export function* shrinks(sc) {
  if (sc.kind === "cli") {
    for (let i = sc.procs.length - 1; i >= 0 && sc.procs.length > 1; i--) {
      if (sc.procs[i].final) continue;
      const c = clone(sc); const gone = c.procs.splice(i, 1)[0];
      c.faults = c.faults.filter((f) => f.pid !== i).map((f) => ({ ...f, pid: f.pid > i ? f.pid - 1 : f.pid }));
      for (const p of c.procs) if (p.after !== undefined) { if (p.after === i) p.after = gone.after; else if (p.after > i) p.after--; }
      yield c;
    }
    if (sc.faults?.length > 1) for (let i = 0; i < sc.faults.length; i++) { const c = clone(sc); c.faults = [c.faults[i]]; yield c; }
    for (let i = 0; i < (sc.faults || []).length; i++) { const c = clone(sc); c.faults.splice(i, 1); yield c; }
    for (const k of ["env", "capacity", "readonly", "stdfail", "drip", "lie"]) if (sc[k] !== undefined && (k !== "env" || sc.env.length)) { const c = clone(sc); delete c[k]; yield c; }
    if (sc.lat?.kind !== "zero") { const c = clone(sc); c.lat = { kind: "zero" }; yield c; }
    if (sc.clock && Object.keys(sc.clock).length) { const c = clone(sc); c.clock = {}; yield c; }
    for (let i = 1; i < (sc.fs || []).length; i++) { const c = clone(sc); c.fs.splice(i, 1); yield c; }
    for (let i = 0; i < (sc.fs || []).length; i++) if (typeof sc.fs[i].data === "string") for (const t of texts(sc.fs[i].data)) { const c = clone(sc); c.fs[i].data = t; yield c; }
    return;
  }
  if (sc.kind === "worlds") {
    for (let i = 0; i < sc.worlds.length && sc.worlds.length > 1; i++) { const c = clone(sc); c.worlds.splice(i, 1); yield c; }
    if (sc.others) { const c = clone(sc); c.others = false; yield c; }
    for (let i = 0; i < sc.worlds.length; i++) for (const [k, v] of [["lat", { kind: "zero" }], ["clock", {}], ["env", {}], ["umask", 18], ["cwd", "/w"], ["rel", false], ["old", null], ["pids", 0], ["hash", 1], ["trace", false]]) if (JSON.stringify(sc.worlds[i][k]) !== JSON.stringify(v)) { const c = clone(sc); c.worlds[i][k] = v; yield c; }
    for (const t of texts(sc.text)) { const c = clone(sc); c.text = t; yield c; }
    return;
  }
  if (sc.kind === "session") { // a list of steps over a pool of sources
    for (let len = sc.steps.length >> 1; len >= 1; len >>= 1) for (let i = 0; i + len <= sc.steps.length; i += len) { const c = clone(sc); c.steps.splice(i, len); yield c; }
    for (const k of ["faults", "clock", "env"]) if (sc[k] && (Array.isArray(sc[k]) ? sc[k].length : Object.keys(sc[k]).length)) { const c = clone(sc); c[k] = Array.isArray(sc[k]) ? [] : {}; yield c; }
    if (sc.lat && sc.lat.kind !== "zero") { const c = clone(sc); c.lat = { kind: "zero" }; yield c; }
    for (let i = 0; i < (sc.sources || []).length; i++) for (const t of texts(sc.sources[i])) { const c = clone(sc); c.sources[i] = t; yield c; }
    return;
  }
  if (sc.kind === "threads") {
    for (let i = 0; i < sc.threads.length && sc.threads.length > 1; i++) { const c = clone(sc); c.threads.splice(i, 1); yield c; }
    for (let i = 0; i < sc.threads.length; i++) for (let j = 0; j < sc.threads[i].length && sc.threads[i].length > 1; j++) { const c = clone(sc); c.threads[i].splice(j, 1); yield c; }
    if (sc.points?.length) { const n = sc.points.length; for (let len = n; len >= 1; len >>= 1) for (let i = 0; i + len <= n; i += len) { const c = clone(sc); c.points.splice(i, len); yield c; } }
    if (sc.warm?.length) { const c = clone(sc); c.warm = []; yield c; }
    for (let i = 0; i < sc.threads.length; i++) for (let j = 0; j < sc.threads[i].length; j++) for (const k of ["trace", "listener", "keep"]) if (sc.threads[i][j][k]) { const c = clone(sc); c.threads[i][j][k] = k === "trace" ? false : ""; yield c; }
    for (let i = 0; i < (sc.sources || []).length; i++) for (const t of texts(sc.sources[i])) { const c = clone(sc); c.sources[i] = t; yield c; }
  }
}

// docprops.mjs - properties decided on a process that loads published documents.
import { Gen } from "../gen.mjs";
import { toBytes, fromBytes, enc } from "../world.mjs";
import { LibProc } from "../sessions.mjs";
import { sha, short, expected } from "./libprops.mjs";
import { integrity, callsOf } from "./cliprops.mjs";

// What is wrong with the references and declarations of a loaded schema.
// {bad: reason}: must be refused; {good: true}: must be accepted; {}: not judged.
export function consistency(s, oracle) {
  const list = (x) => Array.isArray(x) ? x : [];
  const dup = (l) => l.find((x, i) => l.indexOf(x) !== i);
  let unsure = false, bad = null;
  const fail = (w) => { bad ??= w; };
  const exts = list(s.extensions).map((x) => x.alias || x.name), tables = list(s.tables), actions = list(s.actions);
  let d;
  if ((d = dup(exts)) !== undefined) fail(`two extensions called ${d}`);
  if ((d = dup(tables.map((t) => t.name))) !== undefined) fail(`two tables called ${d}`);
  if ((d = dup(actions.map((t) => t.name))) !== undefined) fail(`two actions called ${d}`);
  const cols = new Map(); for (const t of tables) if (!cols.has(t.name)) cols.set(t.name, new Set(list(t.columns).map((c) => c.name)));
  for (const t of tables) {
    const own = new Set(list(t.columns).map((c) => c.name));
    if ((d = dup([...list(t.columns).map((c) => c.name), ...list(t.indexes).map((x) => x.name)])) !== undefined) fail(`two columns or indexes of ${t.name} called ${d}`);
    for (const c of list(t.columns)) {
      const at = list(c.attributes).map((a) => a.type);
      if ((d = dup(at)) !== undefined) fail(`${t.name}.${c.name} is ${d} twice`);
      if (c.type === "int" && at.some((a) => a === "min_length" || a === "max_length")) fail(`the int column ${t.name}.${c.name} has a length`);
      if (c.type === "text" && at.some((a) => a === "min" || a === "max")) fail(`the text column ${t.name}.${c.name} has a range`);
    }
    for (const x of list(t.indexes)) for (const c of list(x.columns)) if (!own.has(c)) fail(`index ${t.name}.${x.name} uses ${c}, which is no column`);
    for (const f of list(t.foreign_keys)) {
      for (const c of list(f.child_keys)) if (!own.has(c)) fail(`a foreign key of ${t.name} uses ${c}, which is no column`);
      if (!cols.has(f.parent_table)) fail(`a foreign key of ${t.name} refers to the unknown table ${f.parent_table}`);
      else for (const c of list(f.parent_keys)) if (!cols.get(f.parent_table).has(c)) fail(`a foreign key of ${t.name} refers to ${f.parent_table}.${c}, which is no column`);
      if ((d = dup(list(f.actions).map((a) => a.on))) !== undefined) fail(`a foreign key of ${t.name} has two actions on ${d}`);
    }
  }
  const names = new Set(actions.map((a) => a.name)), aliases = new Set(exts);
  for (const a of actions) {
    if ((d = dup(list(a.inputs))) !== undefined) fail(`${a.name} has two inputs ${d}`);
    const vars = new Set(list(a.inputs));
    for (const st of list(a.statements)) {
      const o = oracle(st);
      if (o.died || o.unsure) { unsure = true; continue; }
      if (!o.ok) { fail(`${a.name} has the invalid statement ${JSON.stringify(st)}`); continue; }
      if (o.kind === "dml") continue;
      if (o.kind === "call" && !names.has(o.method)) fail(`${a.name} calls the unknown action ${o.method}`);
      if (o.kind === "ext" && !aliases.has(o.ext)) fail(`${a.name} calls the unknown extension ${o.ext}`);
      const v = [...o.args, ...o.nested].find((p) => p !== null && (p[0] === "$" ? !vars.has(p) : p[0] === "@" && p !== "@caller"));
      if (v) fail(`${a.name} passes the unknown variable ${v}`);
      if (o.kind === "ext") { if (dup(o.receivers) !== undefined) fail(`${a.name} receives twice into one variable`); o.receivers.forEach((x) => vars.add(x)); }
    }
  }
  if (unsure) return {};
  if (bad) return { bad };
  // who owns it is not declared in the source, and older documents know no mutability
  const n = { ...s, owner: "", actions: actions.map((a) => a.mutability === "" || a.mutability === undefined ? { ...a, mutability: "update" } : a) };
  return (s.owner === undefined || typeof s.owner === "string") && !integrity(n) && !callsOf(n, oracle) ? { good: true } : {};
}

// The document a text spells, if there can be no doubt about what it says.
const S = "text", L = (x) => [x];
const SHAPE = { owner: S, name: S,
  tables: L({ name: S, columns: L({ name: S, type: S, attributes: L({ type: S, value: S }) }), indexes: L({ name: S, columns: L(S), type: S }), foreign_keys: L({ child_keys: L(S), parent_keys: L(S), parent_table: S, actions: L({ on: S, do: S }) }) }),
  actions: L({ name: S, annotations: L(S), inputs: L(S), public: "bool", mutability: S, auxiliaries: L(S), statements: L(S) }),
  extensions: L({ name: S, config: L({ argument: S, value: S }), alias: S }) };
function document(bytes) {
  const fits = (x, sh) => sh === S ? typeof x === "string" && x.isWellFormed() : sh === "bool" ? typeof x === "boolean" : Array.isArray(sh) ? Array.isArray(x) && x.every((y) => fits(y, sh[0])) : x !== null && typeof x === "object" && !Array.isArray(x) && Object.keys(x).every((k) => Object.hasOwn(sh, k) && fits(x[k], sh[k]));
  try {
    const t = new TextDecoder("utf-8", { fatal: true, ignoreBOM: true }).decode(bytes), v = JSON.parse(t);
    return (JSON.stringify(v) === t || JSON.stringify(v, null, 2) === t) && fits(v, SHAPE) ? v : undefined;
  } catch { return undefined; }
}
const content = (x) => Array.isArray(x) ? x.map(content) : x && typeof x === "object" ? Object.fromEntries(Object.keys(x).sort().map((k) => [k, content(x[k])]).filter(([, v]) => v !== "" && v !== false && v !== null && !(Array.isArray(v) && !v.length))) : x;
const says = (x) => JSON.stringify(content(x));

// One edit of a document: what merging, editing and losing parts of it does.
function edit(r, doc, other) {
  const arrays = [], strings = [];
  const walk = (x, k) => { if (Array.isArray(x)) { arrays.push([x, k]); x.forEach((y, i) => { if (typeof y === "string") strings.push([x, i, k]); else walk(y, k); }); } else if (x && typeof x === "object") for (const n of Object.keys(x)) { if (typeof x[n] === "string") strings.push([x, n, n]); else walk(x[n], n); } };
  walk(doc, "");
  const full = arrays.filter(([a]) => a.length), str = () => { const kinds = [...new Set(strings.map((s) => s[2]))], k = r.pick(kinds); return r.pick(strings.filter((s) => s[2] === k)); };
  const kindOf = () => { const kinds = [...new Set(full.map((s) => s[1]))], k = r.pick(kinds); return r.pick(full.filter((s) => s[1] === k)); };
  const ops = [];
  if (full.length) ops.push(
    () => { const [a, k] = kindOf(); a.splice(r.int(a.length), 1); return k + " lost"; },
    () => { const [a, k] = kindOf(); a.splice(r.int(a.length + 1), 0, structuredClone(r.pick(a))); return k + " repeated"; },
    () => { const [a, k] = kindOf(); const c = structuredClone(r.pick(a)); if (c && typeof c === "object" && typeof c.name === "string") c.name += r.pick(["2", "_x"]); else if (c && typeof c === "object" && c.value !== undefined) c.value = "9"; a.splice(r.int(a.length + 1), 0, c); return k + " copied"; },
    () => { const [a, k] = kindOf(); r.shuffle(a); return k + " in another order"; },
    () => { const [a, k] = kindOf(), same = full.filter(([b, l]) => l === k && b !== a); if (!same.length) return "none"; const [b] = r.pick(same); b.splice(r.int(b.length + 1), 0, structuredClone(r.pick(a))); return k + " misplaced"; });
  if (strings.length) ops.push(
    () => { const [o, n, k] = str(); o[n] = r.pick([o[n] + "_x", o[n].toUpperCase(), o[n].toLowerCase(), o[n].slice(0, -1), " " + o[n], o[n] + " ", ""]); return k + " edited"; },
    () => { const [o, n, k] = str(), same = strings.filter((s) => s[2] === k && s[0][s[1]] !== o[n]); o[n] = same.length ? (([p, m]) => p[m])(r.pick(same)) : o[n] + "1"; return k + " of another"; },
    () => { const [o, n, k] = str(), [p, m] = str(); const t = o[n]; o[n] = p[m]; p[m] = t; return k + " exchanged"; },
    () => { const ks = strings.filter((s) => s[2] === "name"); if (!ks.length) return "none"; const [o, n] = r.pick(ks); o[n] = r.chance(0.5) ? o[n] + "_x" : r.pick(ks.map(([p, m]) => p[m])); return "renamed"; },
    () => { const ks = strings.filter((s) => s[2] === "type"); if (!ks.length) return "none"; const [o, n] = r.pick(ks); o[n] = r.pick(["int", "text", "blob", "min", "max", "min_length", "max_length", "unique", "not_null", "btree"]); return "type changed"; },
    () => { const ks = strings.filter((s) => s[2] === "statements"); if (!ks.length) return "none"; const [o, i] = r.pick(ks); o[i] = o[i].replace(r.pick([/\$[a-z0-9_]+/i, /[a-z0-9_]+(?=\()/i, /'[^']*'/, /;$/, /\w+/]), (x) => r.pick([x + "z", "", "$nosuch", "@caller", "@nosuch", "1", x.toUpperCase()])); return "statement edited"; });
  if (other) ops.push(() => { const k = r.pick(["tables", "actions", "extensions"]); if (!other[k]?.length) return "none"; (doc[k] ||= []).push(structuredClone(r.pick(other[k]))); return k + " of another document"; }, () => { const k = r.pick(["tables", "actions", "extensions"]); if (other[k]) doc[k] = structuredClone(other[k]); else delete doc[k]; return k + " all of another document"; });
  return ops.length ? r.pick(ops)() : "none";
}

// ------------------------------------------------------------------ C25
export const C25 = {
  id: "C25",
  rule: "a case is one long-lived process and a history of 4-30 documents it loads and validates: published schemas, the same after losing, repeating, misplacing, exchanging or editing a part, and after storage damage to their bytes, with failed compilations in between; non-trivial when one document was accepted and one refused; distinct by history",
  gen(r, ctx) {
    const g = new Gen(r, (s) => ctx.expectOracle(s));
    const docs = [];
    for (let i = r.range(1, 3); i > 0; i--) { const a = expected(ctx, { op: "parse" }, enc.encode(g.valid(r.pick([0.4, 0.7, 1])))); if (a?.json) try { docs.push(JSON.parse(a.json)); } catch { /* C01's business */ } }
    if (!docs.length) docs.push({ owner: "", name: "x" });
    const sources = [];
    for (let i = r.range(3, 10); i > 0; i--) {
      const d = structuredClone(r.pick(docs));
      if (r.chance(0.35)) d.owner = r.pick(["0xAd9c4A5C2f2ebf1b0E5b6Ff3bA5D2d25eB2AbF53", "owner", "o/1"]);
      if (r.chance(0.25)) for (const a of d.actions ?? []) { a.mutability = ""; a.auxiliaries = []; if (r.chance(0.3)) a.public = false; } // of an older version
      for (let k = r.weighted([[3, 0], [9, 1], [4, 2], [1, 4]]); k > 0; k--) edit(r, d, r.pick(docs));
      let text = r.chance(0.5) ? JSON.stringify(d, null, 2) : JSON.stringify(d);
      if (r.chance(0.2)) text = fromBytes(g.damage(enc.encode(text)).bytes);
      sources.push(text);
    }
    const steps = []; for (let i = r.range(4, 30); i > 0; i--) steps.push({ src: r.int(sources.length), ...(r.chance(0.08) ? { parse: true } : {}) });
    return { kind: "session", sources, steps, faults: [], clock: {}, env: {}, hash: r.u32() };
  },
  check(sc, ctx) {
    const viol = [], hist = []; const bytes = sc.sources.map((s) => toBytes(s));
    const l = new LibProc(ctx.lib, { hash: sc.hash }); l.p.spec.syncConsole = true;
    let good = 0, bad = 0, open = 0, steps = 0;
    for (const [n, s] of sc.steps.entries()) {
      const src = bytes[s.src];
      if (s.parse) { l.call({ op: "parse" }, src); hist.push(`${n} compile document ${s.src}`); continue; } // a document is no source
      const a = l.call({ op: "load", raw: true }, src); steps += l.w.steps;
      const say = (cls, m) => viol.push({ cls, msg: `load ${n} of document ${s.src}: ${m}` });
      hist.push(`${n} load document ${s.src}: ${a ? (a.ok ? "accepted" : "refused: " + short(a.err || a.panic, 120)) : "no answer"}`);
      if (!a) { say("no answer", `the process ${l.p.state} ${l.p.trap || ""} ${l.p.text(2).slice(-300)}`); break; }
      const doc = document(src);
      if (a.after) { say("validating changes", `validating changed what was loaded: ${short(a.after, 300)}`); break; }
      const c = doc !== undefined ? consistency(doc, ctx.expectOracle) : a.loaded ? consistency(a.loaded, ctx.expectOracle) : { bad: "it is no document" };
      if (a.panic) { say("panics", `validating panics: ${a.panic}`); break; }
      if (c.bad) { bad++; if (a.ok) { say("inconsistent accepted", `accepted although ${c.bad}`); break; } }
      else if (c.good) {
        good++;
        if (!a.ok) { say("document refused", `a consistent document is refused: ${a.err || a.panic}`); break; }
        if (doc !== undefined && says(doc) !== says(a.loaded)) { say("loaded as another", `the document says ${short(says(doc), 400)} and was loaded as ${short(says(a.loaded), 400)}`); break; }
      } else open++;
    }
    l.close();
    return { viol, key: sha(JSON.stringify(sc.sources)), sig: sha(JSON.stringify([sc.sources, sc.steps])), fired: { "document damaged": bad }, simNs: 0, steps, switches: 0, nontrivial: good > 0 && bad > 0, hist: () => hist, probes: { accepted: good, refused: bad, not_judged: open } };
  },
};

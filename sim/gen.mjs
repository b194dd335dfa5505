// gen.mjs - workload: Kuneiform sources, valid, subtly invalid, and damaged.
import { enc, latin } from "./world.mjs";

const NAMES = ["Users", "ownerId", "POSTS", "users", "posts", "id", "name", "a", "b", "c", "x9", "owner_id", "tables", "Int", "Table", "selects", "database1", "init2", "views", "k_", "title", "v", "wallet", "A", "publicx", "n0_0", "ref1", "withx", "Select1", "caller", "defaults"];
const STRS = ["''", "'x'", "'hello world'", "'<b>&\"q\"</b>'", "'it\\'s'", "'a\\\\b'", "'ünïcode ✓'", "'\u2028'", "'日本語'", "'\t'", "'// not a comment'", "'/* nor this */'", "'){};,'", "'😀'", "'0x00'", "'=1, b=2'", "'--'", "'select '", "'%d%s'", "'\\u0041'"];
const NUMS = ["0", "1", "7", "42", "007", "255", "65536", "9223372036854775807", "18446744073709551616", "100"];

const RESERVED = new Set(["database", "use", "as", "table", "action", "init", "public", "private", "view", "owner", "int", "text", "blob", "min", "max", "minlen", "maxlen", "notnull", "primary", "default", "unique", "index", "foreign_key", "fk", "references", "ref", "on_update", "on_delete", "do", "no_action", "cascade", "set_null", "set_default", "restrict", "not", "and", "or"]);

const KWS = new Set("database use as table action init public private view owner int text blob min max minlen maxlen notnull primary default unique index foreign_key fk references ref on_update on_delete do no_action cascade set_null set_default restrict not and or select insert update delete with from into values where set null join on group by having order limit offset asc desc abs upper lower length case when then else end in is like glob between exists distinct all union except intersect collate nocase returning conflict nothing replace using natural left right inner outer full cross recursive".split(" "));
// the i-th text of one shape: the same tokens, other names of the same length
export const variant = (shape, i) => typeof shape !== "string" ? shape : shape.replace(/([#$@]?)\b([A-Za-z][A-Za-z0-9_]*)/g, (m, p, w) => p === "@" || KWS.has(w.toLowerCase()) ? m : p + w + "_" + i.toString(36).padStart(4, "0"));

export class Gen {
  constructor(rng, oracle) { this.r = rng; this.oracle = oracle; }
  name(used) {
    const r = this.r;
    if (used?.size && r.chance(0.12)) { // a near twin of a name already there: other case, longer, shorter
      const o = r.pick([...used].filter((x) => x !== "init").concat("q")), n = r.pick([o.toUpperCase(), o.toLowerCase(), o[0].toUpperCase() + o.slice(1), o + "_", o + o, o.slice(0, -1) || "z", o + "1"]);
      if (!used.has(n) && !RESERVED.has(n) && !/^(select|insert|update|delete|with)$/i.test(n) && /^[A-Za-z]/.test(n)) { used.add(n); return n; }
    }
    for (let i = 0; i < 60; i++) {
      const n = r.chance(0.02) ? r.pick(NAMES) + "_".repeat(r.range(1, 300)) + r.int(30) : r.chance(0.75) ? r.pick(NAMES) : r.pick(NAMES) + r.pick(["", "_", "1", "Z", "_x"]) + r.int(30);
      if (!used || !used.has(n)) { used?.add(n); return n; }
    }
    const n = "u" + r.int(1e6); used?.add(n); return n;
  }
  num() { return this.r.pick(NUMS); }
  str() { return this.r.pick(STRS); }
  lit() { return this.r.chance(0.5) ? this.num() : this.str(); }

  // ---- abstract source
  db(size = 1) {
    const r = this.r;
    if (r.chance(0.03)) size *= r.pick([3, 6]);
    else if (r.chance(0.003)) size *= 20;
    const d = { name: this.name(), exts: [], tables: [], actions: [], inits: [] };
    const k = (n) => Math.round(n * size);
    if (r.chance(0.4)) { const u = new Set(); for (let i = r.range(1, Math.max(1, k(3))); i > 0; i--) d.exts.push(this.ext(u)); }
    if (r.chance(0.9)) { const u = new Set(); for (let i = r.range(1, Math.max(1, k(4))); i > 0; i--) d.tables.push(this.table(u, d, size)); }
    for (const t of d.tables) this.keys(t, d);
    if (d.exts.length > 1 && r.chance(0.2)) { const [x, y] = r.sample(d.exts, 2); y.name = x.name; if (r.chance(0.5)) y.config = structuredClone(x.config); } // one extension, two aliases
    for (const x of d.exts) if (x.config && r.chance(0.08)) x.config.push([r.pick(x.config)[0], this.lit()]);
    if (r.chance(0.8)) {
      const u = new Set(); if (r.chance(0.6)) u.add("init");
      const n = r.range(1, Math.max(1, k(4)));
      const names = []; for (let i = 0; i < n; i++) names.push(this.name(u));
      const hasInit = r.chance(0.3);
      const callable = names; // init is a keyword and cannot be called
      for (const nm of names) d.actions.push(this.action(nm, d, callable));
      if (hasInit) d.inits.push({ statements: this.stmts(d, callable, []) });
    }
    if (r.chance(0.006)) this.inflate(d);
    if (r.chance(0.03)) this.round(d);
    // interleaving of declarations
    d.order = r.shuffle([...d.tables.map((_, i) => ["t", i]), ...d.actions.map((_, i) => ["a", i]), ...d.inits.map((_, i) => ["i", i])]);
    return d;
  }
  // one list is very long
  long() { const d = this.db(0.6); this.inflate(d, this.r.pick([300, 600, 1100])); this.reorder(d); return this.render(d); }
  inflate(d, n = this.r.pick([70, 130, 257, 300])) {
    const r = this.r, opts = [], some = (p) => Array.from({ length: n }, (_, i) => p + i);
    for (const t of d.tables) {
      opts.push(() => { for (const c of some("zc")) t.columns.push({ name: c, type: r.pick(["int", "text", "blob"]), attrs: [] }); if (r.chance(0.5)) t.body.push({ k: "idx", name: "zi", type: "index", cols: r.chance(0.5) ? some("zc").reverse() : ["zc" + (n - 1)] }); });
      if (r.chance(0.3)) opts.push(() => { for (const i of some("zi")) t.body.push({ k: "idx", name: i, type: r.pick(["unique", "index", "primary"]), cols: [r.pick(t.columns).name] }); });
    }
    if (r.chance(0.5)) opts.push(() => { for (const t of some("zt")) d.tables.push({ name: t, columns: [{ name: "a", type: "int", attrs: [] }], body: [], trailing: false }); });
    if (r.chance(0.5)) opts.push(() => { for (const x of some("ze")) d.exts.push({ name: "erc20", config: null, alias: x }); });
    for (const x of d.exts) opts.push(() => { x.config = some("z").map((a) => [a, this.lit()]); });
    if (d.actions.length && r.chance(0.5)) opts.push(() => { for (const a of some("za")) d.actions.push({ name: a, anns: [], params: [], attrs: ["public"], statements: [{ k: "call", recv: [], fn: [r.pick(d.actions.filter((x) => x.name !== "init").concat({ name: a })).name], args: [] }], lead: false }); });
    for (const a of d.actions) opts.push(...r.sample([
      () => { a.params.push(...some("$z")); a.statements.push({ k: "call", recv: [], fn: [a.name === "init" ? "abs" : a.name], args: [["$z" + (n - 1)]] }); if (a.name === "init") a.statements.pop(); },
      () => { for (let i = 0; i < n; i++) a.statements.push(a.name === "init" || r.chance(0.02) ? { k: "sql", text: "SELECT " + i } : { k: "call", recv: [], fn: [a.name], args: [[String(i)]] }); },
      () => { a.anns.push({ name: "z", attrs: some("z").map((x) => [x, this.lit()]) }); },
      () => { for (const x of some("z")) a.anns.push({ name: x, attrs: [["a", this.lit()]] }); }], 2));
    if (opts.length) r.pick(opts)();
  }
  // one list has a round number of entries, or one more or less; if told so, one of them is wrong
  round(d, wrong = false) {
    const r = this.r, n = r.pick([4, 8, 8, 16, 16, 32, 32, 64]) + r.pick([0, 0, 0, -1, 1]), opts = [];
    const at = () => r.pick([n - 1, n - 1, n - 1, n - 2, 0, n >> 1, r.int(n)]);
    const fill = (l, make, spoil) => { // to n entries, in place
      const b = wrong && spoil ? at() : -1;
      for (let i = l.length; i < n; i++) l.push(make(i));
      if (b >= 0) l[b] = spoil(b);
    };
    const callable = () => { const l = d.actions.filter((x) => x.name !== "init"); return l.length ? r.pick(l).name : null; };
    const call = (s = {}) => ({ k: "call", recv: [], fn: [callable()], args: [], ...s });
    const badStmt = () => r.pick([() => ({ k: "sql", text: "SELECT FROM WHERE" }), () => call({ fn: ["nosuch"] }), () => call({ args: [["1"], ["$nosuch"]] }), () => call({ fn: ["nosuch", "m"] })])();
    for (const t of d.tables) {
      opts.push(() => fill(t.columns, (i) => ({ name: "zc" + i, type: r.pick(["int", "text", "blob"]), attrs: [] }), () => r.pick([() => structuredClone(t.columns[1]), () => ({ name: "zw", type: "int", attrs: [["minlen", "3"]] }), () => ({ name: "zw", type: "text", attrs: [["unique", null], ["unique", null]] })])()));
      opts.push(() => { t.body = t.body.filter((b) => b.k !== "idx"); const l = []; fill(l, (i) => ({ k: "idx", name: "zi" + i, type: "index", cols: [r.pick(t.columns).name] }), () => ({ k: "idx", name: "zw", type: "index", cols: ["nosuch"] })); t.body.push(...l); });
      opts.push(() => { const l = []; fill(l, () => ({ k: "fk", kw: "fk", ref: "ref", child: [r.pick(t.columns).name], table: t.name, parent: [r.pick(t.columns).name], acts: [] }), () => ({ k: "fk", kw: "fk", ref: "ref", child: [r.pick([t.columns[0].name, "nosuch"])], table: r.pick([t.name, "nosuch"]), parent: ["nosuch"], acts: [] })); t.body = t.body.filter((b) => b.k !== "fk").concat(l); });
      opts.push(() => { const l = []; fill(l, () => r.pick(t.columns).name, () => "nosuch"); t.body.push({ k: "idx", name: "zi", type: "index", cols: l }); });
    }
    opts.push(() => fill(d.tables, (i) => ({ name: "zt" + i, columns: [{ name: "a", type: "int", attrs: [] }], body: [], trailing: false }), () => r.pick([() => ({ name: "zw", columns: [{ name: "a", type: "int", attrs: [["maxlen", "1"]] }], body: [], trailing: false }), () => structuredClone(d.tables[1]), () => ({ name: "zw", columns: [{ name: "a", type: "int", attrs: [] }], body: [{ k: "fk", kw: "fk", ref: "ref", child: ["a"], table: "nosuch", parent: ["a"], acts: [] }], trailing: false })])()));
    if (d.exts.length || r.chance(0.3)) opts.push(() => fill(d.exts, (i) => ({ name: "erc20", config: null, alias: "ze" + i }), () => structuredClone(d.exts[1])));
    for (const x of d.exts) opts.push(() => { x.config ||= []; fill(x.config, (i) => ["z" + i, this.lit()]); });
    opts.push(() => { if (d.actions.some((a) => a.name === "init") && n < 8) return; fill(d.actions, (i) => ({ name: "za" + i, anns: [], params: [], attrs: ["public"], statements: [{ k: "sql", text: "SELECT " + i }], lead: false }), () => r.chance(0.2) ? structuredClone(d.actions[1]) : ({ name: "zw", anns: [], params: [], attrs: ["public"], statements: [badStmt()], lead: false })); });
    const top = opts.length;
    for (const a of d.actions) {
      opts.push(() => fill(a.params, (i) => "$z" + i, () => a.params[1]));
      opts.push(() => fill(a.statements, (i) => ({ k: "sql", text: "SELECT " + i }), badStmt));
      opts.push(() => { const l = []; fill(l, (i) => [r.pick([String(i), "'x'", "@caller"])], () => [r.pick(["$nosuch", "@nosuch"])]); const onExt = d.exts.length && r.chance(0.5); if (onExt || callable()) a.statements.push(onExt ? { k: "call", recv: [], fn: [r.pick(d.exts).alias, "m"], args: l } : call({ args: l })); });
      if (d.exts.length) opts.push(() => { const l = []; fill(l, (i) => "$z" + i, () => "$z0"); a.statements.push({ k: "call", recv: l, fn: [r.pick(d.exts).alias, "m"], args: [] }, { k: "call", recv: [], fn: [r.pick(d.exts).alias, "m"], args: [[l[n - 1]]] }); });
      opts.push(() => fill(a.anns, (i) => ({ name: "z" + i, attrs: [["a", this.lit()]] })));
      for (const x of a.anns) opts.push(() => fill(x.attrs, (i) => ["z" + i, this.lit()]));
    }
    (r.chance(0.5) ? opts[r.int(top)] : r.pick(opts))();
    this.reorder(d);
    return wrong ? `one of ${n} wrong` : "";
  }
  reorder(d) { d.order = this.r.shuffle([...d.tables.map((_, i) => ["t", i]), ...d.actions.map((_, i) => ["a", i]), ...d.inits.map((_, i) => ["i", i])]); }
  ext(u) {
    const r = this.r;
    const e = { name: this.name(), config: null, alias: this.name(u) };
    if (r.chance(0.6)) { e.config = []; for (let i = r.range(1, 3); i > 0; i--) e.config.push([this.name(), this.lit()]); }
    return e;
  }
  table(u, d, size) {
    const r = this.r;
    const t = { name: this.name(u), columns: [], body: [], trailing: r.chance(0.25) };
    const cu = new Set();
    for (let i = r.chance(0.03) ? r.range(8, 40) : r.range(1, Math.max(1, Math.round(5 * size))); i > 0; i--) t.columns.push(this.column(cu));
    t.used = cu;
    return t;
  }
  column(cu) {
    const r = this.r;
    const c = { name: this.name(cu), type: r.pick(["int", "text", "blob"]), attrs: [] };
    let pool = ["primary", "notnull", "unique", "default", "min", "max", "minlen", "maxlen"];
    if (c.type === "int") pool = pool.filter((x) => !x.endsWith("len"));
    if (c.type === "text") pool = pool.filter((x) => x !== "min" && x !== "max");
    for (const a of r.sample(pool, r.weighted([[3, 0], [3, 1], [2, 2], [1, 3], [1, 5]]))) c.attrs.push([a, a === "default" ? this.lit() : /^m/.test(a) ? this.num() : null]);
    return c;
  }
  keys(t, d) {
    const r = this.r;
    const cols = t.columns.map((c) => c.name);
    const again = (l) => { if (r.chance(0.07)) l.splice(r.int(l.length + 1), 0, r.pick(l)); return l; }; // a column named twice is allowed
    for (let i = r.weighted([[3, 0], [3, 1], [2, 2], [1, 3]]); i > 0; i--) {
      t.body.push({ k: "idx", name: this.name(t.used), type: r.pick(["unique", "index", "primary"]), cols: again(r.sample(cols, r.range(1, cols.length))) });
    }
    for (let i = r.weighted([[4, 0], [3, 1], [1, 2]]); i > 0; i--) {
      const p = r.pick(d.tables);
      const on = r.sample(["on_update", "on_delete"], r.int(3));
      t.body.push({ k: "fk", kw: r.pick(["fk", "foreign_key"]), ref: r.pick(["ref", "references"]), child: again(r.sample(cols, r.range(1, Math.min(2, cols.length)))), table: p.name, parent: again(r.sample(p.columns.map((c) => c.name), r.range(1, Math.min(2, p.columns.length)))), acts: on.map((o) => [o, r.chance(0.5), r.pick(["no_action", "cascade", "set_null", "set_default", "restrict"])]) });
    }
    if (t.body.length && r.chance(0.08)) { const c = structuredClone(r.pick(t.body)); if (c.k === "idx") c.name = this.name(t.used); t.body.push(c); } // the same key twice
    r.shuffle(t.body);
  }
  action(name, d, callable) {
    const r = this.r;
    const a = { name, anns: [], params: [], attrs: [], statements: [], lead: false };
    const u = new Set();
    for (let i = r.weighted([[2, 0], [3, 1], [2, 2], [1, 4]]); i > 0; i--) a.params.push("$" + this.name(u));
    a.lead = a.params.length > 0 && r.chance(0.03);
    for (let i = r.weighted([[5, 0], [2, 1], [1, 2]]); i > 0; i--) { const attrs = []; for (let j = r.range(1, 3); j > 0; j--) attrs.push([this.name(), this.lit()]); a.anns.push({ name: this.name(), attrs }); }
    if (a.anns.length && r.chance(0.1)) { if (r.chance(0.5)) a.anns.push(structuredClone(r.pick(a.anns))); else { const n = r.pick(a.anns); n.attrs.push([r.pick(n.attrs)[0], this.lit()]); } }
    if (r.chance(0.8)) a.attrs.push(r.pick(["public", "private"]));
    if (r.chance(0.4)) a.attrs.push("view");
    if (r.chance(0.3)) a.attrs.push("owner");
    r.shuffle(a.attrs);
    a.statements = this.stmts(d, callable, a.params);
    return a;
  }
  stmts(d, callable, params) {
    const r = this.r; const out = []; const vars = params.slice();
    for (let i = r.chance(0.03) ? r.range(5, 30) : r.range(1, 4); i > 0; i--) {
      const kind = r.weighted([[5, "sql"], [callable.length ? 2 : 0, "call"], [d.exts.length ? 2 : 0, "ext"]]);
      let s = null;
      if (kind === "sql") s = this.sql(d, vars);
      else {
        s = { k: "call", recv: [], fn: kind === "call" ? [r.pick(callable)] : [r.pick(d.exts).alias, this.name()], args: [] };
        for (let j = r.weighted([[2, 0], [3, 1], [2, 2], [1, 3]]); j > 0; j--) s.args.push(this.arg(vars));
        if (kind === "ext") { const u = new Set(); for (let j = r.weighted([[2, 0], [3, 1], [1, 2]]); j > 0; j--) s.recv.push("$" + this.name(u)); }
      }
      if (out.length && r.chance(0.05)) s = structuredClone(r.pick(out)); // the same statement twice
      if (!this.oracle(flat(s)).ok) s = { k: "sql", text: "SELECT 1" };
      if (s.recv) vars.push(...s.recv);
      out.push(s);
    }
    return out;
  }
  arg(vars, depth = 0) {
    const r = this.r;
    const atom = () => r.weighted([[3, [this.num()]], [3, [this.str()]], [vars.length ? 5 : 0, [vars.length ? r.pick(vars) : "1"]], [1, ["@caller"]]]);
    if (depth >= 2 || r.chance(0.65)) return atom();
    switch (r.int(4)) {
      case 0: return [...this.arg(vars, depth + 1), r.pick(["+", "-", "*", "/", "%", "<", "<=", ">", ">=", "=", "!=", "<>"]), ...this.arg(vars, depth + 1)];
      case 1: return ["(", ...this.arg(vars, depth + 1), ")"];
      case 2: return [r.pick(["-", "+"]), ...atom()];
      default: { const f = r.pick([["abs", 1], ["upper", 1], ["length", 1], ["format", 2], ["lower", 1], ["trim", 1]]); const o = [f[0], "("]; for (let i = 0; i < f[1]; i++) { if (i) o.push(","); o.push(...this.arg(vars, depth + 1)); } o.push(")"); return o; }
    }
  }
  sql(d, vars) {
    const r = this.r;
    const t = d.tables.length ? r.pick(d.tables) : { name: "t1", columns: [{ name: "c1" }, { name: "c2" }] };
    const col = () => r.pick(t.columns).name;
    // what is inside a text belongs to it, blanks, ends of lines and comment marks included
    const text = () => r.chance(0.003) ? "long ".repeat(r.pick([60, 300, 700])) : r.chance(0.6) ? r.pick(["x", "", "a b", "it''s", "ü", "<&>", "--", "日本", "%d", "0x1f", "$a", "@caller", "#x"]) : Array.from({ length: r.range(1, 4) }, () => r.pick(["a", "B c", "x'' y", "", "é", "q"]) + r.pick([" ", "  ", "\t", "\n", " \n", "\t\n", "\n  ", "\r\n", "\n\n", "  \n\t", "-- x\n", "/* x */", "//", ";", "}", "{", "\\n", "\\", "\u00a0", ",", "(", "#", '"'])).join("");
    const val = () => r.weighted([[3, () => this.num()], [3, () => "'" + text() + "'"], [vars.length ? 4 : 0, () => r.pick(vars)], [1, () => "@caller"]])();
    const kw = (s) => r.chance(0.3) ? s.toLowerCase() : r.chance(0.2) ? s[0] + s.slice(1).toLowerCase() : s;
    const W = r.chance(0.2) ? "\n\t" : r.chance(0.1) ? r.pick(["  ", "\r\n", "\t", "\n\n"]) : " ";
    const where = () => r.chance(0.6) ? `${W}${kw("WHERE")} ${col()} ${r.pick(["=", "<", ">=", "!="])} ${val()}${r.chance(0.3) ? ` AND ${col()} = ${val()}` : ""}` : "";
    const cols = r.sample(t.columns, r.range(1, t.columns.length)).map((c) => c.name);
    const pick = r.int(5);
    let s;
    if (pick === 0) s = `${kw("SELECT")}${W}${r.chance(0.4) ? "*" : cols.join(", ")} ${kw("FROM")} ${t.name}${where()}${r.chance(0.3) ? ` ORDER BY ${col()} ${r.pick(["ASC", "DESC"])}` : ""}${r.chance(0.2) ? " LIMIT 10" : ""}`;
    else if (pick === 1) s = `${kw("INSERT")} INTO ${t.name}${W}(${cols.join(", ")}) VALUES (${cols.map(val).join(", ")})${r.chance(0.2) ? " ON CONFLICT DO NOTHING" : ""}`;
    else if (pick === 2) s = `${kw("UPDATE")} ${t.name}${W}SET ${cols.map((c) => `${c} = ${val()}`).join(", ")}${where()}`;
    else if (pick === 3) s = `${kw("DELETE")} FROM ${t.name}${where()}`;
    else s = `${kw("WITH")} q AS (SELECT ${col()} FROM ${t.name}) SELECT * FROM q${r.chance(0.3) ? " -- tail\n" : ""}`;
    return { k: "sql", text: s };
  }
  // ---- rendering
  render(d, style) {
    const r = this.r;
    style ||= r.pick(["pretty", "pretty", "tight", "messy", "crlf"]);
    const T = [];
    const e = (...xs) => { for (const x of xs) T.push(x); };
    const list = (xs, f) => xs.forEach((x, i) => { if (i) e(","); f(x); });
    e("database", d.name, ";");
    for (const x of d.exts) { e("use", x.name); if (x.config) { e("{"); list(x.config, ([a, v]) => e(a, ":", v)); e("}"); } e("as", x.alias, ";"); }
    const stm = (ss) => { for (const s of ss) { if (s.k === "sql") e({ raw: s.text }, ";"); else { if (s.recv.length) { list(s.recv, (v) => e(v)); e("="); } e(s.fn[0]); if (s.fn[1]) e(".", s.fn[1]); e("("); if (s.lead) e(","); list(s.args, (a) => e(...a)); e(")", ";"); } } };
    for (const [k, i] of d.order) {
      if (k === "t") {
        const t = d.tables[i];
        e("table", t.name, "{");
        list(t.columns, (c) => { e(c.name, c.type); for (const [a, v] of c.attrs) { e(a); if (v !== null) e("(", v, ")"); } });
        for (const b of t.body) {
          e(",");
          if (b.k === "idx") { e("#" + b.name, b.type, "("); list(b.cols, (c) => e(c)); e(")"); }
          else { e(b.kw, "("); list(b.child, (c) => e(c)); e(")", b.ref, b.table, "("); list(b.parent, (c) => e(c)); e(")"); for (const [o, w, x] of b.acts) { e(o); if (w) e("do"); e(x); } }
        }
        if (t.trailing) e(",");
        e("}");
      } else if (k === "a") {
        const a = d.actions[i];
        for (const n of a.anns) { e("@" + n.name, "("); list(n.attrs, ([x, v]) => e(x, "=", v)); e(")"); }
        e("action", a.name, "("); if (a.lead) e(","); list(a.params, (p) => e(p)); e(")", ...a.attrs, "{"); stm(a.statements); e("}");
      } else { e("init", "(", ")", "{"); stm(d.inits[i].statements); e("}"); }
    }
    let padAt = -1, padding = "";
    if (this.pad) { // a very long stretch of nothing before some declaration
      const at = T.map((x, i) => i > 0 && /^[;}]$/.test(T[i - 1]) && /^(use|table|action|init|@.*)$/.test(x) ? i : -1).filter((i) => i > 0), line = "//" + "-".repeat(98) + "\n";
      if (at.length) { padAt = r.pick(at); padding = r.pick([() => line.repeat(this.pad / 101), () => line.repeat(this.pad / 101), () => "\n".repeat(this.pad), () => "/*" + "* ".repeat(this.pad / 2) + "*/", () => " ".repeat(this.pad)])(); }
    }
    const word = (x) => /[A-Za-z0-9_$#@]/.test(x);
    let out = "", prev = "", prevRaw = false;
    const nl = style === "crlf" ? "\r\n" : "\n";
    for (const [i, t] of T.entries()) {
      const s = typeof t === "string" ? t : t.raw;
      if (i === padAt) { out += padding; prev = " "; }
      const must = prev !== "" && word(prev[prev.length - 1]) && word(s[0]);
      let sep = "";
      if (prevRaw) sep = r.chance(0.2) ? r.pick([" ", nl, "\t"]) : ""; // no comment can follow SQL text: it would be part of it
      else if (style === "tight") sep = must ? " " : "";
      else if (style === "messy") sep = r.weighted([[5, " "], [2, must ? " " : ""], [1, "\n"], [1, "\t "], [1, "/* c */"], [1, " /* multi\n * line; } */ "], [1, "// c ' {\n"], [1, "\r\n"]]);
      else sep = prev === ";" || prev === "{" || prev === "}" ? nl + "  " : /^[,;.)(]$/.test(s) || /^[(.]$/.test(prev) ? "" : " ";
      if (must && sep === "") sep = " ";
      // an operator pair must not fuse into another token
      if (sep === "" && !must && /^[-<>=!|*\/&]$/.test(s[0] || "") && /[-<>=!|*\/&]$/.test(prev)) sep = " ";
      out += sep + s;
      prev = s; prevRaw = typeof t !== "string";
    }
    if (style !== "tight") out += nl;
    if (style === "messy" && r.chance(0.3)) out = "// header " + r.int(100) + nl + out;
    return out;
  }
  // one broken rule; the model decides whether the result really is invalid
  breakRule(d) {
    const r = this.r;
    const opts = [];
    const tb = d.tables, ac = d.actions;
    if (tb.length > 1) opts.push(() => { r.pick(tb.slice(1)).name = tb[0].name; return "duplicate table"; });
    for (const t of tb) {
      if (t.columns.length > 1) opts.push(() => { t.columns[t.columns.length - 1].name = t.columns[0].name; return "duplicate column"; });
      opts.push(() => { const c = r.pick(t.columns); if (!c.attrs.length) c.attrs.push(r.chance(0.5) ? ["notnull", null] : ["default", this.lit()]); const a = structuredClone(r.pick(c.attrs)); if (a[1] !== null && r.chance(0.6)) a[1] = a[0] === "default" ? this.lit() : this.num(); c.attrs.splice(r.int(c.attrs.length + 1), 0, a); return "duplicate attribute"; });
      opts.push(() => { const c = r.pick(t.columns); c.type = "int"; c.attrs.push([r.pick(["minlen", "maxlen"]), "3"]); return "length on int"; });
      opts.push(() => { const c = r.pick(t.columns); c.type = "text"; c.attrs.push([r.pick(["min", "max"]), "3"]); return "range on text"; });
      const ix = t.body.filter((b) => b.k === "idx"), fk = t.body.filter((b) => b.k === "fk");
      if (ix.length) {
        opts.push(() => { const b = r.pick(ix); b.cols[r.int(b.cols.length)] = "nosuch"; return "index on unknown column"; });
        opts.push(() => { const b = r.pick(ix); b.cols = r.sample(["nosuch", "nosuch2", "gone", "none1"], r.range(2, 4)); return "index on several unknown columns"; });
        opts.push(() => { const b = r.pick(ix); const n = r.pick(t.columns).name; b.cols.push(r.pick([n.toUpperCase(), n + "_", n.slice(0, -1) || "z"])); return "nearly a column's name"; });
        opts.push(() => { const b = r.pick(ix); b.name = r.pick(t.columns).name; return "index named like a column"; });
        opts.push(() => { const b = r.pick(ix); b.cols[r.int(b.cols.length)] = r.pick(ix).name; return "index on an index"; });
        if (tb.length > 1) opts.push(() => { const o = r.pick(tb.filter((x) => x !== t)); r.pick(ix).cols[0] = r.pick(o.columns).name; return "index on another table's column"; });
      }
      if (ix.length > 1) opts.push(() => { ix[1].name = ix[0].name; return "duplicate index"; });
      if (fk.length) {
        opts.push(() => { const b = r.pick(fk); b.child[r.int(b.child.length)] = "nosuch"; return "fk on unknown child"; });
        opts.push(() => { const b = r.pick(fk); b.parent[r.int(b.parent.length)] = "nosuch"; return "fk on unknown parent"; });
        opts.push(() => { r.pick(fk).table = "nosuch"; return "fk to unknown table"; });
        opts.push(() => { const b = r.pick(fk); b.acts = [["on_delete", true, "cascade"], ["on_delete", false, "restrict"]]; return "duplicate fk action"; });
        if (tb.length > 1) opts.push(() => { const b = r.pick(fk); const o = r.pick(tb); b.parent[0] = r.pick(o.columns).name; return "fk parent from another table"; });
        if (ix.length) opts.push(() => { r.pick(fk).child[0] = ix[0].name; return "fk on an index"; });
        opts.push(() => { const b = r.pick(fk); b.parent = r.sample(["nosuch", "nosuch2", "gone", "none1"], r.range(2, 4)); return "several unknown parents"; });
        opts.push(() => { const b = r.pick(fk); b.child = r.sample(["nosuch", "nosuch2", "gone", "none1"], r.range(2, 4)); return "several unknown children"; });
        opts.push(() => { const b = r.pick(fk); b.parent = b.child.slice(); return "fk parent keys named like the children"; });
        opts.push(() => { const b = r.pick(fk); b.table = r.pick([b.table.toUpperCase(), b.table + "_", b.table[0].toUpperCase() + b.table.slice(1), ...d.exts.map((x) => x.alias), ...ac.map((x) => x.name)]); return "nearly a table's name"; });
      }
    }
    if (d.exts.length > 1) opts.push(() => { d.exts[d.exts.length - 1].alias = d.exts[0].alias; return "duplicate extension"; });
    if (ac.length > 1) opts.push(() => { ac[ac.length - 1].name = ac[0].name; return "duplicate action"; });
    for (const a of ac) {
      if (a.params.length) opts.push(() => { a.params.push(r.pick(a.params)); return "duplicate parameter"; });
      opts.push(() => { a.attrs.push(r.pick(["public", "private"]), "public"); return "visibility twice"; });
      opts.push(() => { a.attrs.push("view", "view"); return "view twice"; });
      opts.push(() => { a.attrs.push("owner", "owner"); return "owner twice"; });
      opts.push(() => { a.statements.splice(r.int(a.statements.length + 1), 0, { k: "call", recv: [], fn: ["nosuch"], args: [] }); return "unknown action"; });
      opts.push(() => { a.statements.splice(r.int(a.statements.length + 1), 0, { k: "call", recv: [], fn: ["nosuch", "m"], args: [] }); return "unknown extension"; });
      opts.push(() => { a.statements.splice(r.int(a.statements.length + 1), 0, { k: "call", recv: [], fn: [a.name], args: [["1"], ["$nosuch"]] }); return "unknown variable"; });
      opts.push(() => { a.statements.splice(r.int(a.statements.length + 1), 0, { k: "call", recv: [], fn: [a.name], args: [["@nosuch"]] }); return "unknown block variable"; });
      opts.push(() => { a.statements.push({ k: "sql", text: r.pick(["SELECT FROM WHERE", "INSERT INTO", "DELETE x y z", "UPDATE t SET", "SELECT * FROM t WHERE a = = 1", "SELECT (1", "SELECT 'open"]) }); return "bad sql"; });
      opts.push(() => { a.statements.push({ k: "call", recv: [], fn: [a.name], args: [["1", r.pick(["|", "||", "&"]), "2"]] }); return "operator calls do not have"; });
      const calls = a.statements.filter((s) => s.recv?.length);
      if (calls.length) {
        opts.push(() => { const s = r.pick(calls); s.recv.push(s.recv[0]); return "duplicate receiver"; });
        // use before the call that defines it
        opts.push(() => { const i = a.statements.indexOf(calls[0]); a.statements.splice(i, 0, { k: "call", recv: [], fn: [a.name], args: [[calls[0].recv[0]]] }); return "use before receive"; });
      }
      // a variable inside an expression
      const deep = (v) => r.pick([["abs", "(", v, ")"], ["1", "+", v], [v, "<=", "2"], ["-", v], ["(", v, ")"], ["upper", "(", "1", "*", v, ")"], ["(", "'x'", "=", v, ")"]]);
      opts.push(() => { const p = a.params.length ? r.pick(a.params) : "1"; a.statements.splice(r.int(a.statements.length + 1), 0, { k: "call", recv: [], fn: [r.pick(ac).name], args: [[p], deep(r.pick(["$nosuch", "@nosuch"]))] }); return "unknown variable in an expression"; });
      // a name of another scope: the statement of another action, its variables, an action for an extension and so on
      const others = ac.filter((b) => b !== a && (b.params.length || b.statements.some((s) => s.recv?.length)));
      if (others.length) {
        opts.push(() => { const b = r.pick(others), vs = [...b.params, ...b.statements.flatMap((s) => s.recv || [])], v = r.pick(vs); a.statements.push({ k: "call", recv: [], fn: [r.pick(ac).name], args: r.chance(0.5) ? [[v]] : [["1"], deep(v)] }); return "a variable of another action"; });
        // the same statement where its variables are known and where they are not
        opts.push(() => { const b = r.pick(others); const cs = b.statements.filter((s) => s.k === "call" && s.args.length); let s = cs.length ? r.pick(cs) : null; if (!s) { s = { k: "call", recv: [], fn: [r.pick(ac).name], args: [[r.pick(b.params.length ? b.params : ["1"])]] }; b.statements.push(s); } a.statements.splice(r.int(a.statements.length + 1), 0, structuredClone(s)); if (r.chance(0.5)) { a.params = []; } return "another action's call"; });
      }
      if (d.exts.length && ac.length > 1) opts.push(() => { const b = r.pick(ac.filter((x) => x !== a)), n = "$rv" + r.int(9); b.statements.splice(r.int(b.statements.length + 1), 0, { k: "call", recv: r.chance(0.5) ? [n] : ["$r0", n], fn: [r.pick(d.exts).alias, "m"], args: [] }); a.statements.splice(r.int(a.statements.length + 1), 0, { k: "call", recv: [], fn: r.chance(0.5) ? [r.pick(ac.filter((x) => x.name !== "init").concat(b)).name] : [r.pick(d.exts).alias, "m"], args: [[n]] }); return "a variable another action received"; });
      if (a.params.length) opts.push(() => { const v = r.pick(a.params), s = { k: "call", recv: [], fn: [a.name], args: [[v]] }; a.statements.unshift(structuredClone(s)); for (const b of ac) if (b !== a) b.statements.push(structuredClone(s)); return "one call in every action"; });
      if (tb.length) opts.push(() => { a.statements.push({ k: "call", recv: [], fn: [r.pick(tb).name], args: [] }); return "a table called"; });
      if (d.exts.length) { opts.push(() => { const x = r.pick(d.exts); a.statements.push({ k: "call", recv: [], fn: [x.alias], args: [] }); return "an extension called like an action"; }); opts.push(() => { const x = r.pick(d.exts); a.statements.push({ k: "call", recv: [], fn: [x.name, "m"], args: [] }); return "an extension called by its name, not its alias"; }); }
      opts.push(() => { a.statements.push({ k: "call", recv: [], fn: [r.pick(ac).name, "m"], args: [] }); return "an action called like an extension"; });
      opts.push(() => { const n = r.pick(ac).name; a.statements.push({ k: "call", recv: [], fn: [r.pick([n.toUpperCase(), n + "_", n.slice(0, -1) || "z", n[0].toUpperCase() + n.slice(1)])], args: [] }); return "nearly an action's name"; });
      // a variable another action knows
      for (const b of ac) if (b !== a && b.params.length) { opts.push(() => { a.statements.push({ k: "call", recv: [], fn: [a.name], args: [[r.pick(b.params)]] }); return "another action's variable"; }); break; }
    }
    if (d.inits.length) {
      opts.push(() => { d.inits.push({ statements: [{ k: "sql", text: "SELECT 1" }] }); d.order.push(["i", d.inits.length - 1]); return "two inits"; });
      if (ac.length) opts.push(() => { r.pick(ac).name = "init"; return "action named init"; });
    }
    if (!opts.length) return "none";
    return r.pick(opts)();
  }
  // one use of a name, anywhere, is of a name that is not there, or not of that kind, or not there yet
  misname(d) {
    const r = this.r, kinds = {}, add = (k, o, n) => (kinds[k] ||= []).push([o, n]);
    const calls = d.actions.flatMap((a) => a.statements.filter((s) => s.k === "call").map((s) => [a, s]));
    if (!calls.length && d.actions.length && r.chance(0.7)) { const a = r.pick(d.actions), f = d.exts.length && r.chance(0.5) ? [r.pick(d.exts).alias, "m"] : d.actions.filter((x) => x.name !== "init").map((x) => x.name).slice(0, 1), s = { k: "call", recv: [], fn: f, args: [["1"]] }; if (f.length) { a.statements.splice(r.int(a.statements.length + 1), 0, s); calls.push([a, s]); } }
    if (calls.length && r.chance(0.4)) { const [a, s] = r.pick(calls); for (let i = r.range(1, 10); i > 0; i--) s.args.push([a.params.length && r.chance(0.5) ? r.pick(a.params) : r.chance(0.2) ? "@caller" : this.lit()]); }
    for (const t of d.tables) for (const b of t.body) if (b.k === "idx") b.cols.forEach((_, i) => add("index column", b.cols, i)); else { add("parent table", b, "table"); b.child.forEach((_, i) => add("child column", b.child, i)); b.parent.forEach((_, i) => add("parent column", b.parent, i)); }
    for (const [, s] of calls) { add("called", s.fn, 0); s.args.forEach((g) => g.forEach((x, i) => { if (/^[$@]./.test(x)) add("argument", g, i); else if (g.length === 1) add("value", g, i); })); }
    const ks = Object.keys(kinds); if (!ks.length) return "none";
    const k = r.pick(ks), [o, n] = r.pick(kinds[k]), x = o[n];
    const all = [...d.tables.flatMap((t) => [t.name, ...t.columns.map((c) => c.name), ...t.body.filter((b) => b.k === "idx").map((b) => b.name)]), ...d.actions.map((a) => a.name), ...d.exts.flatMap((e) => [e.name, e.alias])].filter((y) => y !== "init");
    if (k === "argument" || k === "value") { const vs = d.actions.flatMap((a) => [...a.params, ...a.statements.flatMap((s) => s.recv || [])]); o[n] = r.pick(["$nosuch", "$nosuch", "@nosuch", "@caller_", vs.length ? r.pick(vs) : "$q", /^[$@]/.test(x) ? x + "_" : "$" + this.name(), /^[$@]../.test(x) ? x.slice(0, -1) : "@block"]); } else o[n] = r.pick(["nosuch", "nosuch", x + "_", x.slice(0, -1) || "z", all.length ? r.pick(all) : "z"]);
    return k + " misnamed";
  }
  // one name, where it is used or where it is declared, in other letters
  recase(d) {
    const r = this.r, kinds = {}, add = (k, o, n) => (kinds[k] ||= []).push([o, n]);
    for (const t of d.tables) {
      add("table", t, "name"); for (const c of t.columns) add("column", c, "name");
      for (const b of t.body) if (b.k === "idx") { add("index", b, "name"); b.cols.forEach((_, i) => add("index column", b.cols, i)); } else { add("parent table", b, "table"); add("parent table", b, "table"); b.child.forEach((_, i) => add("child column", b.child, i)); b.parent.forEach((_, i) => add("parent column", b.parent, i)); }
    }
    for (const x of d.exts) add("alias", x, "alias");
    for (const a of d.actions) {
      if (a.name !== "init") add("action", a, "name");
      a.params.forEach((_, i) => add("parameter", a.params, i));
      for (const s of a.statements) if (s.k === "call") { add("called", s.fn, 0); (s.recv || []).forEach((_, i) => add("receiver", s.recv, i)); for (const g of s.args) g.forEach((x, i) => { if (/^[$@]./.test(x)) add("argument", g, i); }); }
    }
    const ks = Object.keys(kinds); if (!ks.length) return "none";
    const k = r.pick(ks), [o, n] = r.pick(kinds[k]), x = o[n], up = (i) => x.slice(0, i) + x[i].toUpperCase() + x.slice(i + 1);
    o[n] = r.pick([x.toLowerCase(), x.toLowerCase(), x.toUpperCase(), up(/^[$@]/.test(x) ? 1 : 0), up(x.length - 1)].filter((y) => y !== x).concat(x.toUpperCase()));
    return k + " in other letters";
  }
  // one declaration is gone, everything that uses it stays
  undeclare(d) {
    const r = this.r, opts = [];
    const drop = (l, x) => l.splice(l.indexOf(x), 1);
    for (const t of d.tables) {
      if (d.tables.length > 1) opts.push(() => { const i = d.tables.indexOf(t); d.tables.splice(i, 1); d.order = d.order.filter(([k, j]) => !(k === "t" && j === i)).map(([k, j]) => [k, k === "t" && j > i ? j - 1 : j]); return "table gone"; });
      opts.push(() => { t.name += "_x"; return "table renamed"; });
      if (t.columns.length > 1) opts.push(() => { drop(t.columns, r.pick(t.columns)); return "column gone"; });
      opts.push(() => { r.pick(t.columns).name += "_x"; return "column renamed"; });
    }
    const params = [], recvs = [];
    for (const [i, a] of d.actions.entries()) {
      if (a.params.length) params.push(() => { drop(a.params, r.pick(a.params)); return "parameter gone"; }, () => { a.params = []; return "parameters gone"; });
      for (const s of a.statements) if (s.recv?.length) recvs.push(() => { drop(s.recv, r.pick(s.recv)); return "receiver gone"; }, () => { drop(a.statements, s); if (!a.statements.length) a.statements.push({ k: "sql", text: "SELECT 1" }); return "receiving call gone"; });
      if (d.actions.length > 1) opts.push(() => { d.actions.splice(i, 1); d.order = d.order.filter(([k, j]) => !(k === "a" && j === i)).map(([k, j]) => [k, k === "a" && j > i ? j - 1 : j]); return "action gone"; });
    }
    if (params.length) opts.push(() => r.pick(params)(), () => r.pick(params)());
    if (recvs.length) opts.push(() => r.pick(recvs)(), () => r.pick(recvs)());
    if (d.exts.length) opts.push(() => { drop(d.exts, r.pick(d.exts)); return "extension gone"; });
    return opts.length ? r.pick(opts)() : "none";
  }
  valid(size) { return this.render(this.db(size)); }
  invalid(size) {
    const r = this.r;
    const d = this.db(size);
    if (r.chance(0.07)) { const w = this.round(d, true); return { text: this.render(d), how: w }; }
    if (r.chance(0.15)) { let w = this.misname(d); if (r.chance(0.2)) w += ", " + this.misname(d); return { text: this.render(d), how: w }; }
    if (r.chance(0.1)) { let w = this.recase(d); if (r.chance(0.2)) w += ", " + this.recase(d); return { text: this.render(d), how: w }; }
    if (r.chance(0.15)) { let w = this.undeclare(d); if (r.chance(0.3)) w += ", " + this.undeclare(d); return { text: this.render(d), how: w }; }
    if (r.chance(0.6)) { let w = this.breakRule(d); for (let i = r.weighted([[4, 0], [1, 1], [1, 3]]); i > 0; i--) w += ", " + this.breakRule(d); return { text: this.render(d), how: w }; }
    return this.textual(this.render(d));
  }
  // two or more mistakes of one kind in one list
  wrongOfAKind(d) {
    const r = this.r, n = r.range(2, 5), no = () => r.sample(["nosuch", "gone", "none1", "zz", "A9", "b_b"], n), opts = [], num = () => String(r.int(9));
    const t = d.tables.length ? r.pick(d.tables) : null, a = d.actions.length ? r.pick(d.actions) : null, cols = t?.columns.map((c) => c.name);
    const put = (s) => a.statements.splice(r.int(a.statements.length + 1), 0, s), fn = () => d.exts.length && r.chance(0.5) ? [r.pick(d.exts).alias, "m"] : [r.pick(d.actions.filter((x) => x.name !== "init").map((x) => x.name).concat(a.name === "init" ? "zq" : a.name))];
    if (t) opts.push(
      () => { for (const x of no()) t.columns.push({ name: x, type: "int", attrs: [] }, { name: x, type: "text", attrs: [] }); },
      () => { const c = r.pick(t.columns); c.type = "int"; c.attrs = r.sample([["minlen", "1"], ["maxlen", "2"]], 2).concat(c.attrs.filter(([x]) => !/^m/.test(x))); },
      () => { const c = r.pick(t.columns); c.attrs = r.sample([["unique", null], ["notnull", null], ["primary", null], ["default", "1"]], r.range(2, 4)); c.attrs = r.shuffle([...c.attrs, ...structuredClone(c.attrs)]); },
      () => { for (const c of r.sample(t.columns, Math.min(n, t.columns.length))) { c.type = "text"; c.attrs = [["min", num()], ["max", num()]]; } },
      () => { t.body.push({ k: "idx", name: "zi", type: "index", cols: [...no(), cols[0]] }); },
      () => { for (const x of no()) t.body.push({ k: "idx", name: "zi" + x, type: "index", cols: [x] }); },
      () => { for (const x of no()) t.body.push({ k: "idx", name: "zi" + x, type: "index", cols: [cols[0]] }, { k: "idx", name: "zi" + x, type: "unique", cols: [cols[0]] }); },
      () => { t.body.push({ k: "fk", kw: "fk", ref: "ref", child: no(), table: t.name, parent: [cols[0]], acts: [] }); },
      () => { t.body.push({ k: "fk", kw: "fk", ref: "ref", child: [cols[0]], table: t.name, parent: no(), acts: [] }); },
      () => { for (const x of no()) t.body.push({ k: "fk", kw: "fk", ref: "ref", child: [cols[0]], table: x, parent: [cols[0]], acts: [] }); },
      () => { t.body.push({ k: "fk", kw: "fk", ref: "ref", child: [cols[0]], table: t.name, parent: [cols[0]], acts: r.shuffle([["on_delete", true, "cascade"], ["on_delete", false, "restrict"], ["on_update", true, "cascade"], ["on_update", false, "set_null"]]) }); },
      () => { for (const x of no()) for (let k = 2; k; k--) d.tables.push({ name: x, columns: [{ name: "a", type: "int", attrs: [] }], body: [], trailing: false }); },
      () => { for (const x of no()) d.tables.push({ name: x, columns: [{ name: "a", type: "int", attrs: [["minlen", num()]] }], body: [], trailing: false }); });
    if (a) opts.push(
      () => { for (const x of no()) { const b = structuredClone(a); b.name = x; d.actions.push(b, structuredClone(b)); } },
      () => { const l = no().map((x) => "$" + x); a.params = r.shuffle([...a.params, ...l, ...l]); },
      () => { put({ k: "call", recv: [], fn: fn(), args: no().map((x) => [r.pick(["$", "@"]) + x]) }); },
      () => { for (const x of no()) put({ k: "call", recv: [], fn: fn(), args: [["1"], ["$" + x]] }); },
      () => { for (const x of no()) put({ k: "call", recv: [], fn: r.chance(0.5) ? [x] : [x, "m"], args: [] }); },
      () => { for (const x of no()) put({ k: "sql", text: r.pick(["SELECT FROM WHERE ", "INSERT INTO ", "DELETE x y z ", "UPDATE t SET "]) + x }); },
      () => { for (const x of no()) { const b = structuredClone(a); b.name = "w" + x; b.statements = [{ k: "call", recv: [], fn: [x], args: [] }]; d.actions.push(b); } },
      () => { a.attrs = r.shuffle(["public", "private", "view", "view", "owner", "owner"]); });
    if (d.exts.length) opts.push(() => { for (const x of no()) for (let k = 2; k; k--) d.exts.push({ name: "e", config: null, alias: x }); });
    if (d.exts.length && a) opts.push(() => { const l = no().map((x) => "$" + x); put({ k: "call", recv: r.shuffle([...l, ...l]), fn: [d.exts[0].alias, "m"], args: [] }); });
    if (opts.length) r.pick(opts)();
    this.reorder(d);
  }
  // several mistakes at once: which of them is reported may not depend on anything but the source
  wrong(size) {
    const r = this.r, d = this.db(size);
    if (r.chance(0.65)) { this.wrongOfAKind(d); return this.render(d); }
    if (r.chance(0.5)) for (const t of d.tables) if (r.chance(0.6)) r.pick([() => t.columns.push(structuredClone(r.pick(t.columns))), () => { const c = r.pick(t.columns); c.type = "int"; c.attrs.push(["minlen", "3"]); }, () => t.body.push({ k: "idx", name: "ix" + r.int(99), type: "index", cols: ["nosuch" + r.int(9)] })])();
    if (r.chance(0.7)) for (const a of d.actions) if (r.chance(0.7)) a.statements.splice(r.int(a.statements.length + 1), 0, r.pick([{ k: "call", recv: [], fn: ["nosuch" + r.int(99)], args: [] }, { k: "call", recv: [], fn: ["nosuch" + r.int(99), "m"], args: [] }, { k: "sql", text: r.pick(["SELECT FROM WHERE", "INSERT INTO", "DELETE x y z", "UPDATE t SET"]) + r.int(99) }, { k: "call", recv: [], fn: [a.name], args: [["$nosuch" + r.int(99)]] }]));
    for (let i = r.int(4); i > 0; i--) this.breakRule(d);
    return this.render(d);
  }
  // a valid source and others that differ from it in one rule, in one value, or in layout only
  siblings(size, n) {
    const r = this.r; const d = this.db(size); const style = r.pick(["pretty", "tight", "crlf"]);
    if (r.chance(0.25)) { // what the variants leave out is used
      for (const a of d.actions) { const vs = a.statements.flatMap((s) => s.recv || []).concat(a.params); if (vs.length) a.statements.push({ k: "call", recv: [], fn: [r.pick(d.actions.filter((x) => x.name !== "init").concat(a)).name], args: r.sample(vs, r.range(1, vs.length)).map((v) => [v]) }); }
    }
    if (r.chance(0.3)) { // all of them break the same rule
      if (r.chance(0.5) && d.actions.length) r.pick(d.actions).statements.push({ k: "sql", text: r.pick(["SELECT FROM WHERE", "INSERT INTO", "DELETE x y z", "UPDATE t SET", "SELECT * FROM t WHERE a = = 1"]) });
      else this.breakRule(d);
    }
    const out = [this.render(d, style)];
    while (out.length < n) {
      const c = structuredClone(d);
      const k = r.int(6);
      if (k < 2) this.breakRule(c);
      else if (k < 4) { this.undeclare(c); if (r.chance(0.3)) this.undeclare(c); if (r.chance(0.2)) this.breakRule(c); } else if (k === 4) { // one value changed
        const lits = [];
        for (const t of c.tables) for (const x of t.columns) { lits.push(() => { x.type = r.pick(["int", "text", "blob"].filter((y) => y !== x.type)); x.attrs = x.attrs.filter(([a]) => !/^m/.test(a)); }); for (const a of x.attrs) if (a[1] !== null) lits.push(() => { a[1] = /^m/.test(a[0]) ? String(r.int(1e6)) : this.lit(); }); lits.push(() => { x.attrs = x.attrs.some(([a]) => a === "notnull") ? x.attrs.filter(([a]) => a !== "notnull") : [...x.attrs, ["notnull", null]]; }); }
        for (const t of c.tables) for (const b of t.body) { if (b.k === "idx") lits.push(() => { b.type = r.pick(["unique", "index", "primary"].filter((y) => y !== b.type)); b.cols.reverse(); }); else lits.push(() => { b.acts = b.acts.length ? [] : [["on_delete", true, "cascade"]]; }); }
        for (const x of c.exts) lits.push(() => { x.config = x.config ? null : [[this.name(), this.lit()]]; });
        for (const a of c.actions) { lits.push(() => { a.attrs = a.attrs.includes("public") ? ["private"] : ["public"]; }); lits.push(() => { a.anns = a.anns.length ? [] : [{ name: this.name(), attrs: [["a", this.lit()]] }]; }); lits.push(() => { a.statements.push({ k: "sql", text: "SELECT " + r.int(1000) }); }); }
        if (lits.length) r.pick(lits)();
      }
      out.push(this.render(c, r.chance(0.8) ? style : undefined));
    }
    return r.shuffle(out);
  }
  textual(text) {
    const r = this.r;
    const m = [...text.matchAll(/[A-Za-z_0-9]+|[^\sA-Za-z_0-9]/g)];
    if (m.length < 4) return { text: text + "}", how: "extra token" };
    const x = r.pick(m), y = r.pick(m);
    const cut = (a, b, ins) => text.slice(0, a) + ins + text.slice(b);
    switch (r.int(11)) {
      case 10: { // a certain number of them
        const k = r.pick([8, 10, 16, 20, 32, 50, 64, 64, 100, 128, 128, 256, 256, 500, 1000]) + r.pick([0, 0, 0, 0, -1, 1]), j = r.pick(["!", "!", "?", "^", " ~ ", "\""]);
        if (r.chance(0.5)) { const at = r.pick([x.index, text.length, 0]); return { text: cut(at, at, (j + r.pick(["", " ", "\n"])).repeat(k)), how: "many errors" }; }
        let out = text; for (let i = 0; i < k; i++) { const p = m[(i * 7) % m.length].index; out = out.slice(0, p) + j + out.slice(p); }
        return { text: out, how: "many errors" };
      }
      case 8: return r.chance(0.5) ? { text: r.pick(["\ufeff", "\u0000", "\x1a", "\f", "#!/usr/bin/kuneiform\n", "\u00a0"]) + text, how: "leading junk" } : { text: text + r.pick(["\ufeff", "\u0000", "\x1a", "\u0000\u0000\u0000\u0000", "\f", "\u00a0"]), how: "trailing junk" };
      case 0: return { text: cut(x.index, x.index + x[0].length, ""), how: "token deleted" };
      case 1: return { text: cut(x.index, x.index, x[0] + " "), how: "token doubled" };
      case 2: return { text: cut(x.index, x.index + x[0].length, y[0]), how: "token replaced" };
      case 3: return { text: text.slice(0, x.index), how: "cut" };
      case 4: return { text: cut(x.index, x.index, r.pick(["'", "}", "{", ";", ",", "#", "$", "@", "`", "\"", "\\", "!", "?", "é", "\u0000", "[", "]", "^", "=", "(", ")", "/*", "//", "\ufeff", "\f", "\v", "\u00a0", "\u2028", "\x1a", "\r"])), how: "junk" };
      case 5: return { text: cut(x.index, x.index + x[0].length, x[0].toUpperCase()), how: "case" };
      case 6: return { text: text + r.pick([" }", ";", " table t { a int }", "\u0000", " action", "'", " database x;", "x"]), how: "trailing" };
      case 7: return { text: r.pick(["", " ", "\n", "// nothing\n", ";", "database", "database x", "table t { a int }", "{}", "null"]), how: "no database" };
      default: { const a = Math.min(x.index, y.index), b = Math.max(x.index, y.index); return { text: text.slice(0, a) + text.slice(b), how: "span lost" }; }
    }
  }
  // damage as storage does it, on bytes
  damage(bytes) {
    const r = this.r; const b = bytes.slice(); const n = b.length;
    if (n < 8) return { bytes: b.slice(0, n >> 1), how: "truncated" };
    switch (r.int(6)) {
      case 0: return { bytes: b.slice(0, r.range(0, n - 1)), how: "truncated" };
      case 1: { for (let i = r.range(1, 3); i > 0; i--) b[r.int(n)] ^= 1 << r.int(8); return { bytes: b, how: "bit flips" }; }
      case 2: { const a = r.int(n), l = Math.min(n - a, r.range(1, 64)); b.fill(0, a, a + l); return { bytes: b, how: "zeroed block" }; }
      case 3: { const l = r.range(1, Math.min(64, n)); const a = r.int(n - l + 1), c = r.int(n - l + 1); b.copyWithin(c, a, a + l); return { bytes: b, how: "misdirected block" }; }
      case 4: { const a = r.int(n), l = Math.min(n - a, r.range(1, 64)); const o = new Uint8Array(n - l); o.set(b.subarray(0, a)); o.set(b.subarray(a + l), a); return { bytes: o, how: "lost block" }; }
      default: { const a = r.int(n); const o = new Uint8Array(n + (n - a)); o.set(b); o.set(b.subarray(a), n); return { bytes: o, how: "duplicated tail" }; }
    }
  }
}
function flat(s) {
  if (s.k === "sql") return s.text + ";";
  return (s.recv.length ? s.recv.join(",") + "=" : "") + s.fn.join(".") + "(" + s.args.map((a) => a.join("")).join(",") + ");";
}

// Go's conversion of bytes to runes: each invalid byte is one U+FFFD, a BOM is kept
export function goDecode(u8) {
  let out = "";
  for (let i = 0; i < u8.length;) {
    const b = u8[i];
    if (b < 0x80) { out += String.fromCharCode(b); i++; continue; }
    let need = 0, cp = 0, lo = 0x80, hi = 0xBF;
    if (b >= 0xC2 && b <= 0xDF) { need = 1; cp = b & 0x1F; } else if (b >= 0xE0 && b <= 0xEF) { need = 2; cp = b & 0xF; if (b === 0xE0) lo = 0xA0; if (b === 0xED) hi = 0x9F; } else if (b >= 0xF0 && b <= 0xF4) { need = 3; cp = b & 7; if (b === 0xF0) lo = 0x90; if (b === 0xF4) hi = 0x8F; }
    let ok = need > 0 && i + need < u8.length + 0 + 1 && i + need <= u8.length - 1;
    for (let k = 1; ok && k <= need; k++) { const c = u8[i + k]; const l = k === 1 ? lo : 0x80, h = k === 1 ? hi : 0xBF; if (c === undefined || c < l || c > h) ok = false; else cp = (cp << 6) | (c & 0x3F); }
    if (!ok) { out += "\uFFFD"; i++; continue; }
    out += String.fromCodePoint(cp); i += need + 1;
  }
  return out;
}

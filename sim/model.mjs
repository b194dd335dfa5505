// model.mjs - the reference model: an independent reading of the Kuneiform language.
// compile(text, stmtOracle) -> { ok:true, schema } | { ok:false, stage:'lex'|'syntax'|'semantic', why }
//
// Written from the language's grammar tables and documentation, not by calling the
// code under test.  Validity of the text of one action statement (the SQL dialect and
// the call grammar) is a matter of the kwil-db/parse dependency, which is outside
// this repository and trusted: stmtOracle answers for it.

const KW = new Map([
  ["database", "DATABASE"], ["use", "USE"], ["as", "AS"], ["table", "TABLE"], ["action", "ACTION"], ["init", "INIT"],
  ["public", "PUBLIC"], ["private", "PRIVATE"], ["view", "VIEW"], ["owner", "OWNER"], ["int", "INT"], ["text", "TEXT"], ["blob", "BLOB"],
  ["min", "MIN"], ["max", "MAX"], ["minlen", "MINLEN"], ["maxlen", "MAXLEN"], ["notnull", "NOTNULL"], ["primary", "PRIMARY"],
  ["default", "DEFAULT"], ["unique", "UNIQUE"], ["index", "INDEX"], ["foreign_key", "FK"], ["fk", "FK"], ["references", "REF"], ["ref", "REF"],
  ["on_update", "ONUPD"], ["on_delete", "ONDEL"], ["do", "DO"], ["no_action", "NOACT"], ["cascade", "CASCADE"], ["set_null", "SETNULL"],
  ["set_default", "SETDEF"], ["restrict", "RESTRICT"], ["not", "NOT"], ["and", "AND"], ["or", "OR"],
]);
const SQLKW = new Set(["select", "insert", "update", "delete", "with"]);
const PUNCT = ["||", "<<", ">>", "==", "<=", ">=", "!=", "<>", ":", ";", "(", "{", ")", "}", ",", "$", "#", "@", ".", "=", "+", "-", "*", "/", "%", "~", "&", "|", "<", ">"];

export function lex(text) {
  const s = Array.from(text); // code points
  const n = s.length;
  const toks = [];
  const alpha = (c) => c !== undefined && /^[A-Za-z]$/.test(c);
  const word = (c) => c !== undefined && /^[A-Za-z0-9_]$/.test(c);
  const digit = (c) => c !== undefined && c >= "0" && c <= "9" && c.length === 1;
  const ws = (c) => c === " " || c === "\t" || c === "\n" || c === "\r";
  let i = 0;
  const ident = (j) => { if (!alpha(s[j])) return j; let k = j + 1; while (word(s[k])) k++; return k; };
  while (i < n) {
    const c = s[i];
    if (ws(c)) { i++; continue; }
    if (c === "/" && s[i + 1] === "*") {
      let j = i + 2;
      while (j + 1 < n && !(s[j] === "*" && s[j + 1] === "/")) j++;
      if (j + 1 < n) { i = j + 2; continue; }
      // an unterminated comment is no comment: '/' and '*' are ordinary tokens
    }
    if (c === "/" && s[i + 1] === "/") {
      let j = i + 2;
      while (j < n && s[j] !== "\n" && s[j] !== "\r") j++;
      i = j; continue;
    }
    if (alpha(c)) {
      const j = ident(i);
      const w = s.slice(i, j).join("");
      // SQL statement token: longest run of an SQL keyword, white space, anything but ; and }
      const pre = [...SQLKW].find((k) => s.slice(i, i + k.length).join("").toLowerCase() === k && ws(s[i + k.length]));
      if (pre) {
        let k = i + pre.length;
        while (ws(s[k])) k++;
        let e = k;
        while (e < n && s[e] !== ";" && s[e] !== "}") e++;
        // at least one white space and then at least one other character; the character may itself be white space
        const total = e - (i + pre.length);
        if (total >= 2) { toks.push({ t: "SQL", v: s.slice(i, e).join("") }); i = e; continue; }
      }
      if (KW.has(w)) toks.push({ t: KW.get(w), v: w });
      else if (SQLKW.has(w.toLowerCase())) toks.push({ t: "SQLKW", v: w });
      else toks.push({ t: "ID", v: w });
      i = j; continue;
    }
    if (digit(c)) { let j = i; while (digit(s[j])) j++; toks.push({ t: "NUM", v: s.slice(i, j).join("") }); i = j; continue; }
    if ((c === "#" || c === "$" || c === "@") && alpha(s[i + 1])) {
      const j = ident(i + 1);
      toks.push({ t: c === "#" ? "IDXNAME" : c === "$" ? "VAR" : "ATVAR", v: s.slice(i, j).join("") });
      i = j; continue;
    }
    if (c === "'") {
      let j = i + 1, ok = false;
      while (j < n) {
        if (s[j] === "'") { ok = true; break; }
        if (s[j] === "\\") { if (j + 1 >= n) break; j += 2; continue; }
        if (s[j] === "\n" || s[j] === "\r") break;
        j++;
      }
      if (!ok) return { err: `unterminated string at ${i}` };
      toks.push({ t: "STR", v: s.slice(i, j + 1).join("") }); i = j + 1; continue;
    }
    const p = PUNCT.find((q) => s[i] === q[0] && (q.length === 1 || s[i + 1] === q[1]));
    if (!p) return { err: `unexpected character ${JSON.stringify(c)} at ${i}` };
    toks.push({ t: p, v: p }); i += p.length;
  }
  toks.push({ t: "EOF", v: "" });
  return { toks };
}

class Reject extends Error { constructor(stage, cls, why) { super(why); this.stage = stage; this.cls = cls; } }

class Parser {
  constructor(toks) { this.k = toks; this.i = 0; }
  get t() { return this.k[this.i].t; }
  fail(what) { throw new Reject("syntax", "syntax", `expected ${what}, found ${this.t} '${this.k[this.i].v}'`); }
  is(...ts) { return ts.includes(this.t); }
  eat(...ts) { if (!this.is(...ts)) this.fail(ts.join("|")); return this.k[this.i++]; }
  opt(...ts) { return this.is(...ts) ? this.k[this.i++] : null; }
  list(f) { const r = [f()]; while (this.opt(",")) r.push(f()); return r; }

  source() {
    this.eat("DATABASE");
    const s = { name: this.eat("ID").v, exts: [], tables: [], actions: [], inits: [] };
    this.eat(";");
    while (this.is("USE")) s.exts.push(this.ext());
    for (;;) {
      if (this.is("TABLE")) s.tables.push(this.table());
      else if (this.is("ACTION", "ATVAR")) s.actions.push(this.action());
      else if (this.is("INIT")) s.inits.push(this.init());
      else break;
    }
    this.eat("EOF");
    return s;
  }
  ext() {
    this.eat("USE");
    const e = { name: this.eat("ID").v, config: null, alias: "" };
    if (this.opt("{")) {
      e.config = this.list(() => { const a = this.eat("ID").v; this.eat(":"); return { argument: a, value: this.lit() }; });
      this.eat("}");
    }
    this.eat("AS"); e.alias = this.eat("ID").v; this.eat(";");
    return e;
  }
  lit() { return this.eat("NUM", "STR").v; }
  table() {
    this.eat("TABLE");
    const t = { name: this.eat("ID").v, columns: [], indexes: [], foreign_keys: [] };
    this.eat("{");
    t.columns.push(this.column());
    let body = false, trailing = false;
    while (!trailing && this.opt(",")) {
      if (this.is("ID") && !body) t.columns.push(this.column());
      else if (this.is("IDXNAME")) { body = true; t.indexes.push(this.index()); }
      else if (this.is("FK")) { body = true; t.foreign_keys.push(this.fk()); }
      else trailing = true;
    }
    this.eat("}");
    return t;
  }
  column() {
    const c = { name: this.eat("ID").v, type: this.eat("INT", "TEXT", "BLOB").v, attributes: [] };
    for (;;) {
      if (this.opt("PRIMARY")) c.attributes.push({ type: "primary_key" });
      else if (this.opt("NOTNULL")) c.attributes.push({ type: "not_null" });
      else if (this.opt("UNIQUE")) c.attributes.push({ type: "unique" });
      else if (this.opt("DEFAULT")) { this.eat("("); c.attributes.push({ type: "default", value: this.lit() }); this.eat(")"); }
      else {
        const m = { MIN: "min", MAX: "max", MINLEN: "min_length", MAXLEN: "max_length" }[this.t];
        if (!m) return c;
        this.i++; this.eat("("); c.attributes.push({ type: m, value: this.eat("NUM").v }); this.eat(")");
      }
    }
  }
  names() { this.eat("("); const r = this.list(() => this.eat("ID").v); this.eat(")"); return r; }
  index() {
    const name = this.eat("IDXNAME").v.slice(1);
    const type = { PRIMARY: "primary", UNIQUE: "unique_btree", INDEX: "btree" }[this.eat("PRIMARY", "UNIQUE", "INDEX").t];
    return { name, columns: this.names(), type };
  }
  fk() {
    this.eat("FK");
    const f = { child_keys: this.names(), parent_keys: null, parent_table: "", actions: [] };
    this.eat("REF"); f.parent_table = this.eat("ID").v; f.parent_keys = this.names();
    while (this.is("ONUPD", "ONDEL")) {
      const on = this.eat("ONUPD", "ONDEL").t === "ONUPD" ? "UPDATE" : "DELETE";
      this.opt("DO");
      const d = { NOACT: "NO ACTION", CASCADE: "CASCADE", SETNULL: "SET NULL", SETDEF: "SET DEFAULT", RESTRICT: "RESTRICT" }[this.eat("NOACT", "CASCADE", "SETNULL", "SETDEF", "RESTRICT").t];
      f.actions.push({ on, do: d });
    }
    return f;
  }
  action() {
    const a = { annotations: [], name: "", inputs: [], vis: [], mut: [], aux: [], statements: [] };
    while (this.is("ATVAR")) {
      let s = this.eat("ATVAR").v.slice(1); this.eat("(");
      const attrs = this.list(() => { const k = this.eat("ID").v; this.eat("="); return k + "=" + this.lit(); });
      this.eat(")");
      a.annotations.push(s + "(" + attrs.join(",") + ")");
    }
    this.eat("ACTION"); a.name = this.eat("ID").v; this.eat("(");
    if (this.is("VAR")) a.inputs.push(this.eat("VAR").v);
    while (this.opt(",")) a.inputs.push(this.eat("VAR").v);
    this.eat(")");
    for (;;) {
      if (this.is("PUBLIC", "PRIVATE")) a.vis.push(this.eat("PUBLIC", "PRIVATE").v);
      else if (this.is("VIEW")) a.mut.push(this.eat("VIEW").v);
      else if (this.is("OWNER")) a.aux.push(this.eat("OWNER").v);
      else break;
    }
    this.eat("{"); a.statements = this.stmts(); this.eat("}");
    return a;
  }
  init() { this.eat("INIT"); this.eat("("); this.eat(")"); this.eat("{"); const st = this.stmts(); this.eat("}"); return { statements: st }; }
  stmts() { const r = [this.stmt()]; while (this.is("SQL", "ID", "VAR")) r.push(this.stmt()); return r; }
  stmt() {
    const at = this.i;
    if (this.opt("SQL")) this.eat(";");
    else {
      if (this.is("VAR")) { this.list(() => this.eat("VAR")); this.eat("="); }
      this.eat("ID"); if (this.opt(".")) this.eat("ID");
      this.eat("(");
      if (!this.is(")", ",")) this.expr(0);
      while (this.opt(",")) this.expr(0);
      this.eat(")"); this.eat(";");
    }
    return this.k.slice(at, this.i).map((x) => x.v).join("").trim();
  }
  expr(min) {
    if (this.opt("NUM", "STR", "VAR", "ATVAR")) { /* atom */ }
    else if (this.opt("(")) { this.expr(0); this.eat(")"); }
    else if (this.opt("+", "-", "~")) this.expr(11);
    else if (this.opt("NOT")) this.expr(4);
    else if (this.opt("ID")) {
      this.eat("(");
      if (this.opt("*")) { /* count(*) */ }
      else if (!this.is(")")) { this.expr(0); while (this.opt(",")) this.expr(0); }
      this.eat(")");
    } else this.fail("expression");
    const P = { "||": 10, "*": 9, "/": 9, "%": 9, "+": 8, "-": 8, "<<": 7, ">>": 7, "&": 7, "|": 7, "<": 6, "<=": 6, ">": 6, ">=": 6, "=": 5, "==": 5, "!=": 5, "<>": 5, AND: 3, OR: 2 };
    for (;;) {
      const p = P[this.t];
      if (p === undefined || p < min) return;
      this.i++; this.expr(p + 1);
    }
  }
}

function sem(cls, why) { throw new Reject("semantic", cls, why); }

// flags.unsure is set where the language leaves the verdict open (see DESIGN.md)
function build(s, oracle, flags) {
  if (s.inits.length > 1) sem("more than one init", "");
  const out = { owner: "", name: s.name };
  for (const a of s.actions) {
    if (a.vis.length > 1) sem("action visibility already specified", a.name);
    if (a.mut.length > 1) sem("action mutability already specified", a.name);
    if (a.aux.length > 1) sem("action auxiliary already specified", a.name);
  }
  const actions = s.actions.map((a) => ({ name: a.name, annotations: a.annotations, inputs: a.inputs, public: a.vis[0] === "public", mutability: a.mut.length ? "view" : "update", auxiliaries: a.aux, statements: a.statements }));
  for (const i of s.inits) actions.push({ name: "init", annotations: [], inputs: [], public: false, mutability: "update", auxiliaries: [], statements: i.statements });
  out.tables = s.tables; out.actions = actions; out.extensions = s.exts;
  // ---- declared rules
  const exts = new Set();
  for (const e of s.exts) { if (exts.has(e.alias)) sem("duplicate extension", e.alias); exts.add(e.alias); }
  const tables = new Map();
  for (const t of s.tables) {
    if (tables.has(t.name)) sem("duplicate table", t.name);
    const cols = new Set(); tables.set(t.name, cols);
    for (const c of t.columns) {
      if (cols.has(c.name)) sem("duplicate column", c.name);
      cols.add(c.name);
      const seen = new Set();
      for (const a of c.attributes) {
        if (seen.has(a.type)) sem("duplicate attribute", a.type);
        seen.add(a.type);
        if (c.type === "int" && /_length$/.test(a.type)) sem("attribute not allowed", a.type);
        if (c.type === "text" && (a.type === "min" || a.type === "max")) sem("attribute not allowed", a.type);
      }
    }
    const idx = new Set();
    for (const x of t.indexes) {
      if (idx.has(x.name) || cols.has(x.name)) sem("duplicate index", x.name);
      idx.add(x.name);
      for (const c of x.columns) if (!cols.has(c)) sem("column not found", c);
    }
  }
  const acts = new Set();
  for (const a of actions) {
    if (acts.has(a.name)) sem("duplicate action", a.name);
    acts.add(a.name);
    const ps = new Set();
    for (const p of a.inputs) { if (ps.has(p)) sem("duplicate param", p); ps.add(p); }
  }
  for (const t of s.tables) for (const f of t.foreign_keys) {
    for (const c of f.child_keys) if (!tables.get(t.name).has(c)) sem("column not found", c);
    if (!tables.has(f.parent_table)) sem("table not found", f.parent_table);
    for (const c of f.parent_keys) if (!tables.get(f.parent_table).has(c)) sem("column not found", c);
    const on = new Set();
    for (const a of f.actions) { if (on.has(a.on)) sem("duplicate foreign key action", a.on); on.add(a.on); }
  }
  for (const a of actions) {
    const vars = new Set(a.inputs);
    const args = (list) => {
      for (const p of list) if (p !== null) {
        if (p[0] === "$" && !vars.has(p)) sem("variable not found", p);
        if (p[0] === "@" && p !== "@caller") sem("variable not found", p);
      }
    };
    for (const st of a.statements) {
      const o = oracle(st);
      if (o.died) flags.unsure = true;
      if (!o.ok) sem("statement", st);
      if (o.kind === "call") { if (!acts.has(o.method)) sem("action not found", o.method); args([...o.args, ...o.nested]); }
      if (o.kind === "ext") {
        if (!exts.has(o.ext)) sem("extension not found", o.ext);
        args([...o.args, ...o.nested]);
        const line = new Set();
        for (const r of o.receivers) { if (line.has(r)) sem("duplicate variable", r); line.add(r); }
        for (const r of o.receivers) vars.add(r);
      }
    }
  }
  return out;
}

// text: a JS string (already decoded the way the compiler decodes bytes: invalid UTF-8 becomes U+FFFD)
export function compile(text, oracle) {
  const flags = { unsure: false };
  try {
    const l = lex(text);
    if (l.err) return { ok: false, stage: "lex", cls: "syntax", why: l.err };
    const ast = new Parser(l.toks).source();
    const schema = build(ast, oracle, flags);
    return { ok: true, schema, unsure: flags.unsure };
  } catch (e) {
    if (e instanceof Reject) return { ok: false, stage: e.stage, cls: e.cls, why: `${e.cls}: ${e.message}`, unsure: flags.unsure };
    throw e;
  }
}

// canonical form for structural comparison: absent, null and empty lists are the same thing
export function canon(s) {
  const l = (x, f) => (x || []).map(f);
  return JSON.stringify({
    owner: s.owner || "", name: s.name,
    tables: l(s.tables, (t) => ({
      name: t.name,
      columns: l(t.columns, (c) => ({ name: c.name, type: c.type, attributes: l(c.attributes, (a) => ({ type: a.type, value: a.value === undefined ? null : a.value })) })),
      indexes: l(t.indexes, (x) => ({ name: x.name, columns: l(x.columns, String), type: x.type })),
      foreign_keys: l(t.foreign_keys, (f) => ({ child_keys: l(f.child_keys, String), parent_keys: l(f.parent_keys, String), parent_table: f.parent_table, actions: l(f.actions, (a) => ({ on: a.on, do: a.do })) })),
    })),
    actions: l(s.actions, (a) => ({ name: a.name, annotations: l(a.annotations, String), inputs: l(a.inputs, String), public: a.public, mutability: a.mutability, auxiliaries: l(a.auxiliaries, String), statements: l(a.statements, String) })),
    extensions: l(s.extensions, (e) => ({ name: e.name, config: l(e.config, (c) => ({ argument: c.argument, value: c.value })), alias: e.alias })),
  });
}

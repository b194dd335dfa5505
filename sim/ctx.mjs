// ctx.mjs - what every check needs: compiled programs, the model, fresh sessions.
import { Oracle, loadModule } from "./hosts.mjs";
import { Expect } from "./cli.mjs";
import fs from "node:fs";
import path from "node:path";
import { REPO } from "./build.mjs";
import { LibProc, WebProc } from "./sessions.mjs";

// Names of environment variables worth setting: the usual ones and every capital word that
// occurs as a text in the code (a dictionary for the generator, nothing is judged by it).
function envNames() {
  const names = new Set("HOME USER LOGNAME PATH PWD OLDPWD SHELL TERM COLORTERM NO_COLOR CLICOLOR FORCE_COLOR COLUMNS LINES LANG LANGUAGE LC_ALL LC_CTYPE LC_MESSAGES TZ TMPDIR TMP TEMP EDITOR PAGER DEBUG VERBOSE TRACE CI SOURCE_DATE_EPOCH OUTPUT OUT OUTDIR CONFIG XDG_CONFIG_HOME XDG_CACHE_HOME KUNEIFORM KUNEIFORM_OUTPUT KUNEIFORM_OUT KUNEIFORM_TRACE KUNEIFORM_DEBUG KUNEIFORM_HOME KF_OUTPUT KF_TRACE KF_DEBUG KWIL_HOME".split(" "));
  const walk = (d) => { for (const e of fs.readdirSync(d, { withFileTypes: true }).sort((a, b) => a.name < b.name ? -1 : 1)) { const p = path.join(d, e.name); if (e.isDirectory()) { if (!/^[._]|node_modules|kfgrammar/.test(e.name)) walk(p); } else if (/\.go$/.test(e.name) && !/_test\.go$/.test(e.name)) for (const m of fs.readFileSync(p, "utf8").matchAll(/["`]([A-Z][A-Z0-9_]{1,40})["`]/g)) names.add(m[1]); } };
  try { walk(REPO); } catch { /* no dictionary */ }
  return [...names].sort();
}
export function makeCtx(build) {
  const lazy = (f) => { let v; return () => (v === undefined ? (v = loadModule(`${build}/${f}.wasm`)) : v); };
  const cli = lazy("cli"), lib = lazy("lib"), web = lazy("web"), libi = lazy("libi");
  const oracle = new Oracle(`${build}/oracle.wasm`);
  let names;
  return {
    dir: build, envNames: () => names ||= envNames(),
    get cli() { return cli(); }, get lib() { return lib(); }, get web() { return web(); }, get libi() { return libi(); },
    oracle, expectOracle: (s) => oracle.judge(s), expect: new Expect(oracle),
    libParse(bytes, hash) { const l = new LibProc(lib(), { hash }); const r = l.call({ op: "parse" }, bytes); l.close(); return r || { ok: false, panic: "no answer" }; },
    webParse(text, hash) { const l = new WebProc(web(), { hash }); const r = l.ready ? l.call(text) : null; l.close(); return r; },
  };
}

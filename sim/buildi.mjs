// buildi.mjs - the caller-threads program: the library packages with a scheduling point
// before every statement, package sync replaced, goroutines registered.
import fs from "node:fs";
import path from "node:path";
import { VERIF, REPO, sh, goEnv } from "./build.mjs";

const H = `${VERIF}/harness`;
const PKG = "github.com/kwilteam/kuneiform/zz_verif_threads";
async function repoFiles() { // every non-test Go file of the module that the program uses
  const out = await sh("go", ["list", "-deps", "-f", "{{if .Module}}{{.Module.Path}}\t{{.Dir}}\t{{range .GoFiles}}{{.}} {{end}}{{end}}", "./kfparser", "./utils", "./schema"], { cwd: REPO, env: goEnv({ CGO_ENABLED: "0" }) });
  const files = [];
  for (const l of out.split("\n")) { const [m, d, f] = l.split("\t"); if (m === "github.com/kwilteam/kuneiform") for (const x of f.trim().split(" ")) files.push(path.join(d, x)); }
  return files.sort();
}
let prep = null;
async function prepare(dir) {
  const tool = `${dir}/instrument`;
  await sh("go", ["build", "-o", tool, "./main.go"], { cwd: `${H}/instrument`, env: goEnv({ GO111MODULE: "off", GOFLAGS: "" }) });
  const files = await repoFiles();
  if (!files.length) throw new Error("no source files found to instrument");
  const base = {
    [`${REPO}/zz_verif_simsched/sched.go`]: `${H}/simsched/sched.go`, [`${REPO}/zz_verif_simsched/race_on.go`]: `${H}/simsched/race_on.go`, [`${REPO}/zz_verif_simsched/race_off.go`]: `${H}/simsched/race_off.go`,
    [`${REPO}/zz_verif_simsync/sync.go`]: `${H}/simsync/sync.go`, [`${REPO}/zz_verif_simsync/flag.go`]: `${H}/simsync/flag.go`,
    [`${REPO}/zz_verif_threads/core.go`]: `${H}/core/core.go`, [`${REPO}/zz_verif_threads/scenario.go`]: `${H}/threads/scenario.go`,
    [`${REPO}/zz_verif_threads/main_js.go`]: `${H}/threads/main_js.go`, [`${REPO}/zz_verif_threads/main_native.go`]: `${H}/threads/main_native.go`,
  };
  const overlays = [];
  for (const level of [2, 1]) {
    const d = `${dir}/instr${level}`; fs.mkdirSync(d, { recursive: true });
    const r = JSON.parse(await sh(tool, ["-level", String(level), "-out", d, ...files]));
    const f = `${dir}/overlay-i${level}.json`;
    fs.writeFileSync(f, JSON.stringify({ Replace: { ...base, ...r.replace } }));
    fs.writeFileSync(`${dir}/sites-${level}.json`, JSON.stringify(r.sites));
    overlays.push({ level, f });
  }
  return overlays;
}
// Full instrumentation; when the code uses something the rewriting cannot handle (it
// does not compile), scheduling points only.
export async function buildInstrumented(dir, race) {
  prep ||= prepare(dir);
  let err;
  for (const { level, f } of await prep) {
    try {
      if (race) await sh("go", ["build", "-race", "-overlay", f, "-o", `${dir}/threads-race`, PKG], { cwd: REPO, env: goEnv({ CGO_ENABLED: "1" }) });
      else await sh("go", ["build", "-overlay", f, "-o", `${dir}/libi.wasm`, PKG], { cwd: REPO, env: goEnv({ GOOS: "js", GOARCH: "wasm" }) });
      fs.writeFileSync(`${dir}/level-${race ? "race" : "libi"}`, String(level));
      return;
    } catch (e) { err = e; }
  }
  throw err;
}

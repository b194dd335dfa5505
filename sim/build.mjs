// build.mjs - compiles the programs under simulation from /repo's working tree.
import { spawn } from "node:child_process";
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";

export const VERIF = path.resolve(path.dirname(fileURLToPath(import.meta.url)), "..");
export const REPO = process.env.VERIF_REPO || "/repo";
export function goEnv(extra = {}) {
  return { ...process.env, HOME: "/root", PATH: "/opt/veriftools/go1.27.3/bin:" + (process.env.PATH || "/usr/bin:/bin"), GOPATH: "/root/go", GOMODCACHE: "/root/go/pkg/mod", GOCACHE: process.env.VERIF_GOCACHE || "/root/.cache/go-build", GOTOOLCHAIN: "local", GOFLAGS: "-mod=mod -buildvcs=false", GOWORK: "off", GOPROXY: "off", GOSUMDB: "off", ...extra };
}
export function sh(cmd, args, opts = {}) {
  return new Promise((res, rej) => {
    const p = spawn(cmd, args, { stdio: ["ignore", "pipe", "pipe"], ...opts });
    let out = ""; p.stdout.on("data", (d) => (out += d)); p.stderr.on("data", (d) => (out += d));
    p.on("error", rej);
    p.on("close", (c) => c === 0 ? res(out) : rej(new Error(`${cmd} ${args.join(" ")} failed (${c}):\n${out.slice(-4000)}`)));
  });
}
const WASM = { GOOS: "js", GOARCH: "wasm" };
const go = (dir, out, pkg, overlay, extra = [], env = WASM) => sh("go", ["build", ...(overlay ? ["-overlay", overlay] : []), ...extra, "-o", out, pkg], { cwd: REPO, env: goEnv(env) });

// programs: subset of cli, web, lib, oracle, libi, race
export async function build(dir, programs) {
  fs.mkdirSync(dir, { recursive: true });
  const overlay = path.join(dir, "overlay.json");
  fs.writeFileSync(overlay, JSON.stringify({ Replace: {
    [`${REPO}/zz_verif_lib/main.go`]: `${VERIF}/harness/lib/main.go`,
    [`${REPO}/zz_verif_lib/core.go`]: `${VERIF}/harness/core/core.go`,
    [`${REPO}/zz_verif_oracle/main.go`]: `${VERIF}/harness/oracle/main.go`,
  } }));
  const jobs = {
    cli: () => go(dir, `${dir}/cli.wasm`, "."),
    web: () => go(dir, `${dir}/web.wasm`, "./wasm"),
    lib: () => go(dir, `${dir}/lib.wasm`, "./zz_verif_lib", overlay),
    oracle: () => go(dir, `${dir}/oracle.wasm`, "./zz_verif_oracle", overlay),
    libi: async () => (await import("./buildi.mjs")).buildInstrumented(dir, false),
    race: async () => (await import("./buildi.mjs")).buildInstrumented(dir, true),
  };
  await Promise.all([...programs].map((p) => jobs[p]()));
}

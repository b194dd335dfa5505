// meta.mjs - per property: programs, budgets, level, assumptions.
const CLI = ["cli", "oracle"];
const HOST = "simulated host: file system, clocks, timers, randomness, environment, process scheduling, console (in-memory, seeded)";
const TRUST = "github.com/kwilteam/kwil-db/parse (validity of the text of one statement) is a dependency outside the repository: it runs for real inside the tool and answers for the reference model";
const real = ["kuneiform command line tool (cmd, kfparser, kfgrammar, schema, utils) compiled unmodified from /repo", "cobra, antlr runtime, kwil-db/parse", "Go runtime, os, encoding/json (js/wasm port)"];
const stubs = [HOST];
const assume = ["crash model: process death; the kernel and its page cache survive (loss of power is C26's)", "the tool is compiled for js/wasm; code chosen by build constraints for other platforms is not exercised", TRUST, "sampling, not proof: only the seeds listed ran"];
const assumeP = ["crash model: directory changes reach the disk in order, each at some time after it was made or when a file is synchronised; unsynchronised bytes of a file may be missing, cut, zeroed in part or all there; synchronised ones survive (a disk that lies about that is out of scope)", ...assume.slice(1)];
const realLib0 = ["kfparser, kfgrammar, schema, utils compiled unmodified from /repo", "antlr runtime, kwil-db/parse", "Go runtime (js/wasm port)"];
const realLib = ["kfparser, kfgrammar, schema, utils from /repo with a scheduling point inserted before every statement (overlay, /repo untouched)", "antlr runtime, kwil-db/parse", "Go runtime (js/wasm port)"];
const realRace = ["kfparser, kfgrammar, schema, utils from /repo with scheduling points, compiled natively (linux/amd64) with the race detector", "antlr runtime, kwil-db/parse", "Go runtime"];
const realWeb = ["wasm module compiled unmodified from /repo", "antlr runtime, kwil-db/parse", "Go runtime (js/wasm port)"];
const stubsI = ["thread scheduling (baton, seeded hand-overs)", "package sync in the instrumented packages (same guarantees, waits hand the baton on)", HOST];
const assumeI = ["threads interleave at statement granularity inside the repository's packages; dependencies run between two hand-overs", TRUST, "sampling, not proof: only the seeds listed ran"];
const assumeR = [...assumeI, "the race detector of the Go toolchain reports exactly the accesses not ordered by the program's own synchronisation within its history window"];
const q = (runs, seconds) => ({ runs, seconds });
export const META = {
  C01: { programs: CLI, level: "exploration", quick: q(1350, 200), thorough: q(40000, 800), real, stubs, assumptions: assume },
  C02: { programs: CLI, level: "exploration", quick: q(6000, 200), thorough: q(60000, 800), real, stubs, assumptions: assume },
  C03: { programs: CLI, level: "exploration", quick: q(2400, 200), thorough: q(40000, 800), real, stubs, assumptions: assume },
  C04: { programs: CLI, level: "exploration", quick: q(1800, 200), thorough: q(40000, 800), real, stubs, assumptions: assume },
  C05: { programs: CLI, level: "exploration", quick: q(1400, 200), thorough: q(20000, 800), real, stubs, assumptions: assume },
  C06: { programs: CLI, level: "exploration", quick: q(900, 200), thorough: q(20000, 800), real, stubs, assumptions: assume },
  C26: { programs: CLI, level: "exploration", quick: q(1500, 200), thorough: q(40000, 800), real, stubs, assumptions: assumeP },
  C10: { programs: ["cli", "oracle", "lib", "libi"], level: "exploration", quick: q(650, 200), thorough: q(20000, 800), real: [...real, "library packages, plain and with scheduling points"], stubs, assumptions: assume },
  C12: { programs: CLI, level: "exploration", quick: q(1600, 200), thorough: q(30000, 800), real, stubs, assumptions: assume },
  C15: { programs: CLI, level: "exploration", quick: q(2000, 200), thorough: q(40000, 800), real, stubs, assumptions: assume },
  C19: { programs: CLI, level: "exploration", quick: q(1800, 200), thorough: q(40000, 800), real, stubs, assumptions: assume },
  C20: { programs: CLI, level: "exploration", quick: q(3750, 200), thorough: q(60000, 800), real, stubs, assumptions: assume },
  C07: { programs: ["libi", "lib", "oracle"], level: "exploration", quick: q(2250, 200), thorough: q(100000, 800), real: realLib, stubs: stubsI, assumptions: assumeI },
  C08: { programs: ["race", "libi", "lib", "oracle"], level: "exploration", quick: q(1200, 200), thorough: q(40000, 800), real: realRace, stubs: stubsI, assumptions: assumeR },
  C09: { programs: ["lib", "oracle"], level: "exploration", quick: q(780, 200), thorough: q(30000, 800), real: realLib0, stubs, assumptions: assume },
  C11: { programs: ["web", "lib", "oracle"], level: "exploration", quick: q(900, 200), thorough: q(30000, 800), real: realWeb, stubs, assumptions: assume },
  C13: { programs: ["libi", "lib", "oracle"], level: "exploration", quick: q(1560, 200), thorough: q(60000, 800), real: realLib, stubs: stubsI, assumptions: assumeI },
  C14: { programs: ["libi", "lib", "oracle"], level: "exploration", quick: q(1000, 150), thorough: q(60000, 800), real: realLib, stubs: stubsI, assumptions: assumeI },
  C16: { programs: ["cli", "oracle", "lib", "web"], level: "exploration", quick: q(900, 200), thorough: q(30000, 800), real: [...real, "web module", "library packages"], stubs, assumptions: assume },
  C17: { programs: ["libi", "lib", "oracle"], level: "exploration", quick: q(2000, 200), thorough: q(60000, 800), real: realLib, stubs: stubsI, assumptions: assumeI },
  C23: { programs: ["libi", "race", "lib", "oracle"], level: "exploration", quick: q(1600, 200), thorough: q(40000, 800), real: [...realLib, "the same packages compiled natively with the race detector"], stubs: stubsI, assumptions: assumeR },
  C24: { programs: ["cli", "oracle", "lib"], level: "exploration", quick: q(1400, 200), thorough: q(20000, 800), real: [...real, "library packages"], stubs, assumptions: assume },
  C25: { programs: ["lib", "oracle"], level: "exploration", quick: q(1200, 150), thorough: q(60000, 800), real: realLib0, stubs, assumptions: assume },
  C18: { programs: ["lib", "web", "oracle"], level: "exploration", quick: q(120, 150), thorough: q(4000, 800), real: [...realLib0, "web module"], stubs, assumptions: [...assume, "growth is told from a filling cache by continuing for thousands of calls; a cache bounded at more entries than that would be reported"] },
};

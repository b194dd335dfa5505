// known.mjs - the committed list of recorded findings.
import fs from "node:fs";
const text = fs.readFileSync(new URL("../known-findings.txt", import.meta.url), "utf8");
const ids = new Set([...text.matchAll(/^finding: property=\S+ id=(\S+)/gm)].map((m) => m[1]));
export const isKnown = (id) => ids.has(id);

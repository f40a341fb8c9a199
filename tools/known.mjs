// node tools/known.mjs <ID> <index in evidence/replay/ID.json> <description>   (a human decision, never run by a check)
import { readFileSync, writeFileSync } from "node:fs";
const [id, i, ...what] = process.argv.slice(2);
const v = JSON.parse(readFileSync(`evidence/replay/${id}.json`, "utf8")).violations[+i];
const k = JSON.parse(readFileSync("known_findings.json", "utf8"));
k.findings.push({ property: id, status: "known", keys: [v.key], what: what.join(" ") });
writeFileSync("known_findings.json", JSON.stringify(k, null, 1));
console.log(v.key);

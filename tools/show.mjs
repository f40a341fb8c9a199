import { readFileSync } from "node:fs";
const f = JSON.parse(readFileSync(process.argv[2], "utf8"));
for (const v of f.violations.slice(0, Number(process.argv[3] ?? 20))) console.log(v.what, "\n");

import { writeFileSync } from "node:fs";
import { properties } from "./properties.mjs";
import { checks } from "./checks.mjs";
const V = new URL("..", import.meta.url).pathname;
writeFileSync(V + "properties.jsonl", properties.map((p) => {
  if (p.title.length > 80) throw new Error(p.id + " title too long");
  return JSON.stringify({
    id: p.id, title: p.title, statement: p.statement,
    quantifier: { over: p.over, text: p.q }, why_tests_cant: p.why,
    anchors: { files: p.files, mechanism: p.mech, observe_at: p.observe, hook_needed: null },
  });
}).join("\n") + "\n");
const claimed = new Set(checks.map((c) => c.property));
for (const c of claimed) if (!properties.some((p) => p.id === c)) throw new Error("unknown " + c);
const m = {
  version: 1,
  setup_cmd: "node tools/setup.mjs",
  checks: checks.map((c) => ({
    property: c.property,
    quick_cmd: `node run.mjs ${c.property} quick`,
    thorough_cmd: `node run.mjs ${c.property} thorough`,
    technique: c.technique, level: c.level, level_note: c.note,
  })),
  not_applicable: properties.filter((p) => !claimed.has(p.id)).map((p) => ({
    property: p.id, reason: p.notApplicable ?? "No check built yet; nothing is claimed for it.",
  })),
  notes: "Every check transpiles /repo's working tree with esbuild into a scratch directory, then explores exhaustively within the bounds recorded in its evidence file. No hooks in /repo are needed.",
};
writeFileSync(V + "MANIFEST.json", JSON.stringify(m, null, 1) + "\n");
console.log("properties", properties.length, "claimed", claimed.size);

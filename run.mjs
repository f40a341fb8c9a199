// node run.mjs <ID> quick|thorough           run a check
// node run.mjs <ID> replay <file>            re-execute one recorded violation
import { mkdirSync, mkdtempSync, readFileSync, rmSync, writeFileSync, existsSync } from "node:fs";
import { join } from "node:path";
import { tmpdir, cpus } from "node:os";
import { spawn } from "node:child_process";
import { build, VERIF } from "./lib/build.mjs";

const [id, mode = "quick", fileArg] = process.argv.slice(2);
const file = fileArg && (await import("node:path")).resolve(fileArg);
if (!/^P\d\d$/.test(id ?? "")) { console.error("usage: run.mjs P01 quick|thorough|replay"); process.exit(2); }
const t0 = Date.now();
const NODE26 = "/opt/node/node_modules/.bin/node";
const NODE = existsSync(NODE26) ? NODE26 : process.execPath;
const scratch = mkdtempSync(join(tmpdir(), `vp-${id}-`));
const cleanup = () => { rmSync(scratch, { recursive: true, force: true }); };
process.on("exit", cleanup);
for (const s of ["SIGINT", "SIGTERM"]) process.on(s, () => process.exit(2));
const dist = await build(join(scratch, "build"));

const props = readFileSync(join(VERIF, "properties.jsonl"), "utf8").trim().split("\n").map((l) => JSON.parse(l));
if (!props.some((p) => p.id === id)) { console.error("unknown property " + id); process.exit(2); }
const mod = await import(`./checks/${id}.mjs`);
const tier = mode === "thorough" ? "thorough" : "quick";
const nWorkers = mode === "replay" ? 1 : Math.max(1, Math.min(mod.meta.workers ?? 8, cpus().length));
const limitMs = (mode === "thorough" ? mod.meta.thoroughLimitS ?? 14400 : mod.meta.quickLimitS ?? 600) * 1000;

const env = {
  ...process.env, TZ: "UTC", NO_COLOR: "1", LC_ALL: "C.UTF-8",
  VP_BUILD: dist, VP_SCRATCH: scratch, VP_TIER: tier, VP_SHARDS: String(nWorkers), VP_MODE: mode, VP_FILE: file ?? "",
  VP_DEADLINE: String(Date.now() + limitMs), NODE_NO_WARNINGS: "1",
};
for (const k of ["FORCE_COLOR", "NODE_OPTIONS"]) delete env[k];
const results = await Promise.all(Array.from({ length: nWorkers }, (_, i) => new Promise((resolve) => {
  const out = join(scratch, `w${i}.json`);
  const p = spawn(NODE, ["--max-old-space-size=3000", "--expose-gc", join(VERIF, "lib/worker.mjs"), id, String(i), out], {
    env, stdio: ["ignore", "pipe", "pipe"], cwd: scratch,
  });
  let log = "";
  p.stdout.on("data", (d) => { if (log.length < 20000) log += d; });
  p.stderr.on("data", (d) => { if (log.length < 20000) log += d; });
  // Two minutes of grace after the soft deadline, then the worker is stopped.
  const killer = setTimeout(() => p.kill("SIGKILL"), limitMs + 120000);
  p.on("close", (code) => {
    clearTimeout(killer);
    let r; try { r = JSON.parse(readFileSync(out, "utf8")); } catch { r = undefined; }
    resolve({ code, log, r, i });
  });
})));
const broken = results.filter((x) => x.r == null || x.r.crash);
if (broken.length) {
  // A worker that dies took the code under test down with it, or our harness is
  // broken: either way there is no clean bill.
  for (const b of broken) console.error(`worker ${b.i} exit ${b.code}\n${b.r?.crash ?? ""}\n${b.log}`);
}
const ok = results.filter((x) => x.r);
const sum = (k) => ok.reduce((a, x) => a + (x.r[k] ?? 0), 0);
const outcomes = {};
for (const x of ok) for (const [k, v] of Object.entries(x.r.outcomes)) outcomes[k] = (outcomes[k] ?? 0) + v;
const distinct = new Set(ok.flatMap((x) => x.r.distinct));
const bounds = Object.assign({}, ...ok.map((x) => x.r.bounds));
const capped = ok.some((x) => x.r.capped), stopped = ok.some((x) => x.r.stopped);
let violations = ok.flatMap((x) => x.r.violations);
violations.sort((a, b) => a.size - b.size || (a.key < b.key ? -1 : 1));
if (broken.length) {
  const b = broken[0];
  violations.push({ key: "worker-crash", size: 0, what: "the code under test (or the harness) ended a worker: " + (b.r?.crash ?? b.log).slice(0, 1500), data: null });
}

const known = existsSync(join(VERIF, "known_findings.json")) ? JSON.parse(readFileSync(join(VERIF, "known_findings.json"), "utf8")) : { findings: [] };
const mine = known.findings.filter((f) => f.property === id && f.status === "known");
const isKnown = (v) => mine.find((f) => f.keys.includes(v.key));
const fresh = violations.filter((v) => !isKnown(v));
const seenKnown = new Set(violations.map(isKnown).filter(Boolean));

if (mode === "replay") {
  for (const v of violations) console.log(v.what);
  console.log(violations.length ? "REPRODUCED" : "not reproduced");
  process.exit(violations.length ? 1 : 0);
}
for (const f of seenKnown) console.log(`KNOWN-FINDING: property=${id} ${f.what}`);
let exit = 0;
rmSync(join(VERIF, "evidence", "replay", `${id}.json`), { force: true });
const rep = [];
if (fresh.length) {
  exit = 1;
  const dir = join(VERIF, "evidence", "replay");
  mkdirSync(dir, { recursive: true });
  const path = join(dir, `${id}.json`);
  writeFileSync(path, JSON.stringify({ property: id, violations: fresh.slice(0, Number(process.env.VP_KEEP ?? 20)) }, null, 1));
  for (const v of fresh.slice(0, 5)) console.error(`--- ${v.key}\n${v.what}`);
  console.log(`VIOLATION property=${id} replay=${path}`);
  rep.push(...fresh.slice(0, 20).map((v) => ({ key: v.key, what: v.what.slice(0, 2000) })));
}
const wall = (Date.now() - t0) / 1000;
const samples = [];
for (let k = 0; samples.length < 12 && k < 12; k++) for (const x of ok) if (x.r.samples[k] !== undefined && samples.length < 12) samples.push(x.r.samples[k]);
mkdirSync(join(VERIF, "evidence"), { recursive: true });
const props1 = JSON.parse(readFileSync(join(VERIF, "MANIFEST.json"), "utf8")).checks.find((c) => c.property === id);
writeFileSync(join(VERIF, "evidence", `${id}.json`), JSON.stringify({
  property: id, tier, seed: Number(process.env.VERIF_SEED ?? 1), level: props1?.level ?? "model_checking",
  coverage: {
    states: sum("states"), transitions: sum("transitions"),
    traces_validated_against_impl: sum("execs"), exhaustive: !capped && !stopped && broken.length === 0,
    evaluations: sum("execs"), distinct_nontrivial: distinct.size, rule: mod.meta.rule, samples,
    outcomes, bounds,
  },
  assumptions: mod.meta.assumptions ?? [],
  ...(rep.length ? { violations: rep } : {}),
  known_findings_seen: [...seenKnown].map((f) => f.what),
  wall_s: wall,
}, null, 1));
console.log(`${id} ${tier}: states=${sum("states")} transitions=${sum("transitions")} executions=${sum("execs")} distinct=${distinct.size} violations=${fresh.length}${capped ? " CAPPED" : ""} ${wall.toFixed(1)}s`);
if (Object.keys(outcomes).length) console.log("outcomes " + JSON.stringify(outcomes));
process.exit(exit);

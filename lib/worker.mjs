import { writeFileSync, readFileSync, existsSync } from "node:fs";
import { join } from "node:path";
const [id, shardS, out] = process.argv.slice(2);
const shard = Number(shardS), shards = Number(process.env.VP_SHARDS), tier = process.env.VP_TIER;
const dist = process.env.VP_BUILD, deadline = Number(process.env.VP_DEADLINE);
const R = { states: 0, transitions: 0, execs: 0, outcomes: {}, distinct: new Set(), bounds: {}, samples: [], violations: [], capped: false };
// Listed findings are reported once per key and never end an enumeration early.
const KF = new URL("../known_findings.json", import.meta.url);
const knownKeys = new Set(existsSync(KF) ? JSON.parse(readFileSync(KF, "utf8")).findings.filter((f) => f.property === id && f.status === "known").flatMap((f) => f.keys) : []);
const seenKnown = new Map();
let flushed = false, freshN = 0;
function flush(crash) {
  if (flushed) return; flushed = true;
  writeFileSync(out, JSON.stringify({ ...R, distinct: [...R.distinct], crash }));
}
let current = null;
export class Stop extends Error {}
let seq = 0;
const ctx = {
  id, shard, shards, tier, quick: tier === "quick", scratch: join(process.env.VP_SCRATCH, "s" + shard), dist,
  load: (p) => import(join(dist, p)),
  // Deterministic sharding of an enumeration: each caller numbers its cases.
  mine: (i) => i % shards === shard,
  next: () => (seq++) % shards === shard,
  state(n = 1) { R.states += n; }, transition(n = 1) { R.transitions += n; }, exec(n = 1) { R.execs += n; },
  outcome(k, n = 1) { R.outcomes[k] = (R.outcomes[k] ?? 0) + n; },
  distinct(k) { if (R.distinct.size < 200000) R.distinct.add(hash(k)); },
  sample(s) { if (R.samples.length < 12) R.samples.push(s); },
  bound(k, v) { R.bounds[k] = v; },
  begin(d) { current = d; },
  violation(key, what, data = current, size) {
    const v = { key, what, data, size: size ?? JSON.stringify(data ?? key).length };
    if (knownKeys.has(key)) {
      const old = seenKnown.get(key);
      if (old === undefined) { seenKnown.set(key, R.violations.length); R.violations.push(v); }
      else if (v.size < R.violations[old].size) R.violations[old] = v;
      return;
    }
    R.violations.push(v);
    if (++freshN >= Number(process.env.VP_KEEP ?? 60)) { R.stopped = true; throw new Stop(); }
  },
  checkTime() { if (Date.now() > deadline) { R.capped = true; throw new Stop(); } },
};
function hash(s) { // 52-bit string hash
  s = String(s); let h1 = 0xdeadbeef, h2 = 0x41c6ce57;
  for (let i = 0; i < s.length; i++) { const c = s.charCodeAt(i); h1 = Math.imul(h1 ^ c, 2654435761); h2 = Math.imul(h2 ^ c, 1597334677); }
  return ((h1 >>> 0) * 1048576 + (h2 >>> 12)).toString(36);
}
process.on("uncaughtException", (e) => { flush(`uncaught at ${JSON.stringify(current)}: ${e?.stack ?? e}`); process.exit(3); });
process.on("unhandledRejection", (e) => { flush(`unhandled rejection at ${JSON.stringify(current)}: ${e?.stack ?? e}`); process.exit(3); });
process.on("exit", (c) => flush(flushed ? undefined : `worker exited early (${c}) at ${JSON.stringify(current)}`));
const mod = await import(`../checks/${id}.mjs`);
try {
  if (process.env.VP_MODE === "replay") {
    const f = JSON.parse(readFileSync(process.env.VP_FILE, "utf8"));
    if (!mod.replay) throw new Error("check has no replay()");
    for (const v of f.violations) await mod.replay(ctx, v.data);
  } else await mod.run(ctx);
  flush();
} catch (e) {
  if (e instanceof Stop) flush();
  else flush(`at ${JSON.stringify(current)}: ${e?.stack ?? e}`);
}
process.exit(0);

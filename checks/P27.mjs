// P27: the source-context protocol of runWith()/runWithSync()/runWithAsync().
import { api, show, product } from "../lib/prog.mjs";
export const meta = {
  rule: "For every list of up to three contexts (phase, synchronous or asynchronous answers, kind of disposal, internal annotations), every command line outcome, every entry point and every placement of one or two faults: the log of every call made to the contexts, the parser and the handlers follows the two-phase protocol, and the reported result or failure is the expected one.",
  assumptions: ["a failing first pass may or may not give a seed: then phase 2 is asked of all two-pass contexts or of none", "what the parser reads is judged at the final pass only"],
};
const K = Symbol.for("p27/shared"), OWN = [0, 1, 2].map((i) => Symbol.for("p27/own" + i)), INT = [0, 1, 2].map((i) => Symbol.for("p27/int" + i));
const ALL = [["K", K], ...OWN.map((s, i) => ["o" + i, s]), ...INT.map((s, i) => ["i" + i, s])];
// a context kind: phase 1|2 (2e: phase 2 answers {}), async, dispose n|s|a|b|p, internal
export function kinds(full) { return [...product(["1", "2", "2e"], full ? [0, 1] : [0, 1], full ? ["n", "s", "a", "b"] : ["s", "a", "b"], full ? [0, 1] : [0])].map(([ph, as, d, int]) => ({ ph, as, d, int })); }
const tick = async (n) => { for (let i = 0; i < n; i++) await null; await new Promise((r) => setImmediate(r)); };
const quiet = (p) => (p.catch(() => {}), p);
class Fault extends Error { constructor(site) { super("fault " + site); this.site = site; } }
export function build(A, conf, async, log, faults, wrap) {
  const hit = (site) => { if (faults.includes(site)) throw new Fault(site); };
  const contexts = conf.map((k, i) => {
    const c = { id: k.dup !== undefined ? Symbol.for("p27/ctx" + k.dup) : Symbol.for("p27/ctx" + i), phase: k.bad ? k.bad === "none" ? undefined : k.bad : k.ph === "1" ? "single-pass" : "two-pass",
      getAnnotations(req, opts) {
        const p = req?.phase === "phase2" ? 2 : 1; log.push({ e: `p${p}:${i}`, parsed: req?.parsed, opts, has: !!req && "parsed" in req, req: req?.phase });
        const ans = () => p === 2 ? k.ph === "2e" ? {} : { [K]: `k${i}.2`, [OWN[i]]: `o${i}.2` } : { [K]: `k${i}.1`, [OWN[i]]: `o${i}.1` };
        if (k.as) return quiet((async () => { await tick(1 + (i * 7) % 3); log.push({ e: `done p${p}:${i}` }); hit(`p${p}:${i}`); return ans(); })());
        hit(`p${p}:${i}`); return ans();
      },
    };
    if (k.int) c.getInternalAnnotations = (req, ann) => { const p = req.phase === "phase2" ? 2 : 1; log.push({ e: `i${p}:${i}`, ann }); hit(`i${p}:${i}`); return k.int === 2 ? undefined : { [INT[i]]: `i${i}.${p}` }; };
    if (k.d === "s" || k.d === "b") c[Symbol.dispose] = () => { log.push({ e: `d:${i}` }); hit(`d:${i}`); };
    if (k.d === "a" || k.d === "b") c[Symbol.asyncDispose] = () => { log.push({ e: `D:${i}` }); return quiet((async () => { await tick(1); log.push({ e: `done D:${i}` }); hit(`d:${i}`); })()); };
    if (k.d === "p") c[Symbol.asyncDispose] = () => { log.push({ e: `D:${i}` }); hit(`d:${i}`); };
    return c;
  });
  let nc = 0, np = 0;
  const inner = A.optional(A.option("--p", A.vp.string()));
  const read = (state) => { const an = A.getAnnotations(state); return an === undefined ? undefined : Object.fromEntries(ALL.filter(([, s]) => s in an).map(([n, s]) => [n, an[s]])); };
  const probe = Object.create(Object.getPrototypeOf(inner), { ...Object.getOwnPropertyDescriptors(inner) });
  Object.defineProperty(probe, "parse", { value: (context) => { const n = ++np; log.push({ e: "parse", ann: read(context.state) }); hit("parse:" + n); return inner.parse(context); }, enumerable: true, configurable: true });
  const complete = (state, exec) => { const n = ++nc, ann = read(state); log.push({ e: "complete", ann, phase: exec?.phase }); hit("complete:" + n); const r = inner.complete(state, exec); return r.success ? { ...r, value: { cli: r.value, ann } } : r; };
  Object.defineProperty(probe, "complete", { value: async ? async (s, x) => { await tick(2); const r = complete(s, x); await tick(1); log.push({ e: "done complete" }); return r; } : complete, enumerable: true, configurable: true });
  if (async) { Object.defineProperty(probe, "mode", { value: "async", enumerable: true }); const sp = probe.parse; Object.defineProperty(probe, "parse", { value: async (c) => { await tick(1); return sp(c); }, enumerable: true }); Object.defineProperty(probe, "suggest", { value: async function* (c, p) { yield* inner.suggest(c, p); }, enumerable: true }); }
  return { contexts, parser: wrap.make(A, probe), get: wrap.get };
}
const rest = (A) => ({ n: A.optional(A.option("--n", A.vp.integer())) });
export const WRAPS = {
  obj: { make: (A, p) => A.object({ p, ...rest(A) }), get: (v) => v.p },
  merge: { make: (A, p) => A.merge(A.object({ p }), A.object(rest(A))), get: (v) => v.p },
  cmd: { make: (A, p) => A.or(A.command("go", A.object({ p, ...rest(A) })), A.command("other", A.object({}))), get: (v) => v.p, pre: ["go"] },
  tuple: { make: (A, p) => A.tuple([p, A.object(rest(A))]), get: (v) => v[0] },
  group: { make: (A, p) => A.object({ g: A.group("G", A.object({ p })), ...rest(A) }), get: (v) => v.g.p },
  map: { make: (A, p) => A.map(A.object({ p, ...rest(A) }), (v) => ({ w: v })), get: (v) => v.w.p },
};
// command lines: value | error at parse | error at complete | help | version | completion
const LINES = { value: ["--p", "x"], empty: [], badvalue: ["--n", "zz"], stuck: ["--p", "x", "--nope"], help: ["--help"], version: ["--version"], comp: ["--completion", "bash", "--"] };
const isMeta = (l) => l === "help" || l === "version" || l === "comp";
export async function once(A, d) {
  const log = [], { conf, line, entry, async, faults, wrap, handlers } = d, w = WRAPS[wrap], b = build(A, conf, async, log, faults, w);
  const on = (k) => (code) => { log.push({ e: "on:" + k, code }); if (faults.includes("on:" + k)) throw new Fault("on:" + k); return { on: k }; };
  const opts = { args: [...(w.pre && !isMeta(line) ? w.pre : []), ...LINES[line]], contextOptions: { tag: 1 }, stdout: () => log.push({ e: "stdout" }), stderr: () => log.push({ e: "stderr" }), onError: on("error"), help: { option: true, onShow: on("help") }, version: { option: true, value: "1", onShow: on("version") }, completion: { option: true, onShow: on("completion") } };
  if (handlers === "none") { delete opts.help; delete opts.version; delete opts.completion; }
  const r = {};
  try { let x = A[entry](b.parser, "prog", b.contexts, opts); r.promise = x instanceof Promise; if (entry === "runWithSync" && r.promise) { x.catch(() => {}); } else x = await x; r.value = x; } catch (e) { r.error = e; r.thrown = true; }
  const settled = log.length; await tick(4); r.late = log.slice(settled).map((x) => x.e).filter((e) => entry !== "runWithSync" || !e.startsWith("done"));
  return { log, r, get: b.get, opts };
}
const sync = (d) => d.entry === "runWithSync";
// the failures the disposal of a context gives, in order
function disposal(d) {
  return d.conf.map((k, i) => {
    const f = d.faults.includes("d:" + i) ? "fault d:" + i : undefined, S = sync(d);
    if (k.d === "n") return { ev: undefined };
    if (k.d === "s") return { ev: "d:" + i, err: f };
    if (k.d === "p") return { ev: "D:" + i, err: f };
    if (k.d === "b") return S ? { ev: "d:" + i, err: f } : { ev: "D:" + i, err: f, async: true };
    return S ? { ev: "D:" + i, err: "TypeError" } : { ev: "D:" + i, err: f, async: true };
  });
}
const errOf = (e) => e instanceof Fault ? e.message : e instanceof TypeError ? "TypeError" : e?.constructor?.name === "AggregateError" ? "Aggregate(" + e.errors.map(errOf).join(",") + ")" : e?.constructor?.name === "SuppressedError" ? `Suppressed(${errOf(e.error)},${errOf(e.suppressed)})` : `${e?.constructor?.name}: ${e?.message}`;
export function judge(d, o) {
  const { log, r } = o, E = log.map((x) => x.e).filter((e) => d.entry !== "runWithSync" || !e.startsWith("done")), n = d.conf.length, S = sync(d), count = (e) => E.filter((x) => x === e).length, first = (f) => E.findIndex(f), two = d.conf.map((k, i) => [k, i]).filter(([k]) => k.ph !== "1").map(([, i]) => i);
  if (r.late.length) return `calls after the run settled: ${r.late}`;
  if (S && r.promise) return "runWithSync returned a promise";
  if (!S && !r.thrown && !r.promise) return `${d.entry} did not return a promise`;
  const D = disposal(d);
  for (const [i, x] of D.entries()) {
    for (const e of ["d:" + i, "D:" + i]) { const want = e === x.ev ? 1 : 0; if (count(e) !== want) return `context ${i} (disposal ${d.conf[i].d}): ${e} called ${count(e)} times, expected ${want}`; }
    if (x.async && !d.faults.includes("d:" + i) && count("done D:" + i) !== 1) return `the disposal of context ${i} was not awaited`;
  }
  const dAt = first((e) => /^[dD]:/.test(e)); if (dAt >= 0) { const bad = E.slice(dAt).find((e) => /^(p\d|i\d|done p|parse|complete|done complete|on:)/.test(e)); if (bad) return `${bad} happened after disposal began`; }
  const dErr = D.map((x) => x.err).filter(Boolean), dispErr = !dErr.length ? undefined : dErr.length === 1 ? dErr[0] : `Aggregate(${dErr.join(",")})`;
  const report = (primary) => { const want = primary && dispErr ? `Suppressed(${dispErr},${primary})` : primary ?? dispErr; if (!want) return r.thrown ? `the run failed with ${errOf(r.error)}` : null; if (!r.thrown) return `the run succeeded, expected ${want}`; const got = errOf(r.error); return got === want ? null : `reported ${got}, expected ${want}`; };
  // validation
  const ids = d.conf.map((k, i) => k.dup ?? i); if (new Set(ids).size < n || d.conf.some((k) => k.bad)) { const c = E.find((e) => /^(p\d|i\d|parse|complete|on:)/.test(e)); if (c) return `${c} was called though the contexts are invalid`; return report("TypeError"); }
  // phase 1
  const p1 = []; let stop; for (let i = 0; i < n && !stop; i++) { p1.push("p1:" + i); if (S && d.conf[i].as) stop = "TypeError"; else if (d.faults.includes("p1:" + i)) stop = "fault p1:" + i; else if (d.conf[i].int) { p1.push("i1:" + i); if (d.faults.includes("i1:" + i)) stop = "fault i1:" + i; } }
  const got1 = E.filter((e) => /^[pi]1:/.test(e)); if (String(got1) !== String(p1)) return `phase 1 calls ${got1}, expected ${p1}`;
  for (const x of log) if (/^p[12]:/.test(x.e) && (x.opts?.tag !== 1)) return `${x.e} did not get the context options`;
  for (const x of log) if (/^p1:/.test(x.e) && (x.req !== "phase1" || x.has)) return `${x.e} was asked with ${JSON.stringify(x.req)}`;
  const firstParse = first((e) => e === "parse" || e === "complete"); const last1 = E.findLastIndex((e) => /^(p1|i1|done p1)/.test(e)); if (firstParse >= 0 && firstParse < last1) return "the parser ran before phase 1 was over";
  for (let i = 0; i < n; i++) if (d.conf[i].as && !stop && count("done p1:" + i) !== 1) return `the phase 1 answer of context ${i} was not awaited`;
  if (stop) { if (firstParse >= 0) return "the parser ran after a failed phase 1"; if (E.some((e) => e.startsWith("on:"))) return "a handler ran after a failed phase 1"; return report(stop); }
  // phase 2
  const p2 = []; let stop2; const pf = d.faults.find((f) => /^(parse|complete):/.test(f)), pIdx = pf ? E.map((e, j) => [e, j]).filter(([e]) => e === pf.split(":")[0])[Number(pf.split(":")[1]) - 1]?.[1] : undefined;
  for (const i of two) { if (stop2) break; p2.push("p2:" + i); if (S && d.conf[i].as) stop2 = "TypeError"; else if (d.faults.includes("p2:" + i)) stop2 = "fault p2:" + i; else if (d.conf[i].int) { p2.push("i2:" + i); if (d.faults.includes("i2:" + i)) stop2 = "fault i2:" + i; } }
  const got2 = E.filter((e) => /^[pi]2:/.test(e)), failing = d.line === "badvalue" || d.line === "stuck", metaLine = isMeta(d.line) && d.handlers !== "none", asksNone = metaLine || !two.length;
  const parserFault = pIdx !== undefined && pIdx >= 0;
  if (parserFault) { if (got2.length && String(got2) !== String(p2)) return `phase 2 calls ${got2}, expected ${p2} or none`; if (got2.length && stop2) return report(stop2); const after = E.slice(pIdx + 1).find((e) => /^(on:|parse|p\d)/.test(e)); if (r.thrown && after) return `${after} after the parser threw`; return report("fault " + pf); }
  if (asksNone) { if (got2.length) return `phase 2 calls ${got2}, expected none`; }
  else if (failing || isMeta(d.line)) { if (got2.length && String(got2) !== String(p2)) return `phase 2 calls ${got2}, expected ${p2} or none`; }
  else if (String(got2) !== String(p2)) return `phase 2 calls ${got2}, expected ${p2}`;
  if (got2.length && stop2) { if (E.some((e) => e.startsWith("on:"))) return "a handler ran after a failed phase 2"; return report(stop2); }
  // the parsed value given to phase 2
  const merged = (p) => { const m = {}; for (let i = n - 1; i >= 0; i--) { const k = d.conf[i], ph = p === 2 && k.ph !== "1" ? 2 : 1; if (!(ph === 2 && k.ph === "2e")) { m.K = `k${i}.${ph}`; m["o" + i] = `o${i}.${ph}`; } if (k.int === 1) m["i" + i] = `i${i}.${ph}`; } return m; };
  const key = (m) => JSON.stringify(Object.fromEntries(ALL.map(([x]) => [x, m?.[x]])));
  const cli = d.line === "value" ? "x" : undefined;
  for (const x of log) if (/^p2:/.test(x.e)) { if (x.req !== "phase2" || !x.has) return `${x.e} was asked with ${JSON.stringify(x.req)}`; if (!failing && !isMeta(d.line)) { const v = o.get(x.parsed); if (v?.cli !== cli || key(v?.ann) !== key(merged(1))) return `${x.e} was given ${show(x.parsed)}, the first pass reads ${key(merged(1))}`; } }
  // outcome
  const ons = E.filter((e) => e.startsWith("on:")), wantOn = metaLine ? "on:" + (d.line === "comp" ? "completion" : d.line) : failing || isMeta(d.line) ? "on:error" : undefined;
  if (String(ons) !== String(wantOn ?? "")) return `handlers called: ${ons}, expected ${wantOn ?? "none"}`;
  if (wantOn && d.faults.includes(wantOn)) return report("fault " + wantOn);
  const rep = report(undefined); if (rep || r.thrown) return rep;
  if (wantOn) return r.value?.on === wantOn.slice(3) ? null : `the result is not what ${wantOn} returned`;
  const v = o.get(r.value), want = merged(got2.length ? 2 : 1); if (v?.cli !== cli) return `the value is ${show(r.value)}`; if (key(v.ann) !== key(want)) return `the final parse saw ${key(v.ann)}, expected ${key(want)}`;
  return null;
}
function* faultSets(conf, line, quick) {
  yield []; const ds = conf.map((k, i) => k.d !== "n" ? "d:" + i : undefined).filter(Boolean), sites = [];
  conf.forEach((k, i) => { sites.push("p1:" + i); if (k.int) sites.push("i1:" + i); if (k.ph !== "1") { sites.push("p2:" + i); if (k.int) sites.push("i2:" + i); } });
  if (isMeta(line)) sites.push("on:" + (line === "comp" ? "completion" : line)); if (line === "badvalue" || line === "stuck") sites.push("on:error");
  for (let i = 1; i <= 3; i++) sites.push("complete:" + i, "parse:" + i);
  for (const s of sites) { yield [s]; for (const x of ds) yield [s, x]; }
  for (let i = 0; i < ds.length; i++) { yield [ds[i]]; for (let j = i + 1; j < ds.length; j++) { yield [ds[i], ds[j]]; for (let l = j + 1; l < ds.length; l++) yield [ds[i], ds[j], ds[l]]; } }
}
function* confs(quick) {
  const K1 = kinds(true), K2 = kinds(false); for (const a of K1) yield [a]; yield [{ ...K1[0], d: "p" }]; yield [{ ph: "2", as: 0, d: "p", int: 2 }];
  for (const a of quick ? K2 : K1) for (const b of quick ? K2 : K1) yield [a, b];
  for (const a of K1.filter((k) => !k.as)) { yield [{ ...a }, { ...a, dup: 0 }]; yield [{ ...a, bad: "none" }]; yield [{ ...a }, { ...a, bad: "later" }]; yield [{ ...a, dup: 1 }, { ...a, ph: "2" }]; }
  const K3 = ["1", "2", "2e"].flatMap((ph) => [{ ph, as: 0, d: "s", int: 1 }, { ph, as: 1, d: "a", int: 0 }, { ph, as: 0, d: "b", int: 0 }]); const T = quick ? K3.filter((_, i) => i % 3 === 0 || i % 3 === 1 && i < 5) : K3;
  for (const a of T) for (const b of T) for (const c of T) yield [a, b, c];
}
export async function setup(ctx) { return { ...await api(ctx), ...await ctx.load("core/src/facade.js"), ...await ctx.load("core/src/annotations.js") }; }
export async function run(ctx) {
  const A = await setup(ctx), Q = ctx.quick; ctx.bound("contexts", 3); ctx.bound("faults at once", 3); let m = 0;
  for (const conf of confs(Q)) {
    if (!ctx.next()) continue; ctx.checkTime(); m++;
    const lines = conf.length === 3 && Q ? ["value", "badvalue", "help"] : Object.keys(LINES);
    for (const line of lines) for (const [entry, async] of [["runWith", false], ["runWithSync", false], ["runWith", true], ["runWithAsync", m % 2 === 0]]) {
      if (Q && conf.length > 1 && entry === "runWithAsync" && m % 3) continue;
      let fi = 0; for (const faults of faultSets(conf, line)) {
        fi++; if (Q && conf.length > 1 && faults.length > 1 && (fi + m) % (conf.length === 3 ? 7 : 3)) continue;
        const anyWrap = !faults.length || faults[0].startsWith("complete"), ws = conf.length === 1 && anyWrap ? Object.keys(WRAPS) : [Object.keys(WRAPS)[(fi + m) % 6]];
        for (const wrap of ws) for (const handlers of faults.length || !isMeta(line) ? ["all"] : ["all", "none"]) {
          const d = { conf, line, entry, async, faults, wrap, handlers }; ctx.begin(d); ctx.state(); ctx.exec();
          const o = await once(A, d), bad = judge(d, o); ctx.transition(o.log.length); ctx.outcome(`${line}${faults.length ? " with " + faults.length + " fault(s)" : ""}`); if (!faults.length) ctx.distinct(o.log.map((x) => x.e).join());
          if (bad) ctx.violation(JSON.stringify(d), `${entry}${async ? " (async parser)" : ""}, ${line}, contexts ${JSON.stringify(conf)}, faults ${JSON.stringify(faults)}, ${wrap}: ${bad}\n  log ${o.log.map((x) => x.e).join(" ")}`, d, JSON.stringify(d).length);
          if (!faults.length && conf.length === 2) ctx.sample({ d, log: o.log.map((x) => x.e) });
        }
      }
    }
  }
}
export async function replay(ctx, d) { const A = await setup(ctx), o = await once(A, d), bad = judge(d, o); ctx.exec(); console.log(o.log.map((x) => x.e).join(" "), errOf(o.r.error ?? {})); if (bad) ctx.violation(JSON.stringify(d), bad, d); }

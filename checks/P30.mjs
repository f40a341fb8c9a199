// P30: configuration loading: outcomes of loaders and files, and isolation of runs that share one context.
import { api, show, product } from "../lib/prog.mjs";
import { explore, drain } from "../lib/sched.mjs";
import { writeFileSync, mkdirSync, rmSync } from "node:fs";
import { join, dirname, resolve } from "node:path";
export const meta = {
  rule: "Every loader or file outcome, every schema kind, every binding and command line, under every runner, gives the validated value, the default, or an error, by the reference; the loader is called once, with the first-pass values, and never for help, version or completion; then every interleaving of the asynchronous steps of two or three runs sharing one context and one parser (concurrent, successive, nested inside a loader) gives each run its own outcome.",
  assumptions: ["when the command line supplies every bound value, a faulty configuration may fail the run or go unread", "the form and text of errors is not judged", "paths that fail other than by absence or being a directory are not explored (the checks run as root)"],
};
class Boom extends Error {}
// schema: numbers only, multiplied by ten; asynchronous on request
export function schema(kind, gate) {
  const judge = (x) => {
    if (x && x.a === "throw") throw new Boom("schema");
    if (x && x.a === "null") return { value: null };
    if (typeof x !== "object" || x === null || (x.a !== undefined && typeof x.a !== "number")) return { issues: [{ message: "a must be a number" }] };
    return { value: { ...x, ...(x.a !== undefined ? { a: x.a * 10 } : {}) } };
  };
  return { "~standard": { version: 1, vendor: "verif", validate: kind === "async" ? async (x) => { if (gate) await gate("schema", x?.a); else await null; return judge(x); } : judge } };
}
const NONE = { none: 1 }, ERR = { err: 1 };
// what configuration an outcome stands for (NONE = defaults, ERR = error)
export const LOADS = {
  ok: [() => ({ config: { a: 2, b: { x: 3 } }, meta: { tag: "m" } }), { a: 20, b: 3, m: "m" }],
  nometa: [() => ({ config: { a: 2, b: { x: 3 } }, meta: undefined }), { a: 20, b: 3 }],
  partial: [() => ({ config: { b: { x: 4 } }, meta: { tag: "m" } }), { b: 4, m: "m" }],
  zero: [() => ({ config: { a: 0, b: { x: 0 } }, meta: { tag: "" } }), { a: 0, b: 0, m: "" }],
  empty: [() => ({ config: {}, meta: undefined }), {}],
  undef: [() => undefined, NONE], nul: [() => null, NONE],
  invalid: [() => ({ config: { a: "x", b: { x: 3 } }, meta: undefined }), ERR], scalar: [() => ({ config: 5, meta: undefined }), ERR],
  schemaThrow: [() => ({ config: { a: "throw" }, meta: undefined }), ERR], schemaNull: [() => ({ config: { a: "null" }, meta: undefined }), NONE],
  noConfig: [() => ({ meta: {} }), ERR], array: [() => [], ERR], string: [() => "x", ERR], number: [() => 0, ERR], bool: [() => false, ERR],
  throws: [() => { throw new Boom("load"); }, ERR], thenable: [() => ({ then: (f) => f(undefined) }), ERR], cfgPromise: [() => ({ config: Promise.resolve({ a: 1 }), meta: undefined }), ERR],
  enoent: [() => { throw Object.assign(new Boom("ENOENT"), { code: "ENOENT" }); }, ERR],
};
export const FILES = {
  ok: ['{"a":2,"b":{"x":3}}', { a: 20, b: 3, m: 1 }], partial: ['{"b":{"x":4}}', { b: 4, m: 1 }], space: [' \n{"a":2}\n', { a: 20, m: 1 }], empty: ["", ERR], object: ["{}", { m: 1 }],
  invalid: ['{"a":"x"}', ERR], junk: ['{"a":2', ERR], trail: ['{"a":2}}', ERR], scalar: ["5", ERR], nul: ["null", ERR], array: ['["a"]', undefined], schemaThrow: ['{"a":"throw"}', ERR], schemaNull: ['{"a":"null"}', NONE],
  missing: [undefined, NONE], nodir: ["\0nodir", NONE], dir: ["\0dir", ERR], parserThrow: ["parserThrow", ERR], parserEnoent: ["parserEnoent", ERR], parserUndef: ["parserUndef", undefined],
};
const fileParser = (bytes) => {
  const t = new TextDecoder().decode(bytes);
  if (t === "parserThrow") throw new Boom("parser");
  if (t === "parserEnoent") throw Object.assign(new Boom("ENOENT: no such include"), { code: "ENOENT" });
  if (t === "parserUndef") return undefined;
  return JSON.parse(t);
};
export const PATHS = { undef: [undefined, NONE], emptyString: ["", NONE], number: [5, ERR], object: [{}, ERR], throws: ["\0throw", ERR], rel: ["\0rel", { a: 20, b: 3, m: 1 }] };
export const WRAPS = {
  obj: { make: (A, f) => A.object(f), get: (v) => v },
  cmd: { make: (A, f) => A.or(A.command("go", A.object(f)), A.command("no", A.object({}))), get: (v) => v, pre: ["go"] },
  merge: { make: (A, f) => A.merge(A.object({ c: f.c }), A.object({ a: f.a }), A.object({ b: f.b })), get: (v) => v },
  group: { make: (A, f) => A.object({ g: A.group("G", A.object({ a: f.a, b: f.b })), c: f.c }), get: (v) => ({ ...v.g, c: v.c }) },
};
function parser(A, M, ctxt, d) {
  const S = A.vp.string, I = A.vp.integer;
  const f = {
    c: A.optional(A.option("--c", S())),
    a: M.bindConfig(A.option("--a", I({ max: 100 })), { context: ctxt, key: d.fn ? (x) => x.a : "a", ...(d.def ? { default: 5 } : {}) }),
    b: M.bindConfig(A.option("--b", I()), { context: ctxt, key: (x, m) => (d.seen?.push(m), x.b?.x), default: 6 }),
  };
  return WRAPS[d.wrap ?? "obj"].make(A, f);
}
const line = (d) => [...(WRAPS[d.wrap ?? "obj"].pre ?? []), ...(d.c ? ["--c", d.c] : []), ...(d.cli & 1 ? ["--a", "1"] : []), ...(d.cli & 2 ? ["--b", "2"] : [])];
const META = { help: ["--help"], version: ["--version"], comp: ["--completion", "bash", "--"], compscript: ["--completion", "zsh"] };
function want(conf, d) {
  if (conf === ERR) return d.cli === 3 ? ["err", { a: 1, b: 2 }] : ["err"];
  const c = conf === NONE ? {} : conf;
  const a = d.cli & 1 ? 1 : c.a !== undefined ? c.a : d.def ? 5 : ERR, b = d.cli & 2 ? 2 : c.b !== undefined ? c.b : 6;
  return a === ERR ? ["err"] : [{ a, b }];
}
const opts = (args, contextOptions) => ({ args, contextOptions, stdout: () => {}, stderr: () => {}, onError: () => ({ failed: 1 }), help: { option: true, onShow: () => ({ shown: 1 }) }, version: { option: true, value: "1.0.0", onShow: () => ({ shown: 1 }) }, completion: { option: true, onShow: () => ({ shown: 1 }) } });
async function exec(A, entry, p, ctxt, o) { try { let r = A[entry](p, "prog", [ctxt], o); if (r instanceof Promise) r = await r; return r?.failed ? { err: "refused" } : r?.shown ? { shown: 1 } : { v: r }; } catch (e) { return { err: String(e?.message ?? e) }; } }
const same = (w, r, get) => w === "err" ? r.err !== undefined : r.v !== undefined && JSON.stringify({ a: get(r.v).a, b: get(r.v).b }) === JSON.stringify(w);

async function single(ctx, A, M, d) {
  ctx.begin(d); ctx.exec(1); ctx.transition(1);
  const seen = [], calls = [];
  const ctxt = M.createConfigContext({ schema: schema(d.schema), ...(d.parser ? { fileParser } : {}) });
  const p = parser(A, M, ctxt, { ...d, seen });
  let conf, co, path, expectMeta = undefined;
  if (d.load) {
    const [f, c] = LOADS[d.load]; conf = c;
    co = { load: (parsed) => { calls.push(parsed); if (!d.as) return f(); return (async () => { await null; if (d.as === 2) await drain(); return f(); })(); } };
    if (d.load === "thenable" && d.as) conf = NONE; // an async function unwraps it
    expectMeta = conf.m !== undefined ? { tag: conf.m } : undefined;
  } else {
    const dir = join(ctx.scratch, "cfg"); mkdirSync(dir, { recursive: true });
    path = join(dir, "c.json"); rmSync(path, { recursive: true, force: true });
    if (d.path) { const [pp, c] = PATHS[d.path]; conf = c; path = pp; if (pp === "\0rel") { path = "rel.json"; writeFileSync(join(dir, "rel.json"), FILES.ok[0]); } }
    else { const [t, c] = FILES[d.file]; conf = c; if (t === "\0dir") mkdirSync(path); else if (t === "\0nodir") path = join(dir, "nope", "c.json"); else if (t !== undefined) writeFileSync(path, t); }
    co = { getConfigPath: (parsed) => { calls.push(parsed); if (path === "\0throw") throw new Boom("path"); return path; } };
    expectMeta = { configPath: typeof path === "string" ? resolve(dir, path) : "", configDir: dirname(typeof path === "string" ? resolve(dir, path) : "") };
    if (d.path === "rel") process.chdir(dir);
  }
  const old = process.cwd();
  const w = WRAPS[d.wrap ?? "obj"], args = d.meta ? [...META[d.meta]] : line(d);
  const r = await exec(A, d.entry, p, ctxt, opts(args, co));
  process.chdir(ctx.scratch);
  const bad = [];
  if (d.meta) {
    if (!r.shown) bad.push(`a ${d.meta} request gave ${show(r)}`);
    if (calls.length) bad.push("the configuration was loaded for a " + d.meta + " request");
  } else {
    // asynchronous steps cannot run under the synchronous runner
    const needAsync = d.entry === "runWithSync" && (d.as || d.schema === "async" && conf !== undefined);
    if (conf !== undefined && !needAsync) {
      const W = want(conf, d);
      if (!W.some((x) => same(x, r, w.get))) bad.push(`expected ${show(W)}, got ${show(r)}`);
      if (r.v !== undefined && d.cli !== 3 && conf !== NONE && conf !== ERR && !(d.cli & 2)) for (const m of seen) if (show(m) !== show(expectMeta)) { bad.push(`key callback got metadata ${show(m)}, should be ${show(expectMeta)}`); break; }
    } else if (needAsync && r.v !== undefined && conf !== NONE) { const W = want(conf ?? NONE, d); if (!W.some((x) => same(x, r, w.get)) ) bad.push(`an asynchronous configuration under runSync gave ${show(r)}`); }
    if (calls.length > 1) bad.push(`the loader was called ${calls.length} times`);
    if (calls.length === 0 && d.cli !== 3) bad.push("the loader was never called");
    for (const c of calls) { const v = d.wrap === "group" ? c : c; if (v?.c !== d.c) bad.push(`the loader saw ${show(c)}`); }
  }
  ctx.outcome(d.meta ?? (r.err !== undefined ? "error" : conf === NONE ? "defaults" : "value"));
  ctx.distinct(JSON.stringify([d.load, d.file, d.path, d.schema, d.def, d.cli, d.meta, r.err !== undefined]));
  if (bad.length) ctx.violation(`${d.load ?? ""}|${d.file ?? ""}|${d.path ?? ""}|${d.schema}|${d.meta ?? ""}|${d.parser ?? ""}|${bad[0].slice(0, 20)}`, `${show(d)}: ${bad.join("; ")}`, d, JSON.stringify(d).length);
}
// ---- runs sharing one context ---------------------------------------------------
const SH = { v1: [{ a: 1 }, { a: 10, b: 6 }], v2: [{ a: 2, b: { x: 7 } }, { a: 20, b: 7 }], none: [undefined, { a: 5, b: 6 }], bad: [{ a: "x" }, "err"], rej: ["rej", "err"], empty: [{}, { a: 5, b: 6 }] };
async function shared(ctx, A, M, d) {
  ctx.begin(d);
  const r = await explore(async (gate) => {
    const ctxt = M.createConfigContext({ schema: schema(d.schema, gate) });
    const p = parser(A, M, ctxt, { def: 1 });
    const go = (k, i) => exec(A, d.entries[i], p, ctxt, opts(d.cli?.[i] ? ["--a", "9"] : [], {
      load: async () => { await gate("load", i); if (d.nest && i === 0) inner.push(await go(d.runs[1], 1)); if (SH[k][0] === "rej") throw new Boom("rej"); return SH[k][0] === undefined ? undefined : { config: SH[k][0], meta: undefined }; },
    }));
    const inner = [];
    if (d.nest) { const a = await go(d.runs[0], 0); return [a, inner[0]]; }
    if (d.seq) { const out = []; for (const [i, k] of d.runs.entries()) out.push(await go(k, i)); return out; }
    return Promise.all(d.runs.map((k, i) => go(k, i)));
  }, (out, trace) => {
    ctx.exec(1);
    const bad = out === "deadlock" || out.thrown ? [show(out)] : d.runs.flatMap((k, i) => { let w = SH[k][1]; if (d.cli?.[i] && w !== "err") w = { a: 9, b: w.b }; return same(w, out[i], (v) => v) ? [] : [`run ${i} (${k}) expected ${show(w)}, got ${show(out[i])}`]; });
    ctx.outcome(d.nest ? "nested runs" : d.seq ? "successive runs" : "concurrent runs"); ctx.distinct(JSON.stringify(d) + trace);
    if (bad.length) ctx.violation(JSON.stringify(d), `${show(d)} schedule [${trace}]: ${bad.join("; ")}`, d, d.runs.length);
  }, ctx.quick ? 3000 : 60000);
  ctx.transition(r.steps); if (r.capped) ctx.outcome("capped exploration");
}
const setup = async (ctx) => { mkdirSync(ctx.scratch, { recursive: true }); process.chdir(ctx.scratch); return [{ ...await api(ctx), ...await ctx.load("core/src/facade.js") }, await ctx.load("config/src/index.js")]; };
export async function run(ctx) {
  const [A, M] = await setup(ctx), deep = !ctx.quick;
  const kinds = [...Object.keys(LOADS).flatMap((load) => [0, 1, 2].map((as) => ({ load, as }))), ...Object.keys(FILES).flatMap((file) => file.startsWith("parser") ? [{ file, parser: 1 }] : [{ file }, { file, parser: 1 }]), ...Object.keys(PATHS).map((path) => ({ path }))];
  for (const [k, sc, def, cli, wrap, entry, c, fn] of product(kinds, ["sync", "async"], [0, 1], [0, 1, 2, 3], Object.keys(WRAPS), ["runWith", "runWithSync", "runWithAsync"], [undefined, "z"], [0, 1])) {
    const out = k.load ? LOADS[k.load][1] : k.file ? FILES[k.file][1] : PATHS[k.path][1];
    if (entry === "runWithSync" && (k.as || sc === "async") && (out === ERR || out === undefined)) continue; // the refused promise would reject unobserved
    if (!ctx.next()) continue;
    ctx.state(1);
    await single(ctx, A, M, { ...k, schema: sc, def, cli, wrap, entry, c, fn });
  }
  for (const [k, m, sc, wrap, entry] of product(kinds, Object.keys(META), ["sync", "async"], ["obj", "cmd"], ["runWith", "runWithSync", "runWithAsync"])) {
    if (!ctx.next()) continue;
    ctx.state(1);
    await single(ctx, A, M, { ...k, schema: sc, def: 1, cli: 0, wrap, entry, meta: m });
  }
  const K = Object.keys(SH), n3 = deep ? 3 : 2; ctx.bound("runs sharing a context", 3);
  for (const n of [2, 3]) for (const runs of product(...Array(n).fill(K))) for (const sc of ["sync", "async"]) for (const cli of [undefined, [1, 0, 0], [0, 1, 0]]) for (const mode of [{}, { seq: 1 }, ...(n === 2 ? [{ nest: 1 }] : [])]) {
    if (n === 3 && !deep && (sc === "async" && !mode.seq || cli)) continue;
    if (mode.nest && runs[0] === "rej") continue;
    if (!ctx.next()) continue;
    ctx.state(1);
    await shared(ctx, A, M, { runs, schema: sc, cli, entries: runs.map((_, i) => i % 2 ? "runWithAsync" : "runWith"), ...mode });
    if (ctx.checkTime()) return;
  }
}
export async function replay(ctx, d) { const [A, M] = await setup(ctx); return d.runs ? shared(ctx, A, M, d) : single(ctx, A, M, d); }

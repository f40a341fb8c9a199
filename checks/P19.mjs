// P19: schema adapters against the schemas' own verdicts, over every schema
// tree of a bounded depth built from the libraries' own constructors.
import { isDeepStrictEqual } from "node:util";
import { createRequire } from "node:module";
import { REPO } from "../lib/build.mjs";
export const meta = {
  rule: "For every schema tree of at most D wrappers over every leaf kind (Zod 4, Zod 3, Valibot; synchronous and asynchronous), every input string of the list: the adapter's verdict and value equal those of the schema itself on the string (on the Boolean for Boolean schemas and a recognised literal); a sync adapter never answers for a schema that needs asynchronous parsing unless its answer is the asynchronous one; every suggested choice matches the prefix and is accepted. Standard Schema adapters: every result kind of an enumerated validator.",
  assumptions: ["the schema library itself decides what a schema accepts", "coerced Boolean schemas inside catch() with an unrecognised literal are not specified", "Booleans inside unions follow the library"],
  quickLimitS: 200, thoroughLimitS: 3000,
};
const TRUE = ["true", "1", "yes", "on"], FALSE = ["false", "0", "no", "off"];
const INPUTS = ["", "a", "b", "A", "ab", "abc", "0", "1", "5", "10", "-1", "1.5", "1e3", "x", "true", "TRUE", "False", "yes", "No", "on", "off", "OFF", " true ", "2024-01-02", "a@b.co", "null", "undefined", "[object Object]", "tru", "y", "1970", "c"];
// leaf: [schema, kind]; kind.bool marks a Boolean schema, kind.coerced a coerced one
function zodLib(z, v3) {
  const Color = { Red: "a", Blue: "b" }, Num = { A: 0, B: 1, 0: "A", 1: "B" }, Mix = { A: "a", B: 5 };
  const leaves = {
    string: () => z.string(), min2: () => z.string().min(2), email: () => z.string().email(), num: () => z.number(), cnum: () => z.coerce.number(), cint: () => z.coerce.number().int().min(1).max(10),
    bool: () => z.boolean(), cbool: () => z.coerce.boolean(), enum: () => z.enum(["a", "b"]), natS: () => z.nativeEnum(Color), natN: () => z.nativeEnum(Num), natM: () => z.nativeEnum(Mix),
    litS: () => z.literal("a"), litN: () => z.literal(5), litT: () => z.literal(true), cdate: () => z.coerce.date(), any: () => z.any(), never: () => z.never(), undef: () => z.undefined(), regex: () => z.string().regex(/^a/), cbig: () => z.coerce.bigint(), obj: () => z.object({ a: z.string() }), du: () => z.union([z.literal("a"), z.literal("b")]),
    ...(v3 ? {} : { litM: () => z.literal(["a", "c"]), sbool: () => z.stringbool() }),
  };
  const wraps = {
    optional: (s) => s.optional(), nullable: (s) => s.nullable(), default: (s) => s.default("a"), readonly: (s) => s.readonly(), refine: (s) => s.refine((x) => x !== "a" && x !== true && x !== 5), superRefine: (s) => s.superRefine((x, c) => { if (x === "b" || x === false) c.addIssue({ code: "custom", message: "nope" }); }),
    transform: (s) => s.transform((x) => `t:${x}`), catch: (s) => s.catch("fallback"), brand: (s) => s.brand("B"), lazy: (s) => z.lazy(() => s), pipe: (s) => s.pipe(z.any()), pipeS: (s) => s.pipe(z.string()), pre: (s) => z.preprocess((x) => x === "x" ? "a" : x === "y" ? true : x, s), trimIn: (s) => z.string().trim().pipe(s),
    unionL: (s) => z.union([z.literal("c"), s]), unionR: (s) => z.union([s, z.enum(["c", "ab"])]), unionB: (s) => z.union([s, z.boolean()]), and: (s) => z.intersection(s, z.any()),
    ...(v3 ? {} : { prefault: (s) => s.prefault("a"), nonopt: (s) => z.nonoptional(s), check: (s) => s.check((c) => { if (c.value === "b") c.issues.push({ code: "custom", input: c.value, message: "no b" }); }), overwrite: (s) => s.overwrite?.((x) => x) ?? s.check(z.overwrite((x) => typeof x === "string" ? x + "!" : x)) }),
    arefine: (s) => s.refine(async (x) => x !== "a" && x !== true), atransform: (s) => s.transform(async (x) => [x]),
  };
  // which wrappers keep a Boolean schema Boolean (documented: the entire schema is a Boolean type)
  const keep = new Set(["optional", "nullable", "default", "readonly", "refine", "superRefine", "transform", "catch", "brand", "lazy", "pipe", "pipeS", "prefault", "nonopt", "check", "overwrite", "arefine", "atransform"]);
  return { leaves, wraps, keep, parse: (s, x) => { const r = s.safeParse(x); return r.success ? { ok: true, v: r.data } : { ok: false }; }, parseAsync: async (s, x) => { const r = await s.safeParseAsync(x); return r.success ? { ok: true, v: r.data } : { ok: false }; } };
}
function valibotLib(v) {
  const leaves = {
    string: () => v.string(), min2: () => v.pipe(v.string(), v.minLength(2)), email: () => v.pipe(v.string(), v.email()), num: () => v.number(), cnum: () => v.pipe(v.string(), v.transform(Number), v.number()), cint: () => v.pipe(v.string(), v.toNumber?.() ?? v.transform(Number), v.integer(), v.minValue(1)),
    bool: () => v.boolean(), pick: () => v.picklist(["a", "b"]), pickN: () => v.picklist([5, "a"]), enum: () => v.enum({ R: "a", B: "b" }), litS: () => v.literal("a"), litN: () => v.literal(5), any: () => v.any(), unknown: () => v.unknown(), never: () => v.never(), undef: () => v.undefined(), trim: () => v.pipe(v.string(), v.trim()), obj: () => v.object({ a: v.string() }), pbool: () => v.pipe(v.string(), v.transform((x) => x === "true"), v.boolean()),
    astr: () => v.pipeAsync(v.string(), v.checkAsync(async (x) => x !== "a")), atr: () => v.pipeAsync(v.string(), v.transformAsync(async (x) => [x])), acust: () => v.customAsync(async (x) => x === "b"),
  };
  const wraps = {
    optional: (s) => v.optional(s), nullable: (s) => v.nullable(s), nullish: (s) => v.nullish(s, "a"), nonOpt: (s) => v.nonOptional(s), check: (s) => v.pipe(s, v.check((x) => x !== "a")), transform: (s) => v.pipe(s, v.transform((x) => `t:${x}`)), fallback: (s) => v.fallback(s, "fb"), lazy: (s) => v.lazy(() => s), readonly: (s) => v.pipe(s, v.readonly()), brand: (s) => v.pipe(s, v.brand("B")),
    after: (s) => v.pipe(v.string(), v.transform((x) => x), s), afterTrim: (s) => v.pipe(v.string(), v.trim(), s), arr: (s) => v.pipe(v.string(), v.transform((x) => [x]), v.array(s)), wrapObj: (s) => v.pipe(v.string(), v.transform((x) => ({ k: x })), v.object({ k: s })), tup: (s) => v.pipe(v.string(), v.transform((x) => [x, x]), v.tuple([s, v.string()])), rec: (s) => v.pipe(v.string(), v.transform((x) => ({ k: x })), v.record(v.string(), s)), variant: (s) => v.pipe(v.string(), v.transform((x) => ({ t: "k", k: x })), v.variant("t", [v.object({ t: v.literal("k"), k: s })])),
    unionL: (s) => v.union([v.literal("c"), s]), unionR: (s) => v.union([s, v.picklist(["c", "ab"])]), unionAny: (s) => v.union([v.any(), s]), unionStr: (s) => v.union([v.string(), s]), unionMin: (s) => v.union([v.pipe(v.string(), v.minLength(3)), s]), and: (s) => v.intersect([s, v.any()]), map: (s) => v.pipe(v.string(), v.transform((x) => new Map([[x, x]])), v.map(v.string(), s)), set: (s) => v.pipe(v.string(), v.transform((x) => new Set([x])), v.set(s)), strictObj: (s) => v.pipe(v.string(), v.transform((x) => ({ k: x })), v.strictObject({ k: s })), objRest: (s) => v.pipe(v.string(), v.transform((x) => ({ k: x })), v.objectWithRest({}, s)), tupRest: (s) => v.pipe(v.string(), v.transform((x) => [x]), v.tupleWithRest([], s)),
  };
  return { leaves, wraps, keep: new Set(), parse: (s, x) => { const r = v.safeParse(s, x); return r.success ? { ok: true, v: r.output } : { ok: false }; }, parseAsync: async (s, x) => { const r = await v.safeParseAsync(s, x); return r.success ? { ok: true, v: r.output } : { ok: false }; } };
}
export async function libs() {
  const rz = createRequire(`${REPO}/packages/zod/src/index.ts`), rv = createRequire(`${REPO}/packages/valibot/src/index.ts`);
  return { zod4: zodLib(rz("zod").z, false), zod3: zodLib(rz("zod/v3").z, true), valibot: valibotLib(rv("valibot")) };
}
const asyncish = (lib, d) => d.wraps.some((w) => /^a(refine|transform)$/.test(w)) || ["astr", "atr", "acust"].includes(d.leaf);
function make(L, d) {
  let s = L.leaves[d.leaf](); for (const w of d.wraps) s = L.wraps[w](s);
  let bool = d.lib !== "valibot" && (d.leaf === "bool" || d.leaf === "cbool"), coerced = d.leaf === "cbool";
  for (const w of d.wraps) if (!L.keep.has(w)) bool = false;
  return { s, bool, coerced: bool && coerced };
}
const literal = (x) => { const n = x.trim().toLowerCase(); return TRUE.includes(n) ? true : FALSE.includes(n) ? false : undefined; };
const show = (r) => r === undefined ? "unspecified" : r.thrown ? `throws ${r.thrown}` : r.ok ? `accepts as ${typeof r.v === "bigint" ? `${r.v}n` : JSON.stringify(r.v)}` : "rejects";
async function judge(ctx, A, LS, d) {
  const L = LS[d.lib]; let m;
  // known finding: valibot() cannot see asynchronous schemas that another schema reaches through lazy(); one canonical input stands for the class
  const hiddenAsync = d.lib === "valibot" && d.wraps.includes("lazy") && d.wraps.length > 1 && asyncish(L, d), canon = hiddenAsync && d.leaf === "astr" && d.wraps.join() === "lazy,nonOpt";
  try { m = make(L, d); } catch { ctx.outcome("not constructible"); return; }
  const key = `${d.lib} ${d.leaf}.${d.wraps.join(".")}`, fail = (what, s) => ctx.violation(`${key} ${s ?? ""}`, `${key}: ${what}`, { ...d, s }, d.wraps.length * 10 + (s?.length ?? 0));
  const Z = d.lib === "valibot" ? [A.valibot, A.valibotAsync] : [A.zod, A.zodAsync], async = asyncish(L, d);
  const opt = { placeholder: "ph" };
  const mk = (f) => { try { return f(m.s, opt); } catch (e) { return { thrown: e }; } };
  const ps = mk(Z[0]), pa = mk(Z[1]);
  if (ps.thrown) { if (!(async && ps.thrown instanceof TypeError)) fail(`creating the sync parser throws ${ps.thrown}`); else ctx.outcome("async schema refused at creation"); }
  if (pa.thrown) return fail(`creating the async parser throws ${pa.thrown}`);
  const same = (a, b) => a.ok === b.ok && (!a.ok || isDeepStrictEqual(a.v, b.v));
  async function direct(x, raw) { // the library's own verdict, always with its asynchronous parser
    try { return await L.parseAsync(m.s, x); } catch (e) { return { thrown: String(e).slice(0, 60) }; }
  }
  for (const s of d.s === undefined ? (canon ? [""] : INPUTS) : [d.s]) {
    ctx.state(); ctx.transition(); ctx.distinct(key + "\0" + s);
    const lit = m.bool ? literal(s) : undefined;
    let want;
    if (m.bool && lit !== undefined) want = await direct(lit);
    else if (m.coerced) want = d.wraps.includes("catch") ? undefined : { ok: false };
    else want = await direct(s);
    if (want?.thrown) want = undefined; // the library itself fails on it
    for (const [name, p] of [["sync", ps], ["async", pa]]) {
      if (p.thrown || name === "sync" && hiddenAsync && !canon) continue;
      let got; try { const r = name === "sync" ? p.parse(s) : await p.parse(s); ctx.exec(); got = r.success ? { ok: true, v: r.value } : { ok: false, e: r.error }; } catch (e) { got = { thrown: String(e).slice(0, 120), type: e instanceof TypeError }; }
      if (got.ok === false && !(Array.isArray(got.e) && got.e.length)) fail(`${name} parser rejects ${JSON.stringify(s)} without a message`, s);
      if (want === undefined) { ctx.outcome("not specified"); continue; }
      if (got.thrown) {
        if (name === "sync" && async && got.type) { ctx.outcome("async schema refused"); continue; }
        fail(`${name} parser throws ${got.thrown} on ${JSON.stringify(s)}; the schema ${show(want)}`, s); continue;
      }
      if (!same(got, want)) fail(`${name} parser on ${JSON.stringify(s)} ${show(got)}; the schema ${show(want)}`, s);
      ctx.outcome(`${d.lib} ${want.ok ? "accept" : "reject"}`);
    }
  }
  for (const [name, p] of [["sync", ps], ["async", pa]]) {
    if (p.thrown || !p.suggest) continue;
    for (const pre of ["", "a", "T", "o", "zz"]) {
      const out = []; try { for await (const x of p.suggest(pre)) out.push(x.text); } catch (e) { fail(`suggest throws ${e}`); break; }
      ctx.exec(); ctx.outcome("suggest");
      if (new Set(out).size !== out.length) fail(`${name} suggestions for ${JSON.stringify(pre)} repeat`);
      for (const t of out) {
        if (!(m.bool ? t.toLowerCase().startsWith(pre.toLowerCase()) : t.startsWith(pre))) fail(`${name} suggestion ${t} does not match ${JSON.stringify(pre)}`);
        let ok; try { ok = (await pa.parse(t)).success; } catch { ok = false; }
        if (!ok) fail(`${name} parser suggests ${JSON.stringify(t)}, which the schema rejects`);
      }
    }
    if (p.choices && !m.bool) for (const c of p.choices) if (!(await pa.parse(String(c)).catch(() => ({}))).success) fail(`choice ${JSON.stringify(c)} is rejected by the schema`);
  }
}
// Standard Schema: enumerated validators
const RESULTS = { val: (x) => ({ value: `v:${x}` }), und: () => ({ value: undefined }), issue: (x) => ({ issues: [{ message: "bad" }, { message: "two" }] }), noissue: () => ({ issues: [] }), und2: () => ({ value: 1, issues: undefined }), both: () => ({ value: 1, issues: [{ message: "both" }] }) };
async function std(ctx, A, d) {
  const fail = (m) => ctx.violation(JSON.stringify(d), `standard schema (${JSON.stringify(d)}): ${m}`, d, 5);
  let calls = []; const f = RESULTS[d.std];
  const validate = (x) => { calls.push(x); const r = f(x); return d.mode === "sync" ? r : d.mode === "promise" ? Promise.resolve(r) : d.mode === "thenable" ? { then: (k) => { k(r); } } : Promise.reject(new Error("boom")); };
  const schema = d.fn ? Object.assign(() => {}, { "~standard": { version: 1, vendor: "x", validate } }) : { "~standard": { version: 1, vendor: "x", validate } };
  const errs = []; const opt = { placeholder: null, ...(d.err === "msg" ? { errors: { schemaError: [{ type: "text", text: "custom" }] } } : d.err === "fn" ? { errors: { schemaError: (i, s) => { errs.push([i, s]); return [{ type: "text", text: `fn ${i.length} ${s}` }]; } } } : {}) };
  const want = f("in"), ok = !want.issues;
  for (const [name, p] of [["sync", A.standardSchema(schema, opt)], ["async", A.standardSchemaAsync(schema, opt)]]) {
    ctx.state(); ctx.transition(); ctx.exec(); ctx.outcome("standard " + name); ctx.distinct(JSON.stringify(d) + name); calls = [];
    let r; try { r = p.parse("in"); if (name === "async") r = await r; } catch (e) { r = { thrown: e }; }
    if (calls.length !== 1 || calls[0] !== "in") fail(`${name}: validator called with ${JSON.stringify(calls)}`);
    if (name === "sync" && d.mode !== "sync") { if (!(r.thrown instanceof TypeError)) fail("the sync adapter answers for an asynchronous validator"); continue; }
    if (d.mode === "reject") { if (r.thrown?.message !== "boom") fail("rejection lost"); continue; }
    if (r.thrown) { fail(`${name} throws ${r.thrown}`); continue; }
    if (r.success !== ok) fail(`${name}: expected ${ok ? "success" : "failure"}`);
    if (ok && !isDeepStrictEqual(r.value, want.value)) fail(`${name}: value ${JSON.stringify(r.value)}`);
    if (!ok) { const t = JSON.stringify(r.error); const w = d.err === "msg" ? "custom" : d.err === "fn" ? `fn ${want.issues.length} in` : want.issues[0]?.message; if (!r.error?.length || w && !t.includes(w)) fail(`${name}: message ${t}`); }
  }
}
function* trees(L, lib, depth) {
  const ws = Object.keys(L.wraps);
  for (const leaf of Object.keys(L.leaves)) {
    let cur = [[]];
    for (let n = 0; n <= depth; n++) { for (const wraps of cur) yield { lib, leaf, wraps }; cur = n < depth ? cur.flatMap((w) => ws.map((x) => [...w, x])) : []; }
  }
}
async function load(ctx) { return { ...await ctx.load("zod/src/index.js"), ...await ctx.load("valibot/src/index.js"), ...await ctx.load("standard-schema/src/index.js") }; }
export async function run(ctx) {
  const A = await load(ctx), LS = await libs(), depth = ctx.quick ? 2 : 3; ctx.bound("wrappers", depth); ctx.bound("inputs", INPUTS.length); let n = 0;
  for (const std_ of Object.keys(RESULTS)) for (const mode of ["sync", "promise", "thenable", "reject"]) for (const err of ["", "msg", "fn"]) for (const fn of [0, 1]) if (ctx.next()) await std(ctx, A, { std: std_, mode, err, fn });
  for (const [lib, L] of Object.entries(LS)) for (const d of trees(L, lib, depth)) {
    if (!ctx.next()) continue;
    ctx.begin(d); await judge(ctx, A, LS, d); if (++n % 50 === 0) ctx.checkTime(); if (n < 3) ctx.sample(d);
  }
}
export async function replay(ctx, d) { const A = await load(ctx); if (d.std) await std(ctx, A, d); else await judge(ctx, A, await libs(), d); }

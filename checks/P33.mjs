// P33: deferred values: never resolved while parsing, call histories against a reference automaton.
import { api, show, product, tokenLists, asyncOf, plainMsg } from "../lib/prog.mjs";
export const meta = {
  rule: "Every history of calls and settlements up to the depth, over one deferred value, two from one run, and two from two runs of one parser, follows the reference automaton (attempts started, arguments passed, values and errors delivered); and for every program, container, source and command line, a deferred field accepts, refuses, documents and suggests exactly what optional() does there, its source indicator says which, and no fallback runs before the handler calls it.",
  assumptions: ["the program generator covers the wrapped parsers listed in BASES and the containers in BOXES", "a fallback that throws may do so at the call or through the returned promise"],
};
const settle = async () => { for (let i = 0; i < 14; i++) await null; };
const KINDS = ["val", "undef", "zero", "throw", "pend", "thenable", "rejected"];
// --- part A: histories -------------------------------------------------------
// A history is a list of steps {c: value index, k: attempt kind} | {s: attempt index, ok}.
// `plan(steps)` returns the next possible steps in the reference automaton.
export function automaton(memo, specified, nv) {
  const vals = Array.from({ length: nv }, () => ({ settled: false, value: undefined, flight: null })), attempts = [], calls = [];
  const step = (s) => {
    if (s.c !== undefined) {
      const v = vals[s.c], n = calls.length;
      if (specified) { calls.push({ want: { v: "given" } }); return; }
      if (memo && v.settled) { calls.push({ want: { v: v.value } }); return; }
      if (memo && v.flight) { calls.push({ of: v.flight }); return; }
      const a = { i: attempts.length, of: s.c, ctx: n, kind: s.k, open: s.k === "pend" || s.k === "thenable" }; attempts.push(a);
      const done = s.k === "val" ? { v: "v" + a.i } : s.k === "undef" ? { v: undefined } : s.k === "zero" ? { v: 0 } : s.k === "throw" || s.k === "rejected" ? { e: "e" + a.i } : null;
      a.out = done; calls.push({ of: a });
      if (memo) { if (!done) v.flight = a; else if ("v" in done) { v.settled = true; v.value = done.v; } }
      return;
    }
    const a = attempts[s.s], v = vals[a.of]; a.open = false; a.out = s.ok ? { v: s.ok === 2 ? undefined : "r" + a.i } : { e: "e" + a.i };
    if (memo && v.flight === a) { v.flight = null; if (s.ok) { v.settled = true; v.value = a.out.v; } }
  };
  const next = (kinds) => {
    const out = [];
    for (let c = 0; c < nv; c++) { const v = vals[c]; if (specified || (memo && (v.settled || v.flight))) out.push({ c }); else for (const k of kinds) out.push({ c, k }); }
    for (const a of attempts) if (a.open) out.push({ s: a.i, ok: 1 }, { s: a.i, ok: 0 }, ...(kinds.includes("undef") ? [{ s: a.i, ok: 2 }] : []));
    return out;
  };
  return { step, next, attempts, calls };
}
export async function history(A, d) {
  const fb = []; const starts = [];
  const plan = { kind: null };
  const fallback = (ctx) => {
    const i = starts.length, kind = plan.kind; starts.push({ ctx, kind });
    if (kind === "val") return "v" + i; if (kind === "undef") return undefined; if (kind === "zero") return 0;
    if (kind === "throw") throw new Error("e" + i);
    if (kind === "rejected") return Promise.reject(new Error("e" + i));
    let res, rej; const p = new Promise((a, b) => { res = a; rej = b; });
    fb[i] = { res, rej };
    return kind === "pend" ? p : { then: (a, b) => p.then(a, b) };
  };
  const mk = () => d.fluent ? A.option("--v", A.vp.string()).deferredValue(fallback, d.memo === undefined ? undefined : { memoize: d.memo }) : A.deferredValue(A.option("--v", A.vp.string()), fallback, ...(d.memo === undefined ? [] : [{ memoize: d.memo }]));
  const args = d.specified ? ["--v", "given"] : [];
  let vals;
  if (d.mode === "two runs") { const p = A.object({ v: mk() }); vals = [A.parseSync(p, args).value.v, A.parseSync(p, args).value.v]; }
  else if (d.mode === "two fields") { const p = A.object({ a: mk(), b: A.withDefault(A.option("--w", A.vp.string()), "x") }), q = A.object({ a: mk() }); vals = [A.parseSync(p, args).value.a, A.parseSync(q, args).value.a]; }
  else vals = [A.parseSync(A.object({ v: mk() }), args).value.v];
  const bad = [], ref = automaton(d.memo === true, d.specified, vals.length), got = [];
  if (starts.length) bad.push("a fallback ran during parsing");
  for (const v of vals) { if (!A.isDeferredValue(v)) bad.push("isDeferredValue() says no"); if (v.source !== (d.specified ? "specified" : "fallback")) bad.push(`source is ${v.source}`); }
  for (const [n, s] of d.steps.entries()) {
    const before = ref.attempts.length; ref.step(s);
    if (s.c !== undefined) {
      plan.kind = s.k; const o = {}; got.push(o); const ctx = { call: got.length - 1 };
      try { const r = vals[s.c](ctx); Promise.resolve(r).then((v) => { o.v = v; o.done = 1; }, (e) => { o.e = e?.message; o.done = 1; }); } catch (e) { o.e = e?.message; o.done = 1; }
      if (starts.length !== ref.attempts.length) { bad.push(`step ${n}: ${starts.length - before} fallback runs for a call, should be ${ref.attempts.length - before}`); return bad; }
      if (ref.attempts.length > before && starts.at(-1).ctx !== ctx) bad.push(`step ${n}: the fallback got another call's argument`);
    } else if (s.ok) fb[s.s].res(s.ok === 2 ? undefined : "r" + s.s); else fb[s.s].rej(new Error("e" + s.s));
    await settle();
    if (starts.length !== ref.attempts.length) { bad.push(`step ${n}: a fallback started by itself`); return bad; }
    for (const [i, c] of ref.calls.entries()) {
      const want = c.want ?? c.of.out, o = got[i];
      if (!want) { if (o.done) bad.push(`step ${n}: call ${i} settled before its fallback`); }
      else if (!o.done) bad.push(`step ${n}: call ${i} is still waiting, should be ${show(want)}`);
      else if (("e" in want) !== ("e" in o) || (want.e ?? want.v) !== (o.e ?? o.v)) bad.push(`step ${n}: call ${i} gave ${show({ ...o, done: undefined })}, should be ${show(want)}`);
    }
    if (bad.length) return bad;
  }
  for (const v of vals) if (v.source !== (d.specified ? "specified" : "fallback")) bad.push("the source indicator changed");
  return bad;
}
const hname = (d) => `memoize ${d.memo}, ${d.specified ? "specified" : "missing"}, ${d.mode}: ${d.steps.map((s) => s.c !== undefined ? `call${s.c}${s.k ? ":" + s.k : ""}` : `${s.ok ? "resolve" : "reject"}#${s.s}`).join(" ")}`;
// --- part B: programs --------------------------------------------------------
export const BASES = {
  opt: (A) => A.option("--v", A.vp.string()), int: (A) => A.option("--v", A.vp.integer({ min: 1, max: 9 })), arg: (A) => A.argument(A.vp.integer()), bool: (A) => A.option("--v"), flag: (A) => A.flag("--v"),
  multi: (A) => A.multiple(A.option("--v", A.vp.string())), multi1: (A) => A.multiple(A.option("--v", A.vp.string()), { min: 1, max: 2 }), def: (A) => A.withDefault(A.option("--v", A.vp.string()), "d"), opt2: (A) => A.optional(A.option("--v", A.vp.string())),
  falsy: (A) => A.map(A.option("--v", A.vp.string()), (v) => ({ a: 0, b: "", c: null, 1: false })[v]), undef: (A) => A.map(A.option("--v", A.vp.string()), () => undefined),
  obj: (A) => A.object({ i: A.option("--v", A.vp.string()), j: A.optional(A.option("--w", A.vp.string())) }), tup: (A) => A.tuple([A.option("--v", A.vp.string()), A.option("--w", A.vp.string())]),
  cmd: (A) => A.command("v", A.object({ w: A.option("--w") })), or: (A) => A.or(A.option("--v", A.vp.string()), A.option("--w", A.vp.integer())), neg: (A) => A.negatableFlag({ positive: "--v", negative: "--w" }),
  group: (A) => A.group("G", A.option("--v", A.vp.choice(["a", "b"]))), async: (A) => A.option("--v", asyncOf()(A.vp.choice(["a", "b"]))), asyncdef: (A) => A.withDefault(A.option("--v", asyncOf()(A.vp.choice(["a", "b"]))), "b"), nest: (A, F) => A.map(F(A.option("--v", A.vp.string())), (x) => A.isDeferredValue(x) ? x.source === "specified" ? x() : undefined : x),
  ne: (A) => A.nonEmpty(A.object({ v: A.optional(A.option("--v", A.vp.string())) })),
  env: (A, F, P) => P.bindEnv(A.option("--v", A.vp.string())), envint: (A, F, P) => P.bindEnv(A.argument(A.vp.integer()), 1), envdef: (A, F, P) => P.bindEnv(A.option("--v", A.vp.string()), 0, "stat"), cfg: (A, F, P) => P.bindConfig(A.option("--v", A.vp.string())), drv: (A, F, P) => P.bindDerived(A.option("--v", A.vp.string())), envcfg: (A, F, P) => P.bindEnv(P.bindConfig(A.option("--v", A.vp.string()))),
};
export const BOXES = {
  alone: (A, f) => f, object: (A, f, o) => A.object({ f, o }), tuple: (A, f, o) => A.tuple([o, f]), seq: (A, f, o) => A.seq(f, o), merge: (A, f, o) => A.merge(A.object({ o }), A.object({ f })), concat: (A, f, o) => A.concat(A.tuple([f]), A.tuple([o])),
  cmd: (A, f, o) => A.command("go", A.object({ f, o })), or: (A, f, o) => A.or(A.command("go", A.object({ f, o })), A.command("no", A.object({}))), group: (A, f, o) => A.group("H", A.object({ o, f })), map: (A, f, o) => A.map(A.object({ f, o }), (r) => [r]), gfield: (A, f, o) => A.object({ f: A.group("K", f), o }),
  nested: (A, f, o) => A.object({ n: A.object({ f }), o }), two: (A, f, o, F) => A.object({ f, o, g: F(A.option("--g", A.vp.string())) }), cond: (A, f, o) => A.conditional(A.option("--t", A.vp.choice(["p"])), { p: A.object({ f }) }, A.object({ o })), mult: (A, f, o) => A.multiple(A.command("go", A.object({ f }))),
};
const pre = { cmd: ["go"], or: ["go"], cond: ["--t", "p"], mult: ["go"] };
export async function both(A, M, d) {
  let ran = 0; const bad = [];
  const make = (F) => {
    const env = d.srcs ? { P_V: "7" } : {}, contexts = [];
    const ectx = M.env.createEnvContext({ prefix: "P_", source: (k) => env[k] }), cctx = M.config.createConfigContext({ schema: { "~standard": { version: 1, vendor: "v", validate: (v) => ({ value: v }) } } }), dd = M.derived.createDerivedDefaults({ v: () => d.srcs ? "7" : undefined });
    const P = { bindEnv: (p, int, def) => M.env.bindEnv(p, { context: ectx, key: "V", parser: int ? A.vp.integer() : A.vp.string(), ...(def ? { default: def } : {}) }), bindConfig: (p) => M.config.bindConfig(p, { context: cctx, key: "v" }), bindDerived: (p) => M.derived.bindDerivedDefault(p, { context: dd.context, key: "v" }) };
    if (d.ctx) contexts.push(ectx, cctx, dd.context);
    const parser = BOXES[d.box](A, F(BASES[d.base](A, F, P)), A.withDefault(A.option("--o", A.vp.string()), "od"), F);
    return { parser, contexts, contextOptions: d.ctx ? { load: () => ({ config: d.srcs ? { v: "7" } : {}, meta: undefined }) } : undefined };
  };
  const fb = (c) => { ran++; return "fell back"; };
  const D = make((p) => d.fluent && p.deferredValue ? p.deferredValue(fb, { memoize: true }) : A.deferredValue(p, fb)), O = make((p) => A.optional(p));
  const exec = async (x) => {
    const err = [];
    try {
      if (!d.ctx) { let r = d.how === "sync" ? A.parseSync(x.parser, d.args) : A.parse(x.parser, d.args); if (x.parser.mode === "async" && !(r instanceof Promise) && d.how !== "sync") bad.push("an asynchronous parser answered synchronously"); r = await r; return r.success ? { v: r.value } : { e: plainMsg(A, r.error) }; }
      let r = A[d.how](x.parser, "prog", x.contexts, { args: d.args, contextOptions: x.contextOptions, stdout() {}, stderr: (l) => err.push(l), onError: () => ({ "!": 1 }) }); r = await r;
      return r?.["!"] ? { e: err.join("\n") } : { v: r };
    } catch (e) { return { e: "thrown " + (e?.message ?? e) }; }
  };
  if (D.parser.mode !== O.parser.mode) bad.push(`mode ${D.parser.mode}, optional() has ${O.parser.mode}`);
  const o = await exec(O), v = await exec(D);
  if (ran) bad.push(`a fallback ran ${ran} times during parsing`);
  if ("e" in o !== "e" in v || o.e !== v.e) bad.push(`optional() gives ${show(o)}, deferredValue() gives ${show(v)}`);
  else if ("v" in o) await walk(A, o.v, v.v, bad, () => ran, "");
  const seen = ran;
  if (d.first) {
    const mine = async (x) => { const r = []; r.push(A.formatUsage("prog", x.parser.usage), JSON.stringify(A.getDocPage(x.parser, d.args) instanceof Promise ? await A.getDocPage(x.parser, d.args) : A.getDocPage(x.parser, d.args))); const s = A.suggest(x.parser, [...d.args, "--"]); r.push(JSON.stringify(await s)); r.push(x.parser.priority, String(x.parser.acceptingAnyToken)); return r; };
    let a, b; try { a = await mine(O); } catch (e) { a = ["thrown"]; } try { b = await mine(D); } catch (e) { b = ["thrown"]; }
    for (const i in a) if (a[i] !== b[i]) bad.push(`${["usage", "documentation", "suggestions", "priority", "any token"][i]}: ${String(a[i]).slice(0, 90)} / ${String(b[i]).slice(0, 90)}`);
    if (ran !== seen) bad.push("a fallback ran for usage, documentation or suggestions");
  }
  return { bad, v: "v" in o };
}
// o: optional()'s result, v: deferredValue()'s
async function walk(A, o, v, bad, ran, at) {
  if (typeof v === "function") {
    if (!A.isDeferredValue(v)) { bad.push(`${at}: not recognised`); return; }
    const want = o === undefined ? "fallback" : "specified", n = ran();
    if (v.source !== want) bad.push(`${at}: source ${v.source}, should be ${want}`);
    const r = await v({});
    if (want === "specified" ? show(r) !== show(o) : r !== "fell back") bad.push(`${at}: call gives ${show(r)}, should be ${show(o)}`);
    if (ran() - n !== (want === "fallback" ? 1 : 0)) bad.push(`${at}: ${ran() - n} fallback runs`);
    return;
  }
  if (v === null || typeof v !== "object") { if (show(o) !== show(v)) bad.push(`${at}: ${show(v)}, should be ${show(o)}`); return; }
  if (o === null || typeof o !== "object") { bad.push(`${at}: shape`); return; }
  for (const k of new Set([...Object.keys(v), ...Object.keys(o)])) await walk(A, o[k], v[k], bad, ran, at + "." + k);
}
const setup = async (ctx) => ({ ...await api(ctx), ...await ctx.load("core/src/facade.js") });
const LOADED = async (ctx) => ({ env: await ctx.load("env/src/index.js"), config: await ctx.load("config/src/index.js"), derived: await ctx.load("derived-defaults/src/index.js") });
let k = 0;
async function oneA(ctx, A, d) {
  ctx.begin(d); ctx.exec(1); ctx.transition(d.steps.length);
  const bad = await history(A, d);
  ctx.outcome("history"); ctx.distinct(hname(d));
  if (bad.length) ctx.violation(`A|${d.memo}|${d.specified}|${bad[0].replace(/\d+/g, "#").slice(0, 50)}`, `${hname(d)}: ${bad.slice(0, 3).join("; ")}`, d, d.steps.length);
  else if (k++ % 20000 === 1) ctx.sample({ history: hname(d) });
}
async function oneB(ctx, A, M, d) {
  ctx.begin(d); ctx.exec(2); ctx.transition(d.args.length);
  const { bad, v } = await both(A, M, d);
  ctx.outcome(v ? "accepted" : "refused"); ctx.distinct([d.base, d.box, d.args.join(" "), d.ctx, d.srcs].join("|"));
  if (bad.length) ctx.violation(`B|${d.base}|${d.box}|${d.how}|${bad[0].slice(0, 40)}`, `${d.how} ${d.base} in ${d.box} <${d.args.join(" ")}>${d.ctx ? " contexts" : ""}${d.srcs ? " with values" : ""}: ${bad.slice(0, 3).join("; ")}`, d, d.args.length * 10 + (d.box !== "alone"));
  else if (k++ % 20000 === 1) ctx.sample({ program: d.base, box: d.box, args: d.args, accepted: v });
}
export async function run(ctx) {
  const A = await setup(ctx), M = await LOADED(ctx), deep = !ctx.quick;
  const DEPTH = deep ? 7 : 6; ctx.bound("history length", DEPTH);
  // histories, depth first over the reference automaton
  const rec = async (conf, kinds, steps, depth) => {
    if (steps.length === depth) { await oneA(ctx, A, { ...conf, steps }); return; }
    const r = automaton(conf.memo === true, conf.specified, conf.mode === "one" ? 1 : 2); for (const s of steps) r.step(s);
    for (const s of r.next(kinds)) {
      if (steps.length === 1 && !ctx.next()) continue;
      ctx.state(1); await rec(conf, kinds, [...steps, s], depth);
    }
  };
  for (const [memo, specified, mode, fluent] of product([true, false, undefined], [false, true], ["one", "two runs", "two fields"], [0, 1])) {
    if (fluent && mode !== "one") continue;
    const one = mode === "one" && !fluent;
    await rec({ memo, specified, mode, fluent }, one && memo === true ? KINDS : ["val", "throw", "pend", "thenable"], [], specified ? 3 : one ? (memo ? DEPTH + 1 : DEPTH - 1) : memo ? DEPTH - 1 : DEPTH - 2);
    if (ctx.checkTime()) return;
  }
  // programs
  const MAX = deep ? 3 : 2; ctx.bound("tokens", MAX);
  const ALPH = ["--v", "--w", "a", "1", "v", "--o", "--g", "--v=b", "--"];
  for (const base of Object.keys(BASES)) for (const box of Object.keys(BOXES)) {
    const srcd = /env|cfg|drv/.test(base);
    for (const [how, srcs] of srcd ? product(["runWith", "runWithSync", "runWithAsync", "parse"], [0, 1]) : product(["parse", "sync", "runWith"], [0])) {
      if (!ctx.next()) continue;
      if (how === "sync" && /async/.test(base) || how === "runWithSync" && /async/.test(base)) continue;
      const isctx = how.startsWith("run"); ctx.state(1);
      for (const t of tokenLists(ALPH, how === "parse" || how === "runWith" ? MAX : 1)) for (const p of pre[box] ? [pre[box], []] : [[]]) {
        if (!p.length && pre[box] && t.length > 1) continue;
        await oneB(ctx, A, M, { base, box, how, ctx: isctx ? 1 : 0, srcs, args: [...p, ...t], fluent: k % 2, first: t.length <= 1 && how !== "runWithSync" && how !== "sync" ? 1 : 0 });
        k++;
      }
    }
    if (ctx.checkTime()) return;
  }
}
export async function replay(ctx, d) { const A = await setup(ctx); if (d.steps) await oneA(ctx, A, d); else await oneB(ctx, A, await LOADED(ctx), d); }

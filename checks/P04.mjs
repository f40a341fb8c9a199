// P04: asynchronous programs against their synchronous twins, on every delivery
// schedule of the pending answers.
import { api, toParser, asyncOf, show, tokenLists, plainMsg } from "../lib/prog.mjs";
import { instantiate, COMPS } from "../lib/gen.mjs";
import { deps, fields, LAYOUTS, OPT } from "../lib/deps.mjs";
import { explore } from "../lib/sched.mjs";
export const meta = {
  rule: "a program whose sync/async comparison shows a new set of outcomes, or a schedule with at least two answers pending at once",
  assumptions: [
    "an asynchronous answer is delivered by resolving its promise; between two deliveries all microtasks run (deliveries inside the same microtask burst are not separated)",
    "the synchronous twin is the oracle; P01-P03 and P06-P11 decide the synchronous path itself",
  ],
};
function* shapes(quick) {
  const L = ["F", "B", "O", "A", "C", "K"];
  const hasV = (s) => /"[OA]"/.test(JSON.stringify([s])) || /"C"/.test(JSON.stringify([s]));
  const W = ["optl", "def", "mult", "mult1", "map", "ne", "group", "cmd"];
  const C = [...COMPS, "long"];
  const all = [];
  for (const w of ["", ...W]) for (const l of L) all.push(w ? [w, l] : l);
  for (const c of C) for (const a of all) for (const l of ["O", "A", "F"]) { yield* [[c, [a, l]], [c, [l, a]]].filter(hasV); }
  for (const l of all) if (hasV(l)) yield l;
  const pairs = C.flatMap((c) => ["F", "O", "A", "C"].flatMap((a) => ["B", "O", "A", "C"].map((b) => [c, [a, b]])));
  for (const w of W) for (const p of pairs) if (hasV(p)) yield [w, p];
  for (const c of C) for (const p of pairs) for (const l of quick ? ["O"] : ["F", "O", "A"]) yield [c, [p, l]];
}
const EXTRA = [
  // discriminated programs and other shapes the generator does not produce
  { p: ["cond", ["opt", ["--type"], "ab"], { a: ["obj", { n: ["opt", ["--num"], "num"] }], b: ["obj", { s: ["optl", ["opt", ["--str"], "abc"]] }] }, null], t: ["--type", "a", "b", "--type=a", "--num=5", "--str", "alpha"] },
  { p: ["cond", ["opt", ["--type"], "ab"], { a: ["obj", { n: ["opt", ["--num"], "num"] }], b: ["arg", "abc"] }, ["obj", { d: ["opt", ["--dflt"], "num"] }]], t: ["--type", "a", "b", "--num=5", "--dflt", "5", "alpha"] },
  { p: ["obj", { v: ["bool", ["-v"]], c: ["cond", ["arg", "ab"], { a: ["obj", { n: ["opt", ["--num"], "num"] }], b: ["obj", { s: ["optl", ["opt", ["--str"], "abc"]] }] }, ["obj", { z: ["bool", ["-z"]] }]] }], t: ["-v", "a", "b", "--num=5", "--str", "alpha", "-z"] },
  { p: ["merge", [["obj", { v: ["mult", ["opt", ["-n"], "num"], {}] }], ["or", [["obj", { a: ["opt", ["--aa"], "num"] }], ["obj", { b: ["opt", ["--bb"], "num"] }]]]]], t: ["-n", "5", "x", "--aa", "--bb", "--aa=1"] },
  { p: ["obj", { p: ["pass", "nextToken"], a: ["optl", ["arg", "num"]], o: ["def", ["opt", ["-o"], "num"], 1] }], t: ["-o", "5", "--zz", "x", "--", "--y=1"] },
  { p: ["seq", [["optl", ["opt", ["-n"], "num"]], ["mult", ["arg", "abc"], { min: 1 }], ["cmd", "end", ["obj", { z: ["opt", ["-z"], "num"] }]]]], t: ["-n", "5", "alpha", "end", "-z", "--"] },
  { p: ["or", [["cmd", "add", ["obj", { f: ["arg", "abc"], d: ["optl", ["opt", ["--depth"], "num"]] }], { aliases: ["a"] }], ["cmd", "rm", ["obj", { f: ["mult", ["arg", "abc"], { min: 1 }] }], { hidden: true }], ["obj", { v: ["flag", ["--version"]] }]]], t: ["add", "a", "rm", "alpha", "--depth", "5", "--version", "ad"] },
];
const sugg = (s) => show(Array.from(s));
function result(A, r) {
  if (r.success) return "ok " + show(r.value);
  return "fail " + plainMsg(A, r.error);
}
async function attempt(f) { try { return await f(); } catch (e) { return "throws " + (e?.message ?? e); } }
// the operations compared
const OPS = {
  parse: { sync: (A, p, t) => result(A, A.parseSync(p, t)), async: async (A, p, t) => result(A, await A.parseAsync(p, t)) },
  suggest: { sync: (A, p, t) => sugg(A.suggestSync(p, t)), async: async (A, p, t) => sugg(await A.suggestAsync(p, t)) },
  doc: { sync: (A, p, t) => show(A.getDocPageSync(p, t)), async: async (A, p, t) => show(await A.getDocPageAsync(p, t)) },
};
function* programs(ctx, A, D) {
  const done = new Set();
  for (const s of shapes(ctx.quick)) {
    const { p, toks } = instantiate(s), k = JSON.stringify(p);
    if (done.has(k)) continue; done.add(k);
    yield { id: { ast: p }, al: [...toks, "x", "7", "--"], values: 4 };
  }
  for (const e of EXTRA) yield { id: { ast: e.p }, al: [...e.t, "q"], extra: true };
  for (const l of LAYOUTS) for (const wm of ["req", "optl", ["def", "prod"]]) for (const wl of ["req", "optl", "mult"]) for (const as of ctx.quick && wm !== "req" ? ["both"] : ["source", "factory", "both"]) {
    yield { id: { dep: l[0], wm, wl, as }, al: [...new Set([...(l[4]?.pre ?? []), "--mode=dev", "--mode=prod", "--mode=zz", "--level=debug", "--level=error", "--server=any", "-x", "--level"])].filter((t) => t !== "--server=any" || l[1].includes("s")), extra: true, dep: true };
  }
}
function build(A, D, id, gate, as) {
  if (id.ast) return toParser(A, id.ast, gate ? asyncOf(gate) : undefined);
  const l = LAYOUTS.find((x) => x[0] === id.dep);
  return l[2](A, fields(A, D, { async: gate ? id.as : undefined, gate, wrap: { m: id.wm, l: id.wl, r: "optl", s: "optl" } }));
}
function report(ctx, d, want, got, sched) {
  ctx.violation(JSON.stringify(d), `${JSON.stringify(d)}\n synchronous  ${want}\n asynchronous ${got}${sched ? "\n schedule " + sched : ""}`, { ...d, sched }, JSON.stringify(d).length);
}
// one operation, natural schedule
async function single(ctx, A, D, id, op, toks, sync, asyn) {
  const want = await attempt(() => OPS[op].sync(A, sync, toks));
  const got = await attempt(() => OPS[op].async(A, asyn, toks));
  ctx.exec();
  if (want !== got) report(ctx, { id, op, toks }, want, got);
  return want;
}
// several operations started together on one parser, all delivery orders
async function together(ctx, A, D, id, calls, cap) {
  const sync = build(A, D, id);
  const want = []; for (const [op, t] of calls) want.push(await attempt(() => OPS[op].sync(A, sync, t)));
  let bad = false;
  const res = await explore(async (gate) => {
    const p = build(A, D, id, gate);
    return Promise.all(calls.map(([op, t]) => attempt(() => OPS[op].async(A, p, t))));
  }, (got, sched) => {
    ctx.exec();
    if (!bad && got === "deadlock") { bad = true; report(ctx, { id, calls }, show(want), "never settles", sched); return; }
    got.forEach((g, i) => { if (!bad && g !== want[i]) { bad = true; report(ctx, { id, calls }, want[i], g, sched); } });
  }, cap);
  ctx.transition(res.steps); ctx.state(res.runs);
  if (res.capped) ctx.outcome("schedule cap reached");
  ctx.outcome(res.maxPending > 1 ? "schedules with a choice" : "schedules without a choice", res.runs);
  if (res.maxPending > 1) ctx.distinct("S" + JSON.stringify([id, calls]));
}
export async function replay(ctx, d) {
  const A = await api(ctx), D = await deps(ctx);
  if (d.calls) return together(ctx, A, D, d.id, d.calls, 5000);
  await single(ctx, A, D, d.id, d.op, d.toks, build(A, D, d.id), build(A, D, d.id, () => undefined));
}
// Inputs of the recorded findings (see P08); the rest of the class is not compared.
export const CANON = [
  { id: { dep: "nest-rev", wm: "req", wl: "req", as: "factory" }, op: "parse", toks: ["--mode=prod", "--level=error"] },
  { id: { dep: "nest-src", wm: "req", wl: "req", as: "source" }, op: "parse", toks: ["--mode=prod", "--level=error"] },
];
const finding = (id) => id.dep === "nest-rev" || (id.dep === "nest-src" || id.dep === "two-nest") && id.as !== "factory";
export async function run(ctx) {
  const A = await api(ctx), D = await deps(ctx);
  let np = 0;
  if (ctx.shard === 0) for (const d of CANON) await replay(ctx, d);
  for (const pr of programs(ctx, A, D)) {
    if (!ctx.next()) continue;
    if (finding(pr.id)) { ctx.outcome("recorded finding class"); continue; }
    np++;
    let sync, asyn;
    try { sync = build(A, D, pr.id); asyn = build(A, D, pr.id, () => undefined); } catch (e) { if (e instanceof TypeError) continue; throw e; }
    if (asyn.mode !== "async") { ctx.outcome("no asynchronous part"); continue; }
    const budget = (pr.dep ? 1.5 : pr.extra ? 3 : 1) * (ctx.quick ? 100 : 1500);
    let depth = 1; while (pr.al.length ** (depth + 1) <= budget) depth++;
    const outs = new Map();
    for (const t of tokenLists(pr.al, depth)) {
      ctx.state(); ctx.transition(); ctx.begin({ id: pr.id, toks: t });
      const o = await single(ctx, A, D, pr.id, "parse", t, sync, asyn);
      if (!outs.has(o)) outs.set(o, t);
      if (t.length < depth || pr.extra) {
        await single(ctx, A, D, pr.id, "suggest", [...t, ""], sync, asyn);
        if (t.length) await single(ctx, A, D, pr.id, "suggest", [...t.slice(0, -1), t.at(-1).slice(0, t.at(-1).indexOf("=") > 0 ? t.at(-1).indexOf("=") + 1 : 3)], sync, asyn);
        await single(ctx, A, D, pr.id, "doc", t, sync, asyn);
      }
    }
    ctx.distinct(JSON.stringify(pr.id) + [...outs.keys()].sort().join());
    // Schedules: one parse of each distinct outcome (two or more answers may be
    // pending), and two operations started together on the one parser.
    const reps = [...outs.values()];
    const pick = reps.length > 3 ? [reps[0], reps[Math.floor(reps.length / 2)], reps.at(-1)] : reps;
    if (ctx.quick && np % 4 && !pr.extra) continue;
    const cap = ctx.quick ? 40 : 2000;
    for (const t of pick) await together(ctx, A, D, pr.id, [["parse", t]], cap);
    for (let i = 0; i < pick.length; i++) for (let j = i; j < pick.length; j++) await together(ctx, A, D, pr.id, [["parse", pick[i]], ["parse", pick[j]]], cap);
    if (pick.length) { await together(ctx, A, D, pr.id, [["parse", pick.at(-1)], ["suggest", [...pick[0], ""]]], cap); await together(ctx, A, D, pr.id, [["suggest", [...pick.at(-1), ""]], ["doc", pick[0]]], cap); }
    if (outs.size > 3) ctx.sample({ program: pr.id, outcomes: outs.size });
    ctx.checkTime();
  }
}

// P05: every sequence of calls on one parser object, against fresh parsers.
import { api, toParser, asyncOf, show, tokenLists, plainMsg, product } from "../lib/prog.mjs";
import { instantiate } from "../lib/gen.mjs";
import { deps, fields, LAYOUTS } from "../lib/deps.mjs";
import { shapes as shapes2 } from "./P02.mjs";
export const meta = {
  rule: "a program and set of operation results not seen before",
  assumptions: ["the fresh parser is built by the same constructor calls from the same data; what a single call should return is decided by the other properties"],
};
const DEF = { list: ["d"], deep: { x: [1] } };
const EXTRA = [
  { p: ["cond", ["opt", ["--type"], "ab"], { a: ["obj", { n: ["opt", ["--num"], "num"] }], b: ["arg", "abc"] }, ["obj", { d: ["opt", ["--dflt"], "num"] }]], t: ["--type", "a", "b", "--num=5", "--dflt", "alpha"] },
  { p: ["obj", { v: ["bool", ["-v"]], c: ["cond", ["arg", "ab"], { a: ["obj", { n: ["mult", ["opt", ["--num"], "num"], {}] }], b: ["obj", { s: ["optl", ["opt", ["--str"], "abc"]] }] }, ["obj", { z: ["bool", ["-z"]] }]] }], t: ["-v", "a", "b", "--num=5", "--str=alpha", "-z"] },
  { p: ["obj", { p: ["pass", "nextToken"], a: ["optl", ["arg", "num"]], o: ["def", ["mult", ["opt", ["-o"], "num"], { min: 1 }], DEF.list] }], t: ["-o", "5", "--zz", "x", "--y=1"] },
  { p: ["obj", { p: ["pass", "greedy"], o: ["def", ["opt", ["-o"], "num"], DEF.deep] }], t: ["-o", "5", "--zz", "x"] },
  { p: ["seq", [["optl", ["opt", ["-n"], "num"]], ["mult", ["arg", "abc"], { min: 1 }], ["cmd", "end", ["obj", { z: ["opt", ["-z"], "num"] }]]]], t: ["-n", "5", "alpha", "end", "-z", "--"] },
  { p: ["or", [["cmd", "add", ["obj", { f: ["mult", ["arg", "abc"], {}], d: ["optl", ["opt", ["--depth"], "num"]] }], { aliases: ["a"] }], ["cmd", "rm", ["obj", { f: ["mult", ["arg", "abc"], { min: 1 }] }], { hidden: true }], ["obj", { v: ["flag", ["--version"]] }]]], t: ["add", "a", "rm", "alpha", "--depth", "5", "--version"] },
  { p: ["long", [["obj", { a: ["bool", ["-a"]], m: ["mult", ["arg", "abc"], {}] }], ["obj", { a: ["bool", ["-a"]], n: ["opt", ["-n"], "num"] }], ["cmd", "go", ["tup", [["optl", ["arg", "str"]], ["neg", ["--on"], ["--off"]]]]]]], t: ["-a", "alpha", "-n", "5", "go", "--on", "--off"] },
  { p: ["mult", ["or", [["cmd", "c", ["obj", { b: ["bool", ["-b"]] }]], ["opt", ["--n"], "num"]]], { max: 2 }], t: ["c", "-b", "--n=5", "--n"] },
  { p: ["merge", [["obj", { v: ["mult", ["flag", ["-v"]], {}] }], ["or", [["obj", { a: ["opt", ["--aa"], "num"] }], ["obj", { b: ["opt", ["--bb"], "num"] }]]], ["obj", { r: ["mult", ["arg", "num"], {}] }]]], t: ["-v", "-vv", "--aa=5", "--bb=5", "5", "x"] },
  { p: ["concat", [["tup", [["mult", ["opt", ["-n"], "num"], {}], ["flag", ["-f"]]]], ["tup", [["mult", ["arg", "num"], {}]]]]], t: ["-n", "5", "-f", "x"] },
];
const reply = (A, r) => r.success ? "ok " + show(r.value) : "fail " + plainMsg(A, r.error);
async function attempt(f) { try { return await f(); } catch (e) { return { t: "throws " + (e?.message ?? e) }; } }
// Operations return { t: text, v: raw value kept to see whether it changes later }
const D1 = (A, m) => m === "async";
const OPS = {
  parse: async (A, p, a) => { const r = await (D1(A, p.mode) ? A.parseAsync(p, a) : A.parseSync(p, a)); return { t: reply(A, r), v: r }; },
  suggest: async (A, p, a) => { const r = await (D1(A, p.mode) ? A.suggestAsync(p, a) : A.suggestSync(p, a)); return { t: show(r), v: r }; },
  doc: async (A, p, a) => { const r = await (D1(A, p.mode) ? A.getDocPageAsync(p, a) : A.getDocPageSync(p, a)); return { t: show(r), v: r }; },
  usage: async (A, p) => { const r = A.normalizeUsage(p.usage); return { t: A.formatUsage("prog", p.usage) + show(r), v: r }; },
  step: async (A, p, a) => { // one raw low-level parse of the shared initial state
    const r = await p.parse({ buffer: a, state: p.initialState, optionsTerminated: false, usage: p.usage });
    return { t: r.success ? "step " + r.consumed.length + show(r.next.buffer) : "fail " + plainMsg(A, r.error), v: [r.success, r.success && r.next.buffer] };
  },
  frags: async (A, p) => { const r = p.getDocFragments({ kind: "available", state: p.initialState }); return { t: show(r), v: r }; },
};
const snap = (p) => show({ u: p.usage, i: p.initialState, l: p.leadingNames && [...p.leadingNames], pr: p.priority, k: Reflect.ownKeys(p).map(String).sort() });
function build(A, D, id) {
  if (id.ast) return toParser(A, id.ast, id.async ? asyncOf() : undefined);
  return LAYOUTS.find((x) => x[0] === id.dep)[2](A, fields(A, D, { async: id.as, gate: id.as ? () => undefined : undefined, wrap: { m: id.wm, l: id.wl, r: "optl", s: "optl" } }));
}
// The operations of one program: those whose results differ from each other.
async function operations(A, D, id, al, depth, max) {
  const seen = new Map(), cand = [["usage", []], ["frags", []]];
  for (const t of tokenLists(al, depth)) { cand.push(["parse", t]); if (t.length < depth) cand.push(["suggest", [...t, ""]], ["doc", t]); if (t.length) cand.push(["suggest", [...t.slice(0, -1), t.at(-1).slice(0, 2)]], ["step", t]); }
  const per = {};
  for (const c of cand) {
    const r = await attempt(() => OPS[c[0]](A, build(A, D, id), c[1].slice()));
    const k = c[0] + r.t;
    if (seen.has(k)) continue;
    seen.set(k, 1); (per[c[0]] ??= []).push([...c, r.t]);
  }
  // spread the picks over the kinds of operations and over the distinct results
  const out = [];
  const share = { parse: 0.5, suggest: 0.2, doc: 0.15, step: 0.15, usage: 0.01, frags: 0.01 };
  for (const [k, l] of Object.entries(per)) {
    const n = Math.max(1, Math.min(l.length, Math.round(share[k] * max)));
    for (let i = 0; i < n; i++) out.push(l[Math.floor(i * (l.length - 1) / Math.max(1, n - 1))]);
  }
  return [...new Set(out)];
}
async function sequence(ctx, A, D, id, ops) {
  let p;
  p = build(A, D, id);
  const before = snap(p), kept = [];
  for (const [i, [k, a, want]] of ops.entries()) {
    const arg = a.slice(), r = await attempt(() => OPS[k](A, p, arg));
    ctx.exec();
    const d = { id, ops };
    const where = () => `${JSON.stringify(id)}\n calls ${ops.slice(0, i + 1).map(([k, a]) => k + JSON.stringify(a)).join(" ; ")}`;
    const key = () => JSON.stringify([id, ops.slice(0, i + 1).map((o) => o.slice(0, 2))]);
    if (r.t !== want) { ctx.violation(key(), `${where()}\n fresh parser ${want}\n this one     ${r.t}`, d); return false; }
    if (show(arg) !== show(a)) { ctx.violation(key(), `${where()}\n changed its arguments to ${show(arg)}`, d); return false; }
    if (snap(p) !== before) { ctx.violation(key(), `${where()}\n changed the parser\n ${before}\n ${snap(p)}`, d); return false; }
    kept.push([r.v, show(r.v), k]);
    for (const [v, s, kk] of kept) if (show(v) !== s) { ctx.violation(key(), `${where()}\n changed the earlier result of ${kk}: ${s} -> ${show(v)}`, d); return false; }
  }
  if (show(DEF) !== '{deep:{x:[1]},list:["d"]}') { ctx.violation("default", `a default value was changed to ${show(DEF)}`, { id, ops }); return false; }
  return true;
}
export async function replay(ctx, d) {
  const A = await api(ctx), D = await deps(ctx);
  await sequence(ctx, A, D, d.id, d.ops);
}
export async function run(ctx) {
  const A = await api(ctx), D = await deps(ctx);
  const progs = [], done = new Set();
  for (const e of EXTRA) for (const as of [false, true]) progs.push({ id: { ast: e.p, async: as }, al: e.t, n: ctx.quick ? 7 : 14, len: 3, depth: ctx.quick ? 2 : 3 });
  for (const l of LAYOUTS) for (const [wm, wl] of [["req", "req"], ["optl", "mult"], [["def", "prod"], "optl"]]) for (const as of [undefined, "both"]) progs.push({ id: { dep: l[0], wm, wl, as }, al: [...new Set([...(l[4]?.pre ?? []), "--mode=dev", "--mode=prod", "--mode=zz", "--level=debug", "--level=error"])], n: ctx.quick ? 6 : 12, len: 3, depth: ctx.quick ? 2 : 3 });
  let k = 0;
  for (const s of shapes2(true)) {
    const { p, toks } = instantiate(s), key = JSON.stringify(p);
    if (done.has(key)) continue; done.add(key);
    if (ctx.quick && Array.isArray(s[1]) && k++ % 8) continue;
    progs.push({ id: { ast: p, async: k % 2 === 1 }, al: [...toks, "x", "7"], n: ctx.quick ? 5 : 8, len: ctx.quick ? 2 : 3, depth: 2 });
  }
  ctx.bound("operations per program", "5-9 (quick) / 8-14 (thorough) with pairwise different results; all sequences of length 2-3, with repetition");
  for (const pr of progs) {
    if (!ctx.next()) continue;
    try { build(A, D, pr.id); } catch (e) { if (e instanceof TypeError) continue; throw e; }
    ctx.begin({ id: pr.id, ops: [] });
    const ops = await operations(A, D, pr.id, pr.al, pr.depth, pr.n);
    ctx.distinct(JSON.stringify(pr.id) + ops.map((o) => o[2]).join());
    let n = 0;
    for (const seq of product(...Array.from({ length: pr.len }, () => ops))) {
      ctx.state(); ctx.transition(seq.length); ctx.begin({ id: pr.id, ops: seq });
      if (!await sequence(ctx, A, D, pr.id, seq) && ++n > 2) break;
    }
    if (ops.length > 5) ctx.sample({ program: pr.id, operations: ops.map((o) => o.slice(0, 2)) });
    ctx.checkTime();
  }
}

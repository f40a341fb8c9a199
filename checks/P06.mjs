// P06: alternatives against their own branches.  C[or(b1..bn)] on T must be the
// first C[bi] that accepts T; longestMatch likewise (a whole line is consumed by
// every accepting branch) plus the exact longest choice per step; conditional()
// against object({ discriminator, branch }).
import { api, toParser, asyncOf, show, tokenLists, product, permutations } from "../lib/prog.mjs";
export const meta = {
  rule: "a program whose token lists produce a new set of outcomes",
  assumptions: ["single branches are judged by P01/P02; here the combination is judged against the branches run alone on the same tokens"],
};
// Branch catalogue: overlapping options, commands, positionals, nested choices.
const B = {
  a: ["obj", { a: ["flag", ["-a"]], k: ["const", "A"] }],
  ab: ["obj", { a: ["flag", ["-a"]], b: ["opt", ["--bb"], "num"] }],
  abo: ["obj", { a: ["flag", ["-a"]], b: ["optl", ["opt", ["--bb"], "num"]] }],
  b: ["obj", { b: ["opt", ["--bb"], "num"], k: ["const", "B"] }],
  bool: ["obj", { a: ["bool", ["-a"]], c: ["bool", ["-c"]] }],
  ca: ["obj", { c: ["flag", ["-c"]], x: ["arg", "ab"] }],
  x: ["obj", { x: ["arg", "ab"], k: ["const", "X"] }],
  xs: ["obj", { xs: ["mult", ["arg", "ab"], { min: 1 }] }],
  xy: ["tup", [["arg", "str"], ["arg", "num"]]],
  cmd: ["cmd", "go", ["obj", { a: ["bool", ["-a"]], x: ["optl", ["arg", "ab"]] }]],
  cmd2: ["cmd", "run", ["obj", { b: ["optl", ["opt", ["--bb"], "num"]] }], { aliases: ["r"] }],
  flag: ["map", ["flag", ["-c"]]],
  opt: ["opt", ["--bb", "-b"], "num"],
  arg: ["arg", "str"],
  nest: ["or", [["obj", { a: ["flag", ["-a"]], d: ["flag", ["-d"]] }], ["cmd", "run", ["obj", { d: ["bool", ["-d"]] }]]]],
  grp: ["group", "G", ["obj", { d: ["flag", ["-d"]], a: ["optl", ["flag", ["-a"]]] }]],
  seq: ["seq", [["flag", ["-a"]], ["cmd", "go", ["obj", { d: ["bool", ["-d"]] }]]]],
  xm: ["mult", ["arg", "ab"]],
  mrg: ["merge", [["obj", { a: ["flag", ["-a"]] }], ["obj", { x: ["optl", ["arg", "ab"]] }]]],
};
const OBJECTS = ["a", "ab", "abo", "b", "bool", "ca", "x", "xs", "cmd", "cmd2", "nest", "grp", "mrg"];
const TOK = { a: ["-a"], ab: ["-a", "--bb=5"], abo: ["-a", "--bb=5"], b: ["--bb=5", "--bb"], bool: ["-a", "-c"], ca: ["-c", "a"], x: ["a"], xs: ["a", "b"], xm: ["a"], xy: ["x", "5"], cmd: ["go", "-a", "a"], cmd2: ["run", "r", "--bb=5"], flag: ["-c"], opt: ["-b", "5"], arg: ["x"], nest: ["-a", "-d", "run"], grp: ["-d", "-a"], seq: ["-a", "go", "-d"], mrg: ["-a", "a"] };
const CTX = {
  id: (q) => q,
  obj: (q) => ["obj", { v: ["bool", ["-V"]], o: q }],
  opt: (q) => ["obj", { o: ["optl", q], v: ["bool", ["-V"]] }],
  cmd: (q) => ["cmd", "top", q],
  tup: (q) => ["tup", [["optl", ["flag", ["-V"]]], q]],
  mrg: (q) => ["merge", [["obj", { v: ["bool", ["-V"]] }], q]],
  tcm: (q) => ["tup", [q, ["cmd", "top", ["obj", { v: ["bool", ["-V"]] }]]]],
};
const PRE = { obj: ["-V"], opt: ["-V"], tup: ["-V"], cmd: [], id: [], mrg: ["-V"], tcm: [] };
const res = (r) => r.success ? "ok " + show(r.value) : "fail";

function report(ctx, d, want, got) {
  ctx.violation(JSON.stringify(d), `${JSON.stringify(d)}\n expected ${want}\n got      ${got}`, d, JSON.stringify(d).length); return true;
}
// The branch the first step commits to: the first that takes a token (or), the
// one that takes most (longestMatch).
function firstActive(parts, d) {
  const lead = d.toks.findIndex((t) => t !== "-V" && t !== "top"), end = d.toks.indexOf("-V", lead);
  const own = d.comb === "long" && d.ctx !== "id" ? d.toks.slice(lead, end < 0 ? undefined : end) : d.toks.filter((t) => t !== "-V" && t !== "top");
  const n = d.bare.map((p) => { const r = step(null, p, own); return r.success ? r.consumed.length : 0; });
  return d.comb === "long" ? n.indexOf(Math.max(...n)) : n.findIndex((x) => x > 0);
}
function judgeLine(A, d, parts, got) {
  const f = firstActive(parts, d);
  const takes = parts.map((p) => takesAll(p, d.toks));
  const r = (i) => res(A.parseSync(parts[i], d.toks));
  const dd = d.toks.indexOf("--");
  // `--` ends the options of whichever branch goes on; alone it selects nothing
  if (dd >= 0 && got !== "fail" && parts.some((p) => res(A.parseSync(p, d.toks.filter((_, i) => i !== dd))) === got)) return [got, true];
  if (dd >= 0 && d.ctx !== "id" && d.ctx !== "cmd" && got === "fail") return ["-", true]; // who took the `--`?
  if (f < 0 || d.ctx !== "id" && d.ctx !== "cmd" && d.names.includes("opt") && d.toks.includes("-V")) { const w = takes.indexOf(true); return [w < 0 ? "fail" : r(w), got === "fail"]; } // -V may be a value here
  if (takes[f]) return [r(f), dd === d.toks.length - 1 && dd >= 0 && got === "fail"];
  const w = takes.indexOf(true);
  if (w < 0) return ["fail", false];
  // Another branch could take the whole line.  It is chosen if it also takes the
  // token at which the active branch stops; if it cannot even start there, the
  // choice stands (there is no backtracking), so failing is fine as well.
  const c = walk(parts[f], d.toks);
  const stands = (d.comb === "long" || dd >= 0) || walk(parts[w], d.toks.slice(c.at), c.term).at === 0;
  return [r(w), stands && (got === "fail" || parts.some((_, j) => j > w && takes[j] && r(j) === got))];
}
function walk(p, toks, term = false) {
  let c = { buffer: toks, state: p.initialState, optionsTerminated: term, usage: p.usage };
  while (c.buffer.length) { const r = p.parse(c); if (!r.success || !r.consumed.length) break; c = r.next; }
  return { at: toks.length - c.buffer.length, term: c.optionsTerminated };
}
// Does the branch consume every token (whether or not it is then complete)?
function takesAll(p, toks) {
  let c = { buffer: toks, state: p.initialState, optionsTerminated: false, usage: p.usage };
  while (c.buffer.length) {
    const r = p.parse(c);
    if (!r.success || r.next.buffer.length >= c.buffer.length && r.next.buffer[0] === c.buffer[0]) return false;
    c = r.next;
  }
  return true;
}
const astOf = (d, q) => CTX[d.ctx](q);
async function one(ctx, A, d, whole, parts) {
  ctx.exec();
  const r = whole.mode === "async" ? await A.parseAsync(whole, d.toks) : A.parseSync(whole, d.toks);
  const got = res(r), [want, fine] = judgeLine(A, { ...d, bare: parts.bare }, parts, got);
  if (want !== got && !fine) report(ctx, d, want, got);
  return want;
}
const build = (A, d) => [
  toParser(A, astOf(d, [d.comb, d.names.map((n) => B[n])]), d.async ? asyncOf() : undefined),
  Object.assign(d.names.map((n) => toParser(A, astOf(d, B[n]))), { bare: d.names.map((n) => toParser(A, B[n])) }),
];
// the choice of one step: the longest branch, the earliest on a tie
function step(A, p, buffer) { return p.parse({ buffer, state: p.initialState, optionsTerminated: false, usage: p.usage }); }
function stepJudge(ctx, A, d, whole, parts) {
  ctx.exec();
  const rs = parts.map((p) => step(A, p, d.toks)).map((r) => r.success ? r.consumed.length : 0);
  const max = Math.max(...rs), want = d.comb === "long" ? rs.indexOf(max) : rs.findIndex((n) => n > 0);
  const r = step(A, whole, d.toks);
  const got = r.success && r.consumed.length ? `branch ${r.next.state[0]} consumes ${r.consumed.length}` : "nothing";
  const exp = max > 0 ? `branch ${want} consumes ${rs[want]}` : "nothing";
  if (exp !== got) report(ctx, { ...d, step: true }, exp, got);
}
// conditional(): the object of its parts is the oracle
const CONDS = {
  opt: { disc: ["opt", ["--type"], "ab"], t: ["--type", "a", "b", "--type=a", "--type=b"] },
  arg: { disc: ["arg", "ab"], t: ["a", "b"] },
  def: { disc: ["def", ["opt", ["--type"], "ab"], "a"], t: ["--type=a", "--type=b"] },
};
const CB = [["n", ["obj", { n: ["opt", ["--num"], "num"] }], ["--num=5"]], ["s", ["obj", { s: ["optl", ["opt", ["--str"], "abc"]] }], ["--str=alpha"]], ["f", ["obj", { f: ["bool", ["-f"]] }], ["-f"]], ["p", ["arg", "num"], ["5"]], ["e", ["obj", {}], []],
  ["o", ["opt", ["--num"], "num"], ["--num=5"]], ["ml", ["obj", { m: ["mult", ["opt", ["--num"], "num"], { min: 1 }] }], ["--num=5"]]];
function condParts(A, d) {
  const c = CONDS[d.disc], b = (n) => CB.find((x) => x[0] === n)[1], T = (q) => toParser(A, q);
  return {
    whole: toParser(A, astOf(d, ["cond", c.disc, { a: b(d.br[0]), b: b(d.br[1]) }, d.dflt ? b(d.dflt) : null]), d.async ? asyncOf() : undefined),
    disc: T(["tup", [c.disc]]), a: T(b(d.br[0])), b: T(b(d.br[1])), dflt: d.dflt ? T(b(d.dflt)) : null,
  };
}
// The discriminator comes first and selects; then the line is the branch's own.
function condOracle(A, d, P) {
  let toks = d.toks.slice(d.ctx === "cmd" ? 1 : 0), v = false;
  if (d.ctx === "cmd" && d.toks[0] !== "top") return "fail";
  const wrap = (r) => d.ctx === "obj" ? { v, o: r } : r;
  if (d.ctx === "obj") {
    const i = toks.findIndex((t, j) => t === "-V" && toks[j - 1] !== "--type");
    if (i >= 0) { v = true; toks = toks.filter((_, j) => j !== i); }
    if (toks.some((t, j) => t === "-V" && toks[j - 1] !== "--type")) return "fail";
  }
  const c = walk(P.disc, toks.slice(0, toks[0] === "--type" ? 2 : 1));
  if (c.at > 0) {
    const k = A.parseSync(P.disc, toks.slice(0, c.at));
    if (!k.success) return "fail";
    const r = A.parseSync(P[k.value[0]], toks.slice(c.at));
    return r.success ? "ok " + show(wrap([k.value[0], r.value])) : "fail";
  }
  if (d.disc === "def") { const r = A.parseSync(P.a, toks); return r.success ? "ok " + show(wrap(["a", r.value])) : "fail"; }
  if (!P.dflt) return "fail";
  const r = A.parseSync(P.dflt, toks);
  return r.success ? "ok " + show(wrap([undefined, r.value])) : "fail";
}
async function cond(ctx, A, d, P) {
  ctx.exec();
  const r = P.whole.mode === "async" ? await A.parseAsync(P.whole, d.toks) : A.parseSync(P.whole, d.toks);
  const want = condOracle(A, d, P), got = res(r);
  if (want !== got) report(ctx, d, want, got);
  return want;
}
export async function replay(ctx, d) {
  const A = await api(ctx);
  if (d.disc) return cond(ctx, A, d, condParts(A, d));
  const [whole, parts] = build(A, d);
  if (d.step) return stepJudge(ctx, A, d, whole, parts);
  await one(ctx, A, d, whole, parts);
}
export async function run(ctx) {
  const A = await api(ctx);
  const names = Object.keys(B);
  function* programs() {
    for (const comb of ["or", "long"]) for (const a of names) for (const b of names) if (a !== b) for (const c of Object.keys(CTX)) if (c !== "mrg" || OBJECTS.includes(a) && OBJECTS.includes(b)) yield { comb, names: [a, b], ctx: c };
    for (const comb of ["or", "long"]) for (const a of names) for (const b of names) for (const c of names) if (a !== b && b !== c && a !== c) yield { comb, names: [a, b, c], ctx: "id", three: true };
  }
  const budget = ctx.quick ? 200 : 20000;
  for (const d0 of programs()) {
    if (!ctx.next()) continue;
    let whole, parts, async;
    try { [whole, parts] = build(A, d0); async = build(A, { ...d0, async: true })[0]; } catch (e) { if (e instanceof TypeError) { ctx.outcome("constructor rejects"); continue; } throw e; }
    const al = [...new Set([...PRE[d0.ctx], ...d0.names.flatMap((n) => TOK[n]), "--", "z"])];
    const pre = d0.ctx === "cmd" ? ["top"] : [];
    let depth = 1; while (al.length ** (depth + 1) <= (d0.three ? 0.3 : 1) * budget) depth++;
    const outs = new Set();
    for (const t of tokenLists(al, depth)) {
      for (const suf of d0.ctx === "tcm" ? [["top", "-V"], ["top"]] : [[]]) {
      const d = { ...d0, toks: [...pre, ...t, ...suf] };
      if (suf.length && t.length === depth && depth > 1) continue;
      ctx.state(); ctx.transition(); ctx.begin(d);
      if (skip(d)) { ctx.outcome("unspecified"); continue; }
      outs.add(await one(ctx, A, d, whole, parts));
      if (async.mode === "async" && t.length < depth) await one(ctx, A, { ...d, async: true }, async, parts);
      if (d.ctx === "id") stepJudge(ctx, A, d, whole, parts);
      }
    }
    ctx.distinct(JSON.stringify(d0) + [...outs].join());
    if (outs.size > 5) ctx.sample({ program: d0, outcomes: outs.size });
    ctx.checkTime();
  }
  for (const disc of Object.keys(CONDS)) for (const a of CB) for (const b of CB) for (const df of [null, ...CB]) for (const c of ["id", "obj", "cmd"]) {
    if (!ctx.next()) continue;
    const d0 = { disc, br: [a[0], b[0]], dflt: df?.[0] ?? null, ctx: c };
    let P, Q;
    try { P = condParts(A, d0); Q = condParts(A, { ...d0, async: true }); } catch (e) { if (e instanceof TypeError) { ctx.outcome("constructor rejects"); continue; } throw e; }
    const al = [...new Set([...CONDS[disc].t, ...a[2], ...b[2], ...(df?.[2] ?? []), ...PRE[c], "zz"])];
    let depth = 1; while (al.length ** (depth + 1) <= budget * 0.6) depth++;
    const outs = new Set();
    for (const t of tokenLists(al, depth)) {
      const d = { ...d0, toks: c === "cmd" ? ["top", ...t] : t };
      ctx.state(); ctx.transition(); ctx.begin(d);
      outs.add(await cond(ctx, A, d, P));
      if (Q.whole.mode === "async" && t.length < depth && disc !== "def") await cond(ctx, A, { ...d, async: true }, Q);
    }
    ctx.distinct(JSON.stringify(d0) + [...outs].join());
    ctx.checkTime();
  }
}
const skip = (d) => d.toks.every((t) => t === "--" || t === "-V" || t === "top");

// P07: every stack of wrappers around every kind of part, in three positions,
// for every sequence of occurrences of the part (valid, invalid, absent).
import { api, toParser, asyncOf, show, tokenLists, product } from "../lib/prog.mjs";
export const meta = {
  rule: "a wrapper stack, part and position that yields a new set of outcomes",
  assumptions: ["an occurrence is one use of the wrapped part on the command line; P01 decides how its tokens decode"],
};
const NUM = { min: 0, max: 9, metavar: "NUM" };
// part: parser and its occurrences: [tokens, {ok,v}]
const CORES = {
  opt: { p: (A, w) => A.option("--n", w(A.vp.integer(NUM))), occ: [[["--n=5"], 5], [["--n", "7"], 7], [["--n=x"]], [["--n=77"]]], none: null },
  arg: { p: (A, w) => A.argument(w(A.vp.integer(NUM))), occ: [[["5"], 5], [["7"], 7], [["x"]]], none: null },
  flag: { p: (A) => A.flag("-f", "--flag"), occ: [[["-f"], true], [["--flag"], true]], none: null },
  bool: { p: (A) => A.option("-f", "--flag"), occ: [[["-f"], true], [["--flag"], true]], none: { ok: true, v: false } },
  neg: { p: (A) => A.negatableFlag({ positive: "--on", negative: "--off" }), occ: [[["--on"], true], [["--off"], false]], none: null },
  cmd: { p: (A, w) => A.command("c", A.object({ x: A.optional(A.option("--x", w(A.vp.integer(NUM)))) })), occ: [[["c"], { x: undefined }], [["c", "--x=5"], { x: 5 }], [["c", "--x=q"]]], none: null },
  obj: { p: (A, w) => A.object({ n: A.option("--n", w(A.vp.integer(NUM))), m: A.option("--m", w(A.vp.integer(NUM))) }), occ: [[["--n=5", "--m=6"], { n: 5, m: 6 }], [["--m=6", "--n=5"], { n: 5, m: 6 }], [["--n=5"]], [["--n=x", "--m=6"]]], none: null, single: true },
  tup: { p: (A, w) => A.tuple([A.option("--n", w(A.vp.integer(NUM))), A.argument(w(A.vp.integer(NUM)))]), occ: [[["--n=5", "6"], [5, 6]], [["6", "--n=5"], [5, 6]], [["--n=5"]], [["--n=5", "x"]]], none: null, single: true },
  or: { p: (A, w) => A.or(A.map(A.flag("-f"), () => "F"), A.option("--n", w(A.vp.integer(NUM)))), occ: [[["-f"], "F"], [["--n=5"], 5], [["--n=x"]]], none: null },
};
const WRAPS = {
  optl: {}, def: {}, deff: {}, map: {}, ne: {}, group: {},
  m0: { min: 0 }, m1: { min: 1 }, m22: { min: 2, max: 2 }, mx1: { max: 1 }, m13: { min: 1, max: 3 },
};
const isMult = (w) => w[0] === "m" && w !== "map";
const DEF = "DEF";
function build(A, d, log) {
  const w = d.async ? asyncOf() : (x) => x;
  let p = CORES[d.core].p(A, w);
  for (const k of [...d.stack].reverse()) {
    const q = p;
    p = k === "optl" ? A.optional(q) : k === "def" ? A.withDefault(q, DEF) : k === "deff" ? A.withDefault(q, () => { log.def++; return DEF; })
      : k === "map" ? A.map(q, (v) => { log.map++; return { mapped: v }; }) : k === "ne" ? A.nonEmpty(q) : k === "group" ? A.group("G", q) : A.multiple(q, WRAPS[k]);
  }
  return d.pos === "root" ? p : d.pos === "obj" ? A.object({ t: p, v: A.option("-V") }) : d.pos === "cmd" ? A.command("top", A.object({ t: p, v: A.option("-V") })) : d.pos === "merge" ? A.merge(A.object({ t: p }), A.object({ v: A.option("-V") })) : A.tuple([p, A.optional(A.flag("-V"))]);
}
const F = { ok: false };
// What the stack means for a list of occurrences; calls counts expected uses of
// map functions and default functions in the value returned.
function D(core, stack, occ, c) {
  if (!stack.length) {
    if (!occ.length) return core.none ?? F;
    if (occ.length > 1 || occ[0].length < 2) return F;
    return { ok: true, v: occ[0][1] };
  }
  const [k, ...rest] = stack;
  if (isMult(k)) {
    const o = WRAPS[k];
    if (occ.length < (o.min ?? 0) || occ.length > (o.max ?? Infinity)) return F;
    const v = [];
    for (const x of occ) { const r = D(core, rest, [x], c); if (!r.ok) return F; v.push(r.v); }
    return { ok: true, v };
  }
  switch (k) {
    case "optl": return occ.length ? D(core, rest, occ, c) : { ok: true, v: undefined };
    case "def": case "deff": if (occ.length) return D(core, rest, occ, c); if (k === "deff") c.def++; return { ok: true, v: DEF };
    case "map": { const r = D(core, rest, occ, c); if (!r.ok) return r; c.map++; return { ok: true, v: { mapped: r.v } }; }
    case "ne": return occ.length ? D(core, rest, occ, c) : F;
    case "group": return D(core, rest, occ, c);
  }
}
// Left open by the documentation, or recorded as a finding (see CANON).
function unspecified(d, occ) {
  const s = d.stack, core = CORES[d.core];
  if (d.core === "cmd" && occ.some((o) => core.occ[o][0].length > 1) && s.some(isMult) && s.slice(s.findIndex(isMult) + 1).some((k) => k !== "map")) return "finding";
  if (!occ.length) {
    // two parts of a stack that can both supply a value without input: which of them
    // does is not documented (and differs by position); one alone is judged.
    const sup = s.filter((k) => k === "optl" || k === "def" || k === "deff" || k === "m0" || k === "mx1").length + (d.core === "bool" ? 1 : 0);
    if (sup > 1) return "two suppliers";
    if (s.includes("ne") && d.pos !== "root") return "finding"; // recorded: nonEmpty() of a part that needs no input, not at the root
    if (d.core === "tup" && (d.pos === "root" || d.pos === "tup") && s.some((k) => k !== "map" && k !== "group" && k !== "ne")) return "finding";
    if (d.core === "bool" && !s.includes("ne")) { if (d.pos === "root" && s.every((k) => k === "map" || k === "group")) return "finding"; }
  }
  if (d.core === "bool" && !occ.length && s.includes("ne")) return "finding";
  return null;
}
function valid(core, stack) {
  if (stack.filter(isMult).length > 1) return false; // how a repeated repetition splits is not specified
  if (core.single && stack.some(isMult)) return false;
  return true;
}
async function judge(ctx, A, d, p, log) {
  ctx.exec();
  log.map = log.def = 0;
  const occ = d.occ.map((i) => CORES[d.core].occ[i]);
  let r;
  try { r = p.mode === "async" ? await A.parseAsync(p, d.toks) : A.parseSync(p, d.toks); } catch (e) { return report(ctx, d, "no exception", "throws " + e.message); }
  const c = { map: 0, def: 0 };
  let want = D(CORES[d.core], d.stack, occ, c);
  if (want.ok) want = { ok: true, v: d.pos === "root" ? want.v : d.pos === "tup" ? [want.v, d.V ? true : undefined] : { t: want.v, v: d.V } };
  const w = want.ok ? "ok " + show(want.v) : "fail", g = r.success ? "ok " + show(r.value) : "fail";
  if (w !== g) return report(ctx, d, w, g);
  if (want.ok && occ.length && (log.map !== c.map || log.def !== c.def)) return report(ctx, d, `${c.map} map calls, ${c.def} default calls`, `${log.map} and ${log.def}`);
  return g;
}
function report(ctx, d, want, got) {
  ctx.violation(JSON.stringify(d), `${JSON.stringify(d)}\n expected ${want}\n got      ${got}`, d, JSON.stringify(d).length);
  return null;
}
export const CANON = [
  { core: "cmd", stack: ["m0", "group"], pos: "root", occ: [1], V: false, toks: ["c", "--x=5"] },
  { core: "tup", stack: ["optl"], pos: "root", occ: [], V: false, toks: [] },
  { core: "bool", stack: ["ne"], pos: "obj", occ: [], V: false, toks: [] },
  { core: "bool", stack: [], pos: "root", occ: [], V: false, toks: [] },
];
export async function replay(ctx, d) {
  const A = await api(ctx), log = {};
  await judge(ctx, A, d, build(A, d, log), log);
}
export async function run(ctx) {
  const A = await api(ctx);
  const W = Object.keys(WRAPS), depth = ctx.quick ? 3 : 4;
  if (ctx.shard === 0) for (const d of CANON) await replay(ctx, d);
  for (const core of Object.keys(CORES)) for (const stack of tokenLists(W, depth)) {
    if (!valid(CORES[core], stack) || !ctx.next()) continue;
    for (const pos of ["root", "obj", "tup", "merge", "cmd"]) {
      if (ctx.quick && stack.length === 3 && (pos === "merge" || pos === "cmd")) continue;
      const d0 = { core, stack, pos };
      const log = {}, alog = {};
      let p, q;
      try { p = build(A, d0, log); q = build(A, { ...d0, async: true }, alog); } catch (e) { if (e instanceof TypeError || e instanceof RangeError) { ctx.outcome("constructor rejects"); continue; } throw e; }
      const outs = new Set();
      const n = CORES[core].occ.length;
      for (const occ of tokenLists([...Array(n).keys()], CORES[core].single ? 1 : core === "cmd" ? 2 : ctx.quick && stack.length > 2 ? 2 : 3)) {
        for (const V of pos === "root" ? [false] : [false, true]) {
          const toks = occ.flatMap((i) => CORES[core].occ[i][0]);
          for (let at = 0; at <= (V ? toks.length : 0); at++) {
            if (V && toks[at - 1] === "--n") continue;
            if (V && (core === "cmd" && at > 0 || core === "tup" && at > 0 && at < toks.length)) continue;
            const t = V ? [...toks.slice(0, at), "-V", ...toks.slice(at)] : toks;
            const d = { ...d0, occ, V, toks: pos === "cmd" ? ["top", ...t] : t };
            ctx.state(); ctx.transition(); ctx.begin(d);
            const u = unspecified(d, occ);
            if (u) { ctx.outcome(u); continue; }
            if (core === "cmd" && occ.length > 1 && stack.some(isMult) === false) continue;
            outs.add(await judge(ctx, A, d, p, log));
            if (q.mode === "async") await judge(ctx, A, { ...d, async: true }, q, alog);
          }
        }
      }
      ctx.distinct(JSON.stringify(d0) + [...outs].join());
      if (outs.size > 6) ctx.sample({ program: d0, outcomes: outs.size });
    }
    ctx.checkTime();
  }
}

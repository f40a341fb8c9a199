// P08: dependency layouts against the direct statement in lib/deps.mjs.
import { api, show, permutations, product, plainMsg } from "../lib/prog.mjs";
import { deps, fields, LAYOUTS, OPT, LEVELS, expected } from "../lib/deps.mjs";
import { explore } from "../lib/sched.mjs";
export const meta = {
  rule: "a (layout, wrappers, asynchrony) triple with a new set of outcomes",
  assumptions: ["each option is given at most once (P01 judges duplicates) except under multiple()", "classes with a recorded finding are judged on their canonical input only"],
};
const VALS = { m: ["dev", "prod", "zz"], r: ["us", "eu"], l: ["debug", "info", "error"], s: ["dev-us", "prod-eu", "prod-us", "any", "zz"], x: [""] };
// wrappers: value "info" is legal for every mode, so a defaulted level is never at stake
const WM = ["req", "optl", ["def", "prod"], "ne", "group", "mapdef"], WL = ["req", "optl", ["def", "info"], "mult", "map", "group", "ne"];
function* cases(quick) {
  for (const l of LAYOUTS) {
    const two = l[1].includes("r");
    for (const m of WM) for (const w of WL) {
      if (two && quick && (!["req", "optl"].includes(m) && m[0] !== "def" || !["req", "mult"].includes(w))) continue;
      for (const async of [undefined, "source", "factory", "both"]) {
        if (quick && (two ? async && async !== "both" : (async === "source" || async === "factory") && !["req", "optl"].includes(m))) continue;
        const wrap = { m, l: w, ...(two ? { r: "optl", s: "optl" } : {}) };
        yield { layout: l[0], wrap, async };
        if (two) yield { layout: l[0], wrap: { ...wrap, r: ["def", "eu"], s: w === "mult" ? "mult" : "req" }, async };
      }
    }
  }
}
function* lines(l, wrap, quick) {
  const used = [...l[1]];
  const opts = used.map((k) => [undefined, ...VALS[k], ...(wrap[k] === "mult" && k === "l" ? [["debug", "info"], ["info", "error"]] : [])]);
  let n = 0;
  for (const vs of product(...opts)) {
    const texts = Object.fromEntries(used.map((k, i) => [k, vs[i]]));
    const items = used.flatMap((k) => texts[k] === undefined ? [] : [].concat(texts[k]).map((v) => [k, v]));
    n++;
    for (const perm of permutations(items)) {
      // multiple values keep their order
      const seen = {}; for (const [k, v] of perm) (seen[k] ??= []).push(v);
      if (Object.entries(seen).some(([k, v]) => k !== "x" && String(v) !== String(texts[k]))) continue;
      if (l[4]?.inner) {
        // the outer flag may stand before or after the command's own tokens
        const own = perm.filter(([k]) => k !== "x"), hasX = own.length < perm.length;
        if (hasX && perm[0][0] !== "x" && perm.at(-1)[0] !== "x") continue;
        const toks = own.flatMap(([k, v]) => spell(k, v, n));
        yield { texts, toks: hasX && perm[0][0] === "x" ? ["-x", ...l[4].pre, ...toks] : [...l[4].pre, ...toks, ...(hasX ? ["-x"] : [])] };
        continue;
      }
      yield { texts, toks: [...(l[4]?.pre ?? []), ...perm.flatMap(([k, v]) => spell(k, v, n))] };
    }
  }
}
const spell = (k, v, n) => k === "x" ? ["-x"] : n % 2 ? [OPT[k], v] : [`${OPT[k]}=${v}`];
function want(l, c, texts) {
  const e = expected(c.wrap, [...l[1]], texts);
  return e.ok ? "ok " + show(l[3](e.val)) : "fail";
}
// Recorded findings: classes excluded except for their canonical case.
export function finding(c) {
  const l = c.layout, src = c.async === "source" || c.async === "both";
  if (l === "concat-rev" || l === "two-concat") return "concat";
  if (l === "nest-rev" && !c.async) return "nest-rev";
  if ((l === "nest-src" || l === "two-nest") && src) return "nest-src";
  return undefined;
}
function judge(ctx, A, d, w, r) {
  const got = r === "deadlock" ? "never settles" : r.thrown ? "throws " + r.thrown : r.success ? "ok " + show(r.value) : "fail";
  if (got === w) return false;
  ctx.violation(JSON.stringify(d), `${JSON.stringify(d)}\n expected ${w}\n got      ${got}${r.error ? " " + plainMsg(A, r.error) : ""}`, d, JSON.stringify(d).length);
  return true;
}
export async function replay(ctx, d) {
  const A = await api(ctx), D = await deps(ctx);
  const l = LAYOUTS.find((x) => x[0] === d.c.layout);
  const p = l[2](A, fields(A, D, { async: d.c.async, wrap: d.c.wrap }));
  const r = await Promise.resolve(p.mode === "sync" ? A.parseSync(p, d.toks) : A.parseAsync(p, d.toks)).catch((e) => ({ thrown: e }));
  judge(ctx, A, d, want(l, d.c, d.texts), r);
}
// Inputs of the recorded findings.
export const CANON = [
  { c: { layout: "concat-rev", wrap: { m: "req", l: "req" } }, texts: { m: "prod", l: "error" }, toks: ["--mode", "prod", "--level", "error"] },
  { c: { layout: "nest-rev", wrap: { m: "req", l: "req" } }, texts: { m: "prod", l: "error" }, toks: ["--mode", "prod", "--level", "error"] },
  { c: { layout: "nest-src", wrap: { m: "req", l: "req" }, async: "source" }, texts: { m: "prod", l: "error" }, toks: ["--mode", "prod", "--level", "error"] },
];
export async function run(ctx) {
  const A = await api(ctx), D = await deps(ctx);
  if (ctx.shard === 0) for (const d of CANON) await replay(ctx, d);
  let nc = 0;
  for (const c of cases(ctx.quick)) {
    if (!ctx.next()) continue;
    nc++;
    const l = LAYOUTS.find((x) => x[0] === c.layout);
    if (finding(c)) { ctx.outcome("recorded finding class"); continue; }
    const p = l[2](A, fields(A, D, { async: c.async, wrap: c.wrap }));
    const outs = new Set(); let bad = 0, i = 0;
    for (const { texts, toks } of lines(l, c.wrap, ctx.quick)) {
      if (l[4]?.needsInput && !toks.length) continue;
      i++;
      ctx.state(); ctx.transition();
      const d = { c, texts, toks }; ctx.begin(d);
      const w = want(l, c, texts);
      let r; try { r = p.mode === "sync" ? A.parseSync(p, toks) : await A.parseAsync(p, toks); } catch (e) { r = { thrown: e }; }
      ctx.exec(); ctx.outcome(w === "fail" ? "rejected" : "accepted"); outs.add(w);
      if (judge(ctx, A, d, w, r) && ++bad > 1) break;
      // all delivery orders for a slice of the lines
      if (c.async && i % (ctx.quick ? 97 : 7) === 0) {
        const res = await explore((gate) => { const q = l[2](A, fields(A, D, { async: c.async, gate, wrap: c.wrap })); return A.parseAsync(q, toks); },
          (r2, sched) => { ctx.exec(); ctx.state(); judge(ctx, A, { ...d, sched }, w, r2); }, 200);
        ctx.transition(res.steps);
      }
    }
    ctx.distinct(JSON.stringify(c) + [...outs].join());
    ctx.sample({ case: c, outcomes: outs.size });
    ctx.checkTime();
  }
}

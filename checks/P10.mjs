// P10: completion of derived options in every dependency layout, at every cursor
// position after every order of the options typed so far.
import { api, permutations, product } from "../lib/prog.mjs";
import { deps, fields, LAYOUTS, OPT, LEVELS, DECL, server } from "../lib/deps.mjs";
export const meta = {
  rule: "a (layout, wrappers, asynchrony) triple with a new set of suggestion lists",
  assumptions: ["values offered for other options alongside are P09's subject; only the values of the derived option are judged"],
};
const ALL = { l: ["debug", "info", "error"], s: ["dev-us", "dev-eu", "prod-us", "prod-eu", "any"] };
const VALS = { m: ["dev", "prod"], r: ["us", "eu"], l: ["info", "debug", "error"], s: ["any", "prod-eu"], x: [""] };
const WM = ["req", "optl", ["def", "prod"], "ne", "group", "mapdef"], WL = ["req", "optl", ["def", "info"], "mult", "map", "group"];
function* cases(quick) {
  for (const l of LAYOUTS) {
    const two = l[1].includes("r");
    for (const m of WM) for (const w of WL) {
      if (quick && two && !["req", "optl"].includes(w)) continue;
      for (const async of [undefined, "source", "factory", "both"]) {
        if (quick && async && async !== "both" && (m !== "req" || w !== "req")) continue;
        const wrap = { m, l: w, ...(two ? { r: "optl", s: "optl" } : {}) };
        yield { layout: l[0], wrap, async };
        if (two) yield { layout: l[0], wrap: { ...wrap, r: ["def", "eu"] }, async };
      }
    }
  }
}
function want(c, target, texts, prefix) {
  const fin = (k) => {
    if (texts[k] !== undefined) return texts[k];
    const w = c.wrap[k];
    return Array.isArray(w) ? w[1] : DECL[k];
  };
  const dom = target === "l" ? LEVELS[fin("m")] : server(fin("m"), fin("r"));
  return dom.filter((x) => x.startsWith(prefix));
}
async function judge(ctx, A, p, d) {
  ctx.exec();
  let got;
  try { got = p.mode === "sync" ? A.suggestSync(p, d.toks) : await A.suggestAsync(p, d.toks); } catch (e) { ctx.violation(JSON.stringify(d), `${JSON.stringify(d)}\n throws ${e.stack.slice(0, 400)}`, d); return; }
  const last = d.toks.at(-1), eq = last.startsWith("--") ? last.indexOf("=") + 1 : 0;
  const texts = got.map((x) => x.text.slice(eq));
  const mine = texts.filter((x) => ALL[d.target].includes(x)).sort();
  const w = want(d.c, d.target, d.texts, last.slice(eq)).sort();
  if (JSON.stringify(mine) !== JSON.stringify(w)) ctx.violation(JSON.stringify(d), `${JSON.stringify(d)}\n expected ${w}\n offered  ${texts}`, d, JSON.stringify(d).length);
  return mine.join();
}
const make = (A, D, c) => { const l = LAYOUTS.find((x) => x[0] === c.layout); return l[2](A, fields(A, D, { async: c.async, wrap: c.wrap })); };
export async function replay(ctx, d) {
  const A = await api(ctx), D = await deps(ctx);
  await judge(ctx, A, make(A, D, d.c), d);
}
// recorded: the default of a source inside a nested object is not seen by a sibling's completion
const NESTED = ["nest-src", "nest-both", "nest-rev", "two-nest"];
export const finding = (c, target, texts) => NESTED.includes(c.layout) && ["m", ...(target === "s" ? ["r"] : [])].some((k) => Array.isArray(c.wrap[k]) && texts[k] === undefined);
export const CANON = [
  { c: { layout: "nest-src", wrap: { m: ["def", "prod"], l: "req" } }, target: "l", texts: {}, toks: ["--level", ""] },
];
export async function run(ctx) {
  const A = await api(ctx), D = await deps(ctx);
  if (ctx.shard === 0) for (const d of CANON) await judge(ctx, A, make(A, D, d.c), d);
  for (const c of cases(ctx.quick)) {
    if (!ctx.next()) continue;
    const l = LAYOUTS.find((x) => x[0] === c.layout), p = make(A, D, c), outs = new Set();
    for (const target of ["l", "s"]) {
      if (!l[1].includes(target)) continue;
      const others = [...l[1]].filter((k) => k !== target);
      let n = 0;
      for (const vs of product(...others.map((k) => [undefined, ...VALS[k]]))) {
        const texts = Object.fromEntries(others.map((k, i) => [k, vs[i]]));
        // values of other derived options are kept legal
        if (texts.l !== undefined && !want(c, "l", texts, "").includes(texts.l)) continue;
        if (texts.s !== undefined && !want(c, "s", texts, "").includes(texts.s)) continue;
        n++;
        for (const perm of permutations(others.filter((k) => texts[k] !== undefined))) {
          if (l[4]?.inner && perm.includes("x") && perm[0] !== "x") continue;
          const sp = (k) => k === "x" ? ["-x"] : n % 2 ? [OPT[k], texts[k]] : [`${OPT[k]}=${texts[k]}`];
          const out = l[4]?.inner && perm[0] === "x" ? ["-x"] : [];
          const pre = [...out, ...(l[4]?.pre ?? []), ...perm.filter((k) => !(l[4]?.inner && k === "x")).flatMap(sp)];
          for (const prefix of ["", "d", "e", "p", "dev", "prod-", "zz"]) {
            if (ctx.quick && prefix.length > 1 && target === "l") continue;
            for (const form of ["sep", "join"]) {
              ctx.state(); ctx.transition();
              if (finding(c, target, texts)) { ctx.outcome("finding"); continue; }
              const d = { c, target, texts, toks: [...pre, ...(form === "sep" ? [OPT[target], prefix] : [`${OPT[target]}=${prefix}`])] };
              ctx.begin(d);
              outs.add(await judge(ctx, A, p, d));
            }
          }
        }
      }
    }
    ctx.distinct(JSON.stringify(c) + [...outs].sort().join("|"));
    if (outs.size > 4) ctx.sample({ case: c, lists: [...outs].slice(0, 8) });
    ctx.checkTime();
  }
}

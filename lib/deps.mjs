// Dependency programs: every layout x wrapper, with a direct statement of what
// each must accept (used by P04, P08, P10).
export const LEVELS = { dev: ["debug", "info"], prod: ["info", "error"] };
export const server = (m, r) => [`${m}-${r}`, "any"];
// defaults declared by the derived parsers for absent sources
export const DECL = { m: "dev", r: "us" };
export async function deps(ctx) { return ctx.load("core/src/dependency.js"); }
// async: undefined | "source" | "factory" | "both"
export function fields(A, D, { async, gate = () => undefined, wrap = {} } = {}) {
  const asyncVp = (vp) => ({
    mode: "async", metavar: vp.metavar, placeholder: vp.placeholder,
    parse: async (s) => { await gate("parse", s); return vp.parse(s); }, format: vp.format.bind(vp),
    ...(vp.choices ? { choices: vp.choices } : {}),
    suggest: async function* (p) { await gate("suggest", p); yield* vp.suggest(p); },
  });
  const src = (vp) => D.dependency(async === "source" || async === "both" ? asyncVp(vp) : vp);
  const fm = async === "factory" || async === "both" ? "async" : "sync";
  const ret = (vp) => fm === "async" ? asyncVp(vp) : vp;
  const M = src(A.vp.choice(["dev", "prod"], { metavar: "MODE" })), R = src(A.vp.choice(["us", "eu"], { metavar: "REGION" }));
  const L = M.derive({ metavar: "LEVEL", mode: fm, factory: (m) => ret(A.vp.choice(LEVELS[m])), defaultValue: () => DECL.m });
  const S = D.deriveFrom({ metavar: "SERVER", mode: fm, dependencies: [M, R], factory: (m, r) => ret(A.vp.choice(server(m, r))), defaultValues: () => [DECL.m, DECL.r] });
  const base = {
    m: () => A.option("--mode", "-m", M), r: () => A.option("--region", R), l: () => A.option("--level", "-l", L), s: () => A.option("--server", S),
    am: () => A.argument(M), al: () => A.argument(L),
    x: () => A.option("-x"),
  };
  const out = {};
  for (const k of Object.keys(base)) {
    const w = wrap[k] ?? "req", p = base[k]();
    out[k] = w === "optl" ? A.optional(p) : Array.isArray(w) && w[0] === "def" ? A.withDefault(p, w[1]) : Array.isArray(w) && w[0] === "defoptl" ? A.withDefault(A.optional(p), w[1])
      : w === "mult" ? A.multiple(p) : w === "map" ? A.map(p, (v) => v) : w === "ne" ? A.nonEmpty(p) : w === "group" ? A.group("G", p) : w === "mapdef" ? A.map(A.withDefault(p, "prod"), (v) => v) : p;
  }
  return out;
}
// [name, fields used, builder, value shape]
export const LAYOUTS = [
  ["obj", "ml", (A, f) => A.object({ m: f.m, l: f.l }), (v) => ({ m: v.m, l: v.l })],
  ["obj-rev", "ml", (A, f) => A.object({ l: f.l, m: f.m }), (v) => ({ l: v.l, m: v.m })],
  ["nest-src", "ml", (A, f) => A.object({ o: A.object({ m: f.m }), l: f.l }), (v) => ({ o: { m: v.m }, l: v.l })],
  ["nest-der", "ml", (A, f) => A.object({ m: f.m, o: A.object({ l: f.l }) }), (v) => ({ m: v.m, o: { l: v.l } })],
  ["nest-both", "ml", (A, f) => A.object({ a: A.object({ m: f.m }), b: A.object({ l: f.l }) }), (v) => ({ a: { m: v.m }, b: { l: v.l } })],
  ["nest-rev", "ml", (A, f) => A.object({ b: A.object({ l: f.l }), a: A.object({ m: f.m }) }), (v) => ({ b: { l: v.l }, a: { m: v.m } })],
  ["tup", "ml", (A, f) => A.tuple([f.m, f.l]), (v) => [v.m, v.l]],
  ["tup-rev", "ml", (A, f) => A.tuple([f.l, f.m]), (v) => [v.l, v.m]],
  ["merge", "ml", (A, f) => A.merge(A.object({ m: f.m }), A.object({ l: f.l })), (v) => ({ m: v.m, l: v.l })],
  ["merge-rev", "ml", (A, f) => A.merge(A.object({ l: f.l }), A.object({ m: f.m })), (v) => ({ l: v.l, m: v.m })],
  ["merge3", "mlx", (A, f) => A.merge(A.object({ m: f.m }), A.object({ x: f.x }), A.object({ l: f.l })), (v) => ({ m: v.m, x: v.x, l: v.l })],
  ["concat", "ml", (A, f) => A.concat(A.tuple([f.m]), A.tuple([f.l])), (v) => [v.m, v.l]],
  ["concat-rev", "ml", (A, f) => A.concat(A.tuple([f.l]), A.tuple([f.m])), (v) => [v.l, v.m]],
  ["group", "ml", (A, f) => A.group("G", A.object({ m: f.m, l: f.l })), (v) => ({ m: v.m, l: v.l })],
  ["map", "ml", (A, f) => A.map(A.object({ m: f.m, l: f.l }), (o) => ({ got: o })), (v) => ({ got: { m: v.m, l: v.l } })],
  ["cmd", "ml", (A, f) => A.command("go", A.object({ m: f.m, l: f.l })), (v) => ({ m: v.m, l: v.l }), { pre: ["go"] }],
  ["or", "ml", (A, f) => A.or(A.object({ m: f.m, l: f.l }), A.object({ k: A.flag("-k") })), (v) => ({ m: v.m, l: v.l }), { needsInput: true }],
  ["or-cmd", "ml", (A, f) => A.or(A.command("no", A.object({ k: A.option("-k") })), A.command("go", A.object({ m: f.m, l: f.l }))), (v) => ({ m: v.m, l: v.l }), { pre: ["go"] }],
  ["obj-cmd", "mlx", (A, f) => A.object({ x: f.x, c: A.command("go", A.object({ m: f.m, l: f.l })) }), (v) => ({ x: v.x, c: { m: v.m, l: v.l } }), { pre: ["go"], inner: "ml" }],
  ["two-der", "mrls", (A, f) => A.object({ m: f.m, r: f.r, l: f.l, s: f.s }), (v) => ({ m: v.m, r: v.r, l: v.l, s: v.s })],
  ["two-rev", "mrls", (A, f) => A.object({ s: f.s, l: f.l, r: f.r, m: f.m }), (v) => ({ s: v.s, l: v.l, r: v.r, m: v.m })],
  ["two-merge", "mrls", (A, f) => A.merge(A.object({ m: f.m, s: f.s }), A.object({ r: f.r, l: f.l })), (v) => ({ m: v.m, s: v.s, r: v.r, l: v.l })],
  ["two-concat", "mrs", (A, f) => A.concat(A.tuple([f.s, f.m]), A.tuple([f.r])), (v) => [v.s, v.m, v.r]],
  ["two-nest", "mrs", (A, f) => A.object({ a: A.object({ m: f.m }), b: A.object({ r: f.r }), s: f.s }), (v) => ({ a: { m: v.m }, b: { r: v.r }, s: v.s })],
  ["two-tup", "mrs", (A, f) => A.tuple([f.r, f.s, f.m]), (v) => [v.r, v.s, v.m]],
];
export const OPT = { m: "--mode", r: "--region", l: "--level", s: "--server", x: "-x" };
// What must come out for given field texts (undefined = not given).
export function expected(wrap, fieldsUsed, texts) {
  const val = {}, final = {};
  const absent = (k) => {
    const w = wrap[k] ?? "req";
    if (w === "optl") return { ok: true, v: undefined };
    if (Array.isArray(w)) return { ok: true, v: w[1] };
    if (w === "mapdef") return { ok: true, v: "prod", final: DECL[k] }; // documented: a mapped default is no source value
    if (w === "mult") return { ok: true, v: [] };
    return { ok: false };
  };
  for (const k of fieldsUsed) {
    if (k === "x") { val.x = texts.x !== undefined; continue; }
    if (k !== "m" && k !== "r") continue;
    const dom = k === "m" ? ["dev", "prod"] : ["us", "eu"];
    if (texts[k] !== undefined) { if (!dom.includes(texts[k])) return { ok: false }; val[k] = final[k] = texts[k]; }
    else { const a = absent(k); if (!a.ok) return a; val[k] = a.v; final[k] = a.final ?? a.v ?? DECL[k]; }
  }
  for (const k of fieldsUsed) {
    if (k !== "l" && k !== "s") continue;
    const dom = k === "l" ? LEVELS[final.m] : server(final.m, final.r);
    const given = texts[k] === undefined ? undefined : [].concat(texts[k]);
    if (given === undefined) { const a = absent(k); if (!a.ok) return a; val[k] = a.v; continue; }
    if (given.some((t) => !dom.includes(t))) return { ok: false };
    val[k] = wrap[k] === "mult" ? given : given[0];
  }
  return { ok: true, val };
}

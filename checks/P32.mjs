// P32: derived defaults see the first pass's values and rank below the command line.
import { api, show, product } from "../lib/prog.mjs";
export const meta = {
  rule: "For every source field (required, optional, defaulted, environment-bound, repeated, flag, argument), every pair of derived fields with every resolver outcome (value, undefined, invalid, throw; plain or asynchronous), static default and wrapper, every container and field order, every subset given validly or not on the command line, and every runner, the values the resolvers were shown, the number of resolver calls and the outcome of the run are those of the reference.",
  assumptions: ["the seed may lack a field that the first pass could not decide; a derived field the command line does not give is always such a field", "whether a resolver runs in a run that fails anyway is not judged"],
};
const NAMES = ["s", "x", "y"];
// source field kinds: state → value
export const SRC = {
  req: { mk: (A, P, vp) => A.option("--s", vp), cli: ["--s", "ab"], v: "ab", miss: "fail" },
  optional: { mk: (A, P, vp) => A.optional(A.option("--s", vp)), cli: ["--s", "ab"], v: "ab", miss: undefined },
  def: { mk: (A, P, vp) => A.withDefault(A.option("--s", vp), "dflt"), cli: ["--s", "ab"], v: "ab", miss: "dflt" },
  env: { mk: (A, P, vp) => P.bindEnv(A.option("--s", vp), "S"), cli: ["--s", "ab"], v: "ab", miss: "env", env: 1 },
  envdef: { mk: (A, P, vp) => P.bindEnv(A.option("--s", vp), "S", "stat"), cli: ["--s", "ab"], v: "ab", miss: "env", env: 1, noenv: "stat" },
  multi: { mk: (A, P, vp) => A.multiple(A.option("--s", vp)), cli: ["--s", "ab", "--s", "c"], v: ["ab", "c"], miss: [] },
  flag: { mk: (A) => A.withDefault(A.flag("--s"), false), cli: ["--s"], v: true, miss: false },
  bool: { mk: (A) => A.option("--s"), cli: ["--s"], v: true, miss: false },
  arg: { mk: (A, P, vp) => A.argument(vp), cli: ["ab"], v: "ab", miss: "fail", arg: 1 },
  optarg: { mk: (A, P, vp) => A.optional(A.argument(vp)), cli: ["ab"], v: "ab", miss: undefined, arg: 1 },
  mapped: { mk: (A, P, vp) => A.map(A.option("--s", vp), (z) => z + "!"), cli: ["--s", "ab"], v: "ab!", miss: "fail" },
  constant: { mk: (A) => A.constant("k"), cli: [], v: "k", miss: "k" },
};
const ent = (fs, ks) => Object.fromEntries(ks.filter((k) => k in fs).map((k) => [k, fs[k]]));
const flat = (r, k) => r?.[k];
export const BOXES = {
  object: { make: (A, fs) => A.object(fs), get: flat },
  merge: { make: (A, fs, o) => A.merge(A.object(ent(fs, [o[0]])), A.object(ent(fs, o.slice(1)))), get: flat },
  mergelast: { make: (A, fs, o) => A.merge(A.object({ k: A.constant(1) }), A.object(ent(fs, o.slice(0, -1))), A.object(ent(fs, o.slice(-1)))), get: flat },
  cmd: { make: (A, fs) => A.command("go", A.object(fs)), get: flat, pre: ["go"] },
  or: { make: (A, fs) => A.or(A.command("no", A.object({})), A.command("go", A.object(fs))), get: flat, pre: ["go"] },
  longest: { make: (A, fs) => A.longestMatch(A.command("go", A.object(fs)), A.command("no", A.constant(1))), get: flat, pre: ["go"] },
  nested: { make: (A, fs) => A.object({ n: A.object(fs), k: A.constant(1) }), get: (r, k) => r?.n?.[k] },
  half: { make: (A, fs) => A.object({ n: A.object(ent(fs, ["x", "y"])), ...ent(fs, ["s"]) }), get: (r, k) => k === "s" ? r?.s : r?.n?.[k] },
  group: { make: (A, fs) => A.group("G", A.object(fs)), get: flat },
  tuple: { make: (A, fs, o) => A.tuple(o.map((k) => fs[k])), get: (r, k, o) => r?.[o.indexOf(k)] },
  concat: { make: (A, fs, o) => A.concat(A.tuple([fs[o[0]]]), A.tuple(o.slice(1).map((k) => fs[k]))), get: (r, k, o) => r?.[o.indexOf(k)] },
  sub: { make: (A, fs) => A.merge(A.object(ent(fs, ["s"])), A.or(A.command("go", A.object(ent(fs, ["x", "y"]))), A.command("no", A.object({})))), get: flat, pre: ["go"] },
  cond: { make: (A, fs) => A.conditional(A.option("--t", A.vp.choice(["p", "q"])), { p: A.object(fs), q: A.object({}) }), get: (r, k) => r?.[1]?.[k], pre: ["--t", "p"] },
};
const OUT = ["value", "undef", "bad", "throw", "null"];
const len = (s) => s === true ? 5 : s === false ? 6 : s === undefined ? 7 : s.length;
// what a resolver answers from what it is shown
const fx = (s) => 10 + len(s), fy = (s, x) => x === undefined ? 30 + len(s) : 40 + x;
/** {fail} | {thrown: [...]} | {values} */
export function expected(d, seenX) {
  const S = SRC[d.src], env = d.reg !== "nocontext";
  let s = d.scli === "ok" ? S.v : S.env ? (d.env && env ? "env" : "noenv" in S ? S.noenv : "fail") : S.miss;
  const fail = d.scli === "bad" || s === "fail" || [d.x, d.y].some((f) => f?.cli === "bad");
  const seedX = d.x.cli === "ok" ? 1 : seenX;
  const res = (f, n) => {
    if (f.cli === "ok") return NAMES.indexOf(n);
    if (d.reg) return f.def === 1 ? 50 + NAMES.indexOf(n) : "fail";
    if (f.out === "throw") return "thrown";
    if (f.out === "bad") return "fail";
    if (f.out === "value") return n === "x" ? fx(s) : fy(s, seedX);
    return f.def === 1 ? 50 + NAMES.indexOf(n) : f.def === 2 ? "fail" : f.wrap === "optional" ? "undef" : "fail";
  };
  const values = { s, x: res(d.x, "x"), ...(d.y ? { y: res(d.y, "y") } : {}) };
  const optX = (f, v) => v === "undef" ? undefined : v;
  const throws = !d.reg && [d.x, d.y].some((f) => f?.out === "throw");
  return { fail: fail || Object.values(values).includes("fail"), throws, values: { s, x: optX(d.x, values.x), ...(d.y ? { y: optX(d.y, values.y) } : {}) }, seed: { s: s === "fail" ? undefined : s, x: seedX, y: d.y?.cli === "ok" ? 2 : undefined } };
}
export function build(A, M, d, log) {
  const env = d.env ? { P_S: "env" } : {}, box = BOXES[d.box], order = d.order;
  const ectx = M.env.createEnvContext({ prefix: "P_", source: (k) => env[k] });
  const get = (r, k) => { try { return box.get(r, k, order); } catch { return undefined; } };
  const answer = (f, n) => (seed) => {
    log.push({ n, seed: seed === undefined ? "none" : { s: get(seed, "s"), x: get(seed, "x"), y: get(seed, "y") } });
    const now = () => {
      if (f.out === "throw") throw new Error("boom-" + n);
      if (f.out === "bad") return 777;
      if (f.out === "undef") return undefined;
      if (f.out === "null") return undefined;
      return n === "x" ? fx(get(seed, "s")) : fy(get(seed, "s"), get(seed, "x"));
    };
    if (!f.async) return now();
    return f.async === 2 ? new Promise((r) => setImmediate(r)).then(now) : Promise.resolve().then(now);
  };
  const derived = M.derived.createDerivedDefaults({ x: answer(d.x, "x"), ...(d.y ? { y: answer(d.y, "y") } : {}) });
  const P = { bindEnv: (p, key, def) => M.env.bindEnv(p, { context: ectx, key, parser: A.vp.string(), ...(def ? { default: def } : {}) }) };
  const fld = (f, n) => {
    let p = M.derived.bindDerivedDefault(A.option("--" + n, A.vp.integer({ min: 1, max: 99 })), { context: derived.context, key: n, ...(f.def ? { default: f.def === 1 ? 50 + NAMES.indexOf(n) : 888 } : {}) });
    if (f.wrap === "optional") p = A.optional(p); if (f.wrap === "map") p = A.map(p, (v) => v);
    return p;
  };
  const mk = { s: () => SRC[d.src].mk(A, P, A.vp.string({ pattern: /^[a-z]*$/ })), x: () => fld(d.x, "x"), y: () => fld(d.y, "y") };
  const fs = Object.fromEntries(order.map((k) => [k, mk[k]()]));
  const two = d.extra === "config" ? [M.config.createConfigContext({ schema: { "~standard": { version: 1, vendor: "v", validate: (v) => ({ value: v }) } } })] : [];
  const contexts = d.reg === "nocontext" ? [] : d.reg === "unreg" ? [ectx] : d.rev ? [ectx, ...two, derived.context] : [derived.context, ...two, ectx];
  return { parser: box.make(A, fs, order), contexts, contextOptions: two.length ? { load: () => ({ config: {}, meta: undefined }) } : {} };
}
export function argsOf(d) {
  const S = SRC[d.src], s = d.scli === "ok" ? S.cli : d.scli === "bad" ? [...S.cli.slice(0, -1), "B9"] : [];
  const o = (f, i) => f?.cli === "ok" ? ["--" + NAMES[i], String(i)] : f?.cli === "bad" ? ["--" + NAMES[i], "100"] : [];
  const rest = d.last ? [...o(d.y, 2), ...o(d.x, 1), ...s] : [...s, ...o(d.x, 1), ...o(d.y, 2)];
  return [...(BOXES[d.box].pre ?? []), ...rest, ...(d.meta ? [d.meta] : [])];
}
export async function once(A, M, d) {
  const log = [], err = []; let r;
  const opts = { args: argsOf(d), stdout() {}, stderr: (x) => err.push(x), onError: () => ({ "!": "fail" }), help: { option: true, onShow: () => ({ "!": "meta" }) } };
  try {
    const b = build(A, M, d, log);
    let x;
    if (d.entry.startsWith("run:")) { // the @optique/run entry points
      let code; const ro = { programName: "prog", args: opts.args, contexts: b.contexts, contextOptions: b.contextOptions, stdout() {}, stderr: (z) => err.push(z), onExit: (c) => { code = c; throw Object.assign(new Error("exit"), { exit: c }); } };
      try { x = M.run[d.entry.slice(4)](b.parser, ro); if (x instanceof Promise) x = await x; } catch (e) { if (e.exit === undefined) throw e; x = { "!": "fail" }; }
    } else { x = A[d.entry](b.parser, "prog", b.contexts, { ...opts, contextOptions: b.contextOptions }); if (x instanceof Promise) x = await x; }
    r = x?.["!"] === "fail" ? { fail: 1, err: err.join(" ").slice(0, 200) } : x?.["!"] === "meta" ? { meta: 1 } : { values: Object.fromEntries(d.order.map((k) => [k, BOXES[d.box].get(x, k, d.order)])) };
  } catch (e) { r = { thrown: String(e?.message ?? e).slice(0, 300) }; }
  return { ...r, log };
}
const setup = async (ctx) => ({ ...await api(ctx), ...await ctx.load("core/src/facade.js") });
const LOADED = async (ctx) => ({ env: await ctx.load("env/src/index.js"), config: await ctx.load("config/src/index.js"), derived: await ctx.load("derived-defaults/src/index.js"), run: await ctx.load("run/src/run.js") });
const fn = (f) => f ? `${f.cli}/${f.async ? "async " : ""}${f.out}${f.def ? "/d" + f.def : ""}${f.wrap ? "/" + f.wrap : ""}` : "-";
const name = (d) => `${d.entry} ${d.box}[${d.order}] s=${d.src}:${d.scli}${d.env ? "/env" : ""} x=${fn(d.x)} y=${fn(d.y)}${d.reg ? " " + d.reg : ""}${d.meta ?? ""}${d.extra ?? ""}`;
let k = 0;
export function judge(d, got) {
  const bad = [], e = expected(d, got.log.find((l) => l.n === "y")?.seed?.x === 51 && d.x.def === 1 ? 51 : undefined);
  const eq = (a, b) => show(a) === show(b);
  if (d.meta) { if (!got.meta && !got.fail) bad.push(`help gave ${show(got)}`); if (got.log.length) bad.push("a resolver ran for a help request"); return bad; }
  if (d.reg && got.log.length) bad.push("an unregistered resolver ran");
  const calls = {}; for (const { n } of got.log) calls[n] = (calls[n] ?? 0) + 1;
  for (const n in calls) if (calls[n] > 1) bad.push(`resolver ${n} ran ${calls[n]} times`);
  const may = e.fail;
  for (const { n, seed } of got.log) {
    if (may) continue;
    if (seed === "none") bad.push(`resolver ${n} was shown nothing`);
    else for (const f of d.order) {
      const want = e.seed[f];
      const fd = d[f], stat = fd?.def === 1 && fd.cli === "none" && eq(seed[f], 50 + NAMES.indexOf(f)); // a static default may stand in
      if (!eq(seed[f], want) && !stat) bad.push(`resolver ${n} saw ${f}=${show(seed[f])}, should be ${show(want)}`);
    }
  }
  if (got.thrown !== undefined) { if (!(e.throws && /^boom-/.test(got.thrown)) && !(e.fail && got.thrown.length)) bad.push("threw " + got.thrown); }
  else if (e.throws && !e.fail) { bad.push(`a resolver's error vanished: ${show({ ...got, log: 0 })}`); }
  else if (e.fail) { if (!got.fail) bad.push(`should fail, gave ${show(got.values)}`); }
  else if (got.fail) bad.push(`should give ${show(e.values)}, failed: ${got.err}`);
  else if (!eq(got.values, e.values)) bad.push(`should give ${show(e.values)}, gave ${show(got.values)}`);
  return bad;
}
async function one(ctx, A, M, d) {
  ctx.begin(d); ctx.exec(1); ctx.transition(d.order.length);
  const got = await once(A, M, d), bad = judge(d, got), e = expected(d);
  ctx.outcome(d.meta ? "help" : e.throws ? "resolver throws" : e.fail ? "fails" : "value");
  ctx.distinct(name(d).replace(/^\S+ /, "") + show(got.values));
  if (bad.length) ctx.violation(`${d.box}|${d.src}|${fn(d.x)}|${fn(d.y)}|${d.entry}`, `${name(d)}: ${bad.join("; ")}`, d, d.order.length * 10 + (d.box !== "object") + (d.entry !== "runWith") + (d.reg ? 1 : 0));
  else if (k++ % 20000 === 1) ctx.sample({ run: name(d), shown: got.log, gives: got.values ?? "failure" });
}
export async function run(ctx) {
  const A = await setup(ctx), M = await LOADED(ctx), deep = !ctx.quick;
  const ENT = ["runWith", "runWithSync", "runWithAsync", "run:run", "run:runSync", "run:runAsync"];
  const valid = (d) => {
    if ([d.x, d.y].some((f) => f?.async) && !/runWith$|Async$/.test(d.entry)) return false;
    if (d.src === "constant" && d.scli !== "none") return false;
    if (d.scli === "bad" && ["flag", "bool"].includes(d.src)) return false;
    if (d.env && !SRC[d.src].env) return false;
    if (d.box === "concat" && d.order.length < 2) return false;
    if (d.reg === "nocontext" && d.entry !== "runWith") return false;
    return true;
  };
  ctx.bound("derived fields", 2);
  let t = 0, q = 0;
  // 1. one derived field: everything
  for (const box of Object.keys(BOXES)) for (const src of Object.keys(SRC)) {
    if (box === "sub" && SRC[src].arg) continue;
    for (const out of ["value", "undef", "bad", "throw"]) {
      if (!ctx.next()) continue;
      ctx.state(1);
      for (const [scli, env, cli, def, wrap, as, entry, order, reg, rev] of product(["none", "ok", "bad"], [0, 1], ["none", "ok", "bad"], [0, 1, 2], ["", "map", "optional"], [0, 1, 2], ENT, [["s", "x"], ["x", "s"]], [undefined, "unreg", "nocontext"], [0, 1])) {
        if (reg && (as || wrap || rev || out !== "value")) continue;
        q++; if (!deep && (as === 2 || (entry !== "runWith" ? q % 7 : reg ? q % 2 : q % 3))) continue; // a fixed thinning of the product in the quick tier
        if (wrap === "optional" && (def || out === "bad" || out === "undef" || reg)) continue; // what optional() makes of a failing fallback is P28's matter
        const d = { box, src, scli, env, x: { cli, out, def, wrap, async: as }, entry, order: box === "sub" ? ["s", "x"] : order, reg, rev, last: t++ % 2 };
        if (!valid(d)) continue;
        await one(ctx, A, M, d);
      }
      for (const order of [["s", "x"], ["x", "s"]]) for (const scli of ["none", "ok"]) await one(ctx, A, M, { box, src: src === "constant" && scli === "ok" ? "req" : src, scli, env: 0, x: { cli: "none", out, def: 0, wrap: "" }, entry: "runWith", order, meta: "--help" });
    }
    if (ctx.checkTime()) return;
  }
  // 2. two derived fields, the second one reading the first
  const ORD = [["s", "x", "y"], ["y", "x", "s"], ["x", "s", "y"], ["y", "s", "x"], ["x", "y", "s"]];
  for (const box of Object.keys(BOXES)) for (const src of Object.keys(SRC)) for (const [xo, yo] of product(OUT.slice(0, 4), OUT.slice(0, 4))) {
    if (box === "sub" && SRC[src].arg) continue;
    if (!ctx.next()) continue;
    ctx.state(1);
    for (const [scli, env, xc, yc, xd, yd, as] of product(["none", "ok"], [0, 1], ["none", "ok", "bad"], ["none", "ok"], [0, 1], [0, 1], [0, 1])) {
      t++;
      if (!deep && (t + (t >> 3)) % 2) continue;
      for (const order of deep ? ORD : [ORD[(t >> 1) % 5]]) {
        const d = { box, src, scli, env, x: { cli: xc, out: xo, def: xd, wrap: t % 4 === 3 ? "map" : "", async: as }, y: { cli: yc, out: yo, def: yd, wrap: "", async: as && t % 2 }, entry: as ? ENT[(t % 3) * 2 % 6 === 4 ? 2 : 0] : ENT[t % 6], order: box === "sub" ? ["s", "x", "y"] : order, rev: t % 2, last: (t >> 1) % 2, extra: t % 3 ? undefined : "config" };
        if (!valid(d)) continue;
        await one(ctx, A, M, d);
      }
    }
    if (ctx.checkTime()) return;
  }
}
export async function replay(ctx, d) { await one(ctx, await setup(ctx), await LOADED(ctx), d); }

// P28: precedence and revalidation of environment, configuration, derived and static fallbacks.
import { api, show, product, asyncOf } from "../lib/prog.mjs";
export const meta = {
  rule: "For every nesting of up to three environment, configuration, derived-default and optional/withDefault layers around an option, argument or repeated option, every availability of every source (missing, unregistered, valid, invalid, unreadable), every static default, every command line (absent, valid, invalid), every surrounding layout and both runners, the run's outcome is the value of the reference: the command line, else from the outermost layer inwards, revalidated against the wrapped parser, else failure.",
  assumptions: ["a static default on an outer layer ends the search (documented: source, then default, then inner)", "a configuration layer without value and default may either fail or look inwards (documented as wrapper-specific)", "the text of errors is not judged, only that the run fails"],
};
let ctxN = 0;
const MISS = { miss: 1 }, BAD = { bad: 1 };
const BASES = ["opt", "arg", "multi"];
const okv = (base, v) => base === "multi" ? Array.isArray(v) && v.length >= 1 && v.length <= 2 && v.every((x) => okv("opt", x)) : typeof v === "number" && v >= 1 && v <= 9 && v !== 6.5;
const V = (base, n) => base === "multi" ? [n, n] : n;
const BADV = (base, i) => base === "multi" ? (i % 2 ? [1, 77] : []) : 77;
// layer: {t, src: "none"|"ok"|"bad"|"junk"|"unreg", def: 0|1|2}
export function expected(d) {
  if (d.cli === "ok") return [{ v: V(d.base, 1) }];
  if (d.cli === "bad") return [BAD];
  // an absent value below optional()/withDefault() is theirs to give; an invalid one may fail the run or count as absent
  const over = (i, own) => [...go(i + 1).flatMap((r) => r === MISS ? [own] : r.v === undefined && !r.bad ? [r, own] : r === BAD ? [BAD, own, ...defs(i)] : [r]), ...miss(i), ...(d.layers.slice(i + 1).some((l) => l.src === "unreg") ? [own] : [])];
  const defs = (i) => d.layers.flatMap((l, j) => j <= i ? [] : l.def === 1 ? [{ v: V(d.base, 5 + j) }] : l.t === 'with' ? [{ v: V(d.base, 9) }] : l.t === 'optional' ? [{ v: undefined }] : []);
  // a bare configuration or derived layer without any value is documented as owning its failure
  const miss = (i) => { const l = d.layers[i + 1]; return !l || l.def || !["none", "gone", "unreg"].includes(l.src) ? [] : l.t === "env" ? miss(i + 1) : [MISS]; };
  const go = (i) => {
    if (i === d.layers.length) return [MISS];
    const l = d.layers[i], chk = (v) => okv(d.base, v) ? { v } : BAD;
    if (l.t === "optional") return over(i, { v: undefined });
    if (l.t === "with") return over(i, { v: V(d.base, 9) });
    if (l.src === "ok") return [chk(V(d.base, 2 + i))];
    if (l.src === "bad") return [chk(BADV(d.base, i))];
    if (l.src === "junk") return [BAD];
    if (l.def) return [chk(l.def === 1 ? V(d.base, 5 + i) : BADV(d.base, i + 1))];
    return l.t === "cfg" ? [MISS, ...go(i + 1)] : go(i + 1);
  };
  return go(0);
}
function envParser(A, base) {
  const int = A.vp.integer();
  if (base !== "multi") return int;
  return { mode: "sync", metavar: "LIST", placeholder: [], parse: (s) => /^[0-9,]*$/.test(s) ? { success: true, value: s === "" ? [] : s.split(",").map(Number) } : { success: false, error: [{ type: "text", text: "bad list" }] }, format: (v) => v.join(",") };
}
const SCHEMA = { "~standard": { version: 1, vendor: "v", validate: (x) => ({ value: x }) } };
export const POS = {
  obj: { make: (A, v, o) => A.object({ v, o }), get: (r) => r.v },
  merge: { make: (A, v, o) => A.merge(A.object({ o }), A.object({ v })), get: (r) => r.v },
  tuple: { make: (A, v, o) => A.tuple([o, v]), get: (r) => r[1] },
  cmd: { make: (A, v, o) => A.or(A.command("go", A.object({ v, o })), A.command("no", A.object({}))), get: (r) => r.v, pre: ["go"] },
  group: { make: (A, v, o) => A.object({ g: A.group("G", A.object({ v })), o }), get: (r) => r.g.v },
  map: { make: (A, v, o) => A.map(A.object({ v, o }), (r) => ({ w: r })), get: (r) => r.w.v },
  after: { make: (A, v, o) => A.object({ o, v }), get: (r) => r.v },
  seq: { make: (A, v, o) => A.seq(o, v), get: (r) => r[1] },
  nest: { make: (A, v, o) => A.object({ n: A.object({ v }), o }), get: (r) => r.n.v },
  mapv: { make: (A, v, o) => A.object({ v: A.map(v, (m) => ({ m })), o }), get: (r) => r.v.m },
  groupv: { make: (A, v, o) => A.object({ v: A.group("G", v), o }), get: (r) => r.v },
  mapgroup: { make: (A, v, o) => A.tuple([A.map(A.group("G", v), (m) => ({ m })), o]), get: (r) => r[0].m },
  rounds: { make: (A, v, o, rep) => A.tuple([rep, v]), get: (r) => r[1], rep: 1 },
  roundsc: { make: (A, v, o, rep) => A.concat(A.tuple([rep]), A.tuple([v])), get: (r) => r[1], rep: 1 },
  sole: { make: (A, v) => A.object({ v }), get: (r) => r.v, sole: 1 },
  solemap: { make: (A, v) => A.map(A.object({ v: A.group("G", v) }), (r) => [r.v]), get: (r) => r[0], sole: 1 },
  ctx: { make: (A, v, o) => A.merge(A.object({ o }), A.merge(A.object({ v }), A.object({ z: A.constant(1) }))), get: (r) => r.v },
};
export function build(A, M, d) {
  const contexts = [], env = {}, cfgs = [];
  let p = A.vp.integer({ min: 1, max: 9 }); if (d.async === 2) p = asyncOf()(p);
  let v = d.base === "arg" ? A.argument(p) : A.option("--v", p);
  if (d.base === "multi") v = A.multiple(v, { min: 1, max: 2 });
  let cfgOpts;
  for (let i = d.layers.length - 1; i >= 0; i--) {
    const l = d.layers[i], def = l.def ? { default: l.def === 1 ? V(d.base, 5 + i) : BADV(d.base, i + 1) } : {};
    const val = l.src === "ok" ? V(d.base, 2 + i) : l.src === "bad" ? BADV(d.base, i) : undefined;
    if (l.t === "optional") v = A.optional(v);
    else if (l.t === "with") v = A.withDefault(v, V(d.base, 9));
    else if (l.t === "env") {
      const name = "K" + i; env["P_" + name] = val !== undefined ? [].concat(val).join(",") : l.src === "junk" ? "zz" : undefined;
      let c = contexts.find((x) => x.kind === "env");
      if (!c || l.src === "unreg") { c = { kind: l.src === "unreg" ? "unreg" : "env", c: M.env.createEnvContext({ prefix: "P_", source: (k) => env[k] }) }; if (l.src === "unreg") env["P_" + name] = [].concat(V(d.base, 2 + i)).join(","); contexts.push(c); }
      v = M.env.bindEnv(v, { context: c.c, key: name, parser: envParser(A, d.base), ...def });
    } else if (l.t === "cfg") {
      const c = M.config.createConfigContext({ schema: SCHEMA });
      contexts.push({ kind: l.src === "unreg" ? "unreg" : "cfg", c });
      const data = l.src === "none" ? { other: 1 } : l.src === "gone" ? undefined : { k: val === undefined ? V(d.base, 2 + i) : val };
      cfgOpts = { load: () => { const r = data === undefined ? undefined : { config: data, meta: undefined }; return d.async ? Promise.resolve(r) : r; } };
      v = M.config.bindConfig(v, { context: c, key: l.fn ? (x) => x.k : "k", ...def });
    } else {
      const c = M.derived.createDerivedDefaults({ k: () => { return d.async ? Promise.resolve(val) : val; } }).context;
      contexts.push({ kind: l.src === "unreg" ? "unreg" : "drv", c });
      v = M.derived.bindDerivedDefault(v, { context: c, key: "k", ...def });
    }
  }
  const pos = POS[d.pos], o = A.optional(A.option("--o", A.vp.string())), rep = pos.rep ? A.multiple(A.option("--o", A.vp.string())) : null;
  let list = contexts.filter((c) => c.kind !== "unreg").map((c) => c.c); if (d.rev) list.reverse();
  return { parser: pos.make(A, v, o, rep), contexts: list, cfgOpts };
}
export async function once(A, M, d) {
  const pos = POS[d.pos], err = [];
  let b;
  try { b = build(A, M, d); } catch (e) { return { build: String(e?.stack ?? e) }; }
  const val = (s) => d.base === "arg" ? [s] : d.base === "multi" ? ["--v", s, "--v", s] : ["--v", s];
  const line = d.cli === "ok" ? val("1") : d.cli === "bad" ? val("88") : [];
  const opts = { args: [...(pos.pre ?? []), ...(d.o === 1 ? ["--o", "x"] : []), ...line, ...(d.o === 2 ? ["--o", "x", ...(pos.rep ? ["--o", "y"] : [])] : [])], contextOptions: b.cfgOpts ?? {}, stdout: () => {}, stderr: (x) => err.push(x), onError: () => ({ failed: 1 }) };
  try {
    let r = A[d.entry](b.parser, "prog", b.contexts, opts); if (r instanceof Promise) r = await r;
    if (r?.failed) return { fail: 1, err: err.join("\n") };
    return { v: pos.get(r) };
  } catch (e) { return { fail: 1, thrown: String(e?.message ?? e).slice(0, 200) }; }
}
const setup = async (ctx) => ({ ...await api(ctx), ...await ctx.load("core/src/facade.js") });
const LOADED = async (ctx) => ({ env: await ctx.load("env/src/index.js"), config: await ctx.load("config/src/index.js"), derived: await ctx.load("derived-defaults/src/index.js") });
export function srcs(t, n, full) {
  if (t === "optional" || t === "with") return [{ t }];
  const S = t === "env" ? ["none", "ok", "bad", "junk", "unreg"] : t === "cfg" ? ["none", "gone", "ok", "bad", "unreg"] : ["none", "ok", "bad", "unreg"];
  return [...product(S.filter((s) => full || (s !== "unreg" && s !== "gone")), full ? [0, 1, 2] : [0, 1])].map(([src, def]) => ({ t, src, def, ...(t === "cfg" && def === 1 && src === "ok" ? { fn: 1 } : {}) })).filter((l) => full || !(l.def && l.src !== "none" && l.src !== "ok"));
}
function* shapes(n) {
  const T = ["env", "cfg", "drv", "optional", "with"];
  for (const ts of product(...Array(n).fill(T))) {
    if (ts.filter((t) => t === "cfg").length > 1) continue;
    if (ts.every((t) => t === "optional" || t === "with") && n > 1) continue;
    if (ts.some((t, i) => i && (t === "optional" || t === "with") && (ts[i - 1] === "optional" || ts[i - 1] === "with"))) continue;
    yield ts;
  }
}
export async function run(ctx) {
  const A = await setup(ctx), M = await LOADED(ctx), deep = !ctx.quick;
  const depth = 3; let ns = 0, ne = 0; ctx.bound("layers", depth);
  for (let n = 1; n <= depth; n++) for (const ts of shapes(n)) {
    const full = n < 3 || (deep && n === 3);
    for (const layers of product(...ts.map((t) => srcs(t, n, full)))) {
      if (!ctx.next()) continue;
      ctx.state(1); ns++;
      const bases = n < 3 || deep ? BASES : ["opt"], poss = n === 1 || (n === 2 && deep) ? Object.keys(POS) : n === 2 ? ["obj", ["merge", "tuple", "cmd", "group", "map", "after", "seq", "nest", "ctx", "mapv", "groupv", "mapgroup", "rounds", "roundsc", "sole", "solemap"][ns % 16]] : [["obj", "merge", "tuple", "cmd", "group", "map", "after", "seq", "nest", "ctx"][ns % 10]];
      for (const base of bases) for (const pos of poss) for (const cli of ["none", "ok", "bad"]) {
        if (n === 3 && cli === "bad" && !deep) continue;
        for (const [entry, as] of n === 1 ? [["runWith", 0], ["runWith", 1], ["runWith", 2], ["runWithSync", 0], ["runWithAsync", 1]] : [["runWith", 1], ["runWithSync", 0], ...(deep ? [["runWith", 2]] : [])]) {
          for (const [o, rev] of POS[pos].sole ? [[0, ns % 2]] : POS[pos].rep ? [[0, 0], [2, ns % 2]] : pos === "seq" ? [[1, 0], [0, 1]] : n === 1 || deep ? [[0, 0], [1, 1], [2, 0]] : [[(ns + (cli === "ok")) % 3, ns % 2]]) {
            const d = { layers, base, pos, cli, entry, async: as, o, rev };
            await one(ctx, A, M, d);
          }
        }
      }
    }
    if (ctx.checkTime()) return;
  }
}
const name = (d) => `${d.layers.map((l) => `${l.t}${l.src ? ":" + l.src : ""}${l.def ? "/d" + l.def : ""}`).join(" > ")} > ${d.base} in ${d.pos}, cli ${d.cli}, o${d.o}, ${d.entry}/${d.async}`;
async function one(ctx, A, M, d) {
  ctx.begin(d); ctx.exec(1); ctx.transition(d.layers.length);
  const exp = expected(d), got = await once(A, M, d);
  if (got.build) { ctx.outcome("refused: "+got.build); return; }
  const ok = exp.some((e) => e === MISS || e === BAD ? got.fail : !got.fail && JSON.stringify(got.v) === JSON.stringify(e.v));
  ctx.outcome(got.fail ? "fails" : d.cli === "ok" ? "command line" : "fallback");
  if (exp.length === 1) ctx.distinct(name(d).replace(/ in .*$/, "") + (got.fail ? "F" : show(got.v)));
  // known: a zero-consumption parse below optional()/withDefault() counts as a match, so absence is an error
  const wi = d.layers.findIndex((l) => l.t === "optional" || l.t === "with"), nothing = d.cli === "none" && wi >= 0 && got.fail && !/Cannot|undefined/.test(got.thrown ?? "") && d.layers.every((l, i) => i === wi || !l.t.startsWith("env") || l.src === "none" || l.src === "unreg") && exp.every((e) => e !== BAD && (e === MISS || e.v === undefined || show(e.v) === show(V(d.base, 9))));
  if (!ok && nothing && d.layers[wi + 1]?.t === "env") ctx.violation(`absent|${d.layers[wi].t}|env|${d.base === "arg" ? "argument" : d.pos}`, `${name(d)}: expected ${show(exp[0].v)}, got failure ${got.thrown ?? got.err ?? ""}`, d, d.layers.length * 10 + d.o);
  else if (!ok) ctx.violation(`${d.layers.map((l) => l.t + ":" + (l.src ?? "") + (l.def ?? "")).join(">")}|${d.base}|${d.cli}`, `${name(d)}: expected ${exp.map((e) => e === MISS ? "failure (nothing given)" : e === BAD ? "failure (invalid value)" : show(e.v)).join(" or ")}, got ${got.fail ? "failure " + (got.thrown ?? got.err ?? "") : show(got.v)}`, d, d.layers.length * 10 + (d.pos !== "obj") + d.o);
  else if (ctxN++ % 5000 === 1) ctx.sample({ in: name(d), out: got.fail ? "failure" : got.v });
}
export async function replay(ctx, d) { await one(ctx, await setup(ctx), await LOADED(ctx), d); }

// P31: prompted fields are asked once each, in order, only for what nothing else supplied.
import { api, show, product, permutations } from "../lib/prog.mjs";
export const meta = {
  rule: "For every layout of up to three prompted fields (options, arguments, wrapped values, environment bindings inside and outside the prompt) in every container, every subset given on the command line (validly or not), every environment availability, every outcome of every prompt (value, failure, rejection, in every settlement latency), and every runner with and without two-phase contexts, the log of prompts asked and the outcome of the run are those of the reference.",
  assumptions: ["an environment value the parser refuses may end the run or be asked for instead when the binding is inside the prompt", "which of several missing required values is reported first is not judged, and prompts of earlier fields may or may not precede that failure"],
};
// field kinds; each consumes CLI through an option --<n> or an argument
export const KINDS = {
  opt: { p: 1, mk: (A, P, n, vp) => P.prompt(A.option("--" + n, vp), P.cfg(n)) },
  arg: { p: 1, arg: 1, mk: (A, P, n, vp) => P.prompt(A.argument(vp), P.cfg(n)) },
  optional: { p: 1, mk: (A, P, n, vp) => P.prompt(A.optional(A.option("--" + n, vp)), P.cfg(n)) },
  def: { p: 1, mk: (A, P, n, vp) => P.prompt(A.withDefault(A.option("--" + n, vp), 7), P.cfg(n)) },
  multi: { p: 1, list: 1, mk: (A, P, n, vp) => P.prompt(A.multiple(A.option("--" + n, vp)), P.cfg(n)) },
  fail: { p: 1, nocli: 1, mk: (A, P, n) => P.prompt(A.fail(), P.cfg(n)) },
  inenv: { p: 1, env: "in", mk: (A, P, n, vp) => P.prompt(P.bindEnv(A.option("--" + n, vp), n), P.cfg(n)) },
  outenv: { p: 1, env: "out", mk: (A, P, n, vp) => P.bindEnv(P.prompt(A.option("--" + n, vp), P.cfg(n)), n) },
  map: { p: 1, mk: (A, P, n, vp) => A.map(P.prompt(A.option("--" + n, vp), P.cfg(n)), (x) => x) },
  mapin: { p: 1, mk: (A, P, n, vp) => P.prompt(A.map(A.option("--" + n, vp), (x) => x), P.cfg(n)) },
  incfg: { p: 1, cfg: 1, mk: (A, P, n, vp) => P.prompt(P.bindConfig(A.option("--" + n, vp), n), P.cfg(n)) },
  plain: { mk: (A, P, n, vp) => A.option("--" + n, vp) },
  maybe: { opt: 1, mk: (A, P, n, vp) => A.optional(A.option("--" + n, vp)) },
};
const obj = (A, fs) => A.object(fs);
const ent = (fs, from, to) => Object.fromEntries(Object.entries(fs).slice(from, to));
export const BOXES = {
  object: { make: obj, get: (r, n) => r[n] },
  tuple: { make: (A, fs) => A.tuple(Object.values(fs)), get: (r, n, i) => r[i] },
  merge: { make: (A, fs) => A.merge(A.object(ent(fs, 0, 1)), A.object(ent(fs, 1, 9))), get: (r, n) => r[n] },
  merge3: { make: (A, fs) => A.merge(A.object({ zz: A.constant(0) }), ...Object.keys(fs).map((k) => A.object({ [k]: fs[k] }))), get: (r, n) => r[n] },
  concat: { make: (A, fs) => A.concat(A.tuple(Object.values(fs).slice(0, 1)), A.tuple(Object.values(fs).slice(1))), get: (r, n, i) => r[i] },
  cmd: { make: (A, fs) => A.command("go", A.object(fs)), get: (r, n) => r[n], pre: ["go"] },
  or: { make: (A, fs, other) => A.or(A.command("no", A.object(other())), A.command("go", A.object(fs))), get: (r, n) => r[n], pre: ["go"] },
  longest: { make: (A, fs, other) => A.longestMatch(A.command("go", A.object(fs)), A.command("no", A.object(other()))), get: (r, n) => r[n], pre: ["go"] },
  nest: { make: (A, fs) => A.object({ in: A.group("G", A.object(ent(fs, 0, 1))), ...ent(fs, 1, 9) }), get: (r, n) => n in r ? r[n] : r.in[n] },
  nestlast: { make: (A, fs) => { const k = Object.keys(fs); return A.object({ ...ent(fs, 0, k.length - 1), in: A.object(ent(fs, k.length - 1, 9)) }); }, get: (r, n) => n in r ? r[n] : r.in[n] },
  mapped: { make: (A, fs) => A.map(A.object(fs), (r) => ({ w: r })), get: (r, n) => r.w[n] },
  cmdshare: { make: (A, fs) => A.merge(A.or(A.command("go", A.object(ent(fs, 0, 1))), A.command("no", A.object({}))), A.object(ent(fs, 1, 9))), get: (r, n) => r[n], pre: ["go"], order: 0 },
};
const SCHEMA = { "~standard": { version: 1, vendor: "v", validate: (x) => ({ value: x }) } };
const NAMES = ["a", "b", "c"];
/** Reference: {log, out} where out = {fail} | {thrown} | {values}; log is the exact list or undefined when several are allowed. */
const MIXED = ["merge", "merge3", "concat", "cmdshare", "nest", "nestlast"];
const low = (f) => f.kind === "arg" || f.kind === "fail" ? 1 : 0;
const TWO = ["env+config", "config+derived", "run"];
/** Field order, and for merged parsers also option fields before argument fields (priority order). */
export const readings = (d) => { const a = d.fields.map((f, i) => i); return MIXED.includes(d.box) && (d.box.startsWith("nest") || d.fields.some(low)) ? [...permutations(a)] : [a]; };
export function expected(d, order) {
  const withEnv = d.mode !== "parse", bad = d.fields.some((f) => f.cli === "bad");
  const vals = {}, log = []; let out, loose = false;
  for (const i of order) {
    const f = d.fields[i], K = KINDS[f.kind], n = NAMES[i], w = (v) => K.list ? [v] : v;
    if (f.cli === "ok") { vals[n] = w(1 + i); continue; }
    if (f.cli === "bad") { out ??= { fail: 1 }; break; }
    if (K.env && withEnv && f.env === "ok") { vals[n] = 11 + i; continue; }
    if (K.env && withEnv && f.env === "bad") { if (K.env === "out") { out = { fail: 1 }; break; } loose = true; }
    if (K.cfg && d.mode.includes("config") && f.env === "ok") { vals[n] = 11 + i; continue; }
    if (K.opt) { vals[n] = undefined; continue; }
    if (!K.p) { out = { fail: 1 }; break; }
    log.push(n);
    if (f.out === "fail") { out = { fail: 1 }; break; }
    if (f.out === "throw") { out = { thrown: "boom-" + n }; break; }
    vals[n] = w(101 + i);
  }
  const missing = d.fields.some((f) => !KINDS[f.kind].p && !KINDS[f.kind].opt && f.cli === "none" || KINDS[f.kind].env === "out" && f.env === "bad" && f.cli === "none" && withEnv);
  // what the first pass of a run with two-pass contexts may ask: everything unsupplied except configuration-bound prompts
  const need = d.fields.flatMap((f, i) => KINDS[f.kind].p && f.cli === "none" && !(KINDS[f.kind].env && withEnv && f.env === "ok") && !(KINDS[f.kind].cfg && d.mode.includes("config")) ? [NAMES[i]] : []);
  const pass1 = []; for (const i of order) if (need.includes(NAMES[i])) { pass1.push(NAMES[i]); if (d.fields[i].out !== "value") break; }
  return { log, out: out ?? { values: vals }, loose, bad, missing, need, pass1, two: TWO.includes(d.mode) };
}
export function build(A, M, d, log) {
  const env = {};
  d.fields.forEach((f, i) => { if (f.env === "ok") env["P_" + NAMES[i]] = String(11 + i); if (f.env === "bad") env["P_" + NAMES[i]] = "zz"; });
  const ectx = M.env.createEnvContext({ prefix: "P_", source: (k) => env[k] });
  const cctx = M.config.createConfigContext({ schema: SCHEMA });
  const dctx = M.derived.createDerivedDefaults({ z: (v) => { return v ? 1 : 2; } }).context;
  let active = 0;
  const execute = async (c) => {
    log.asked.push(c.n);
    if (active++) log.overlap = true;
    const f = d.fields[NAMES.indexOf(c.n)];
    const lat = f?.lat ?? 0;
    if (lat === 1) await null;
    if (lat === 2) await new Promise((r) => setImmediate(r));
    active--;
    if (f?.out === "throw") throw Object.assign(new Error("boom-" + c.n), { name: "Boom" });
    if (f?.out === "fail") return { success: false, error: [{ type: "text", text: "cancelled-" + c.n }] };
    const v = 101 + NAMES.indexOf(c.n);
    return { success: true, value: KINDS[f?.kind]?.list ? [v] : v };
  };
  const P = {
    prompt: M.prompt.createPromptAdapter({ execute }), cfg: (n) => ({ n }),
    bindEnv: (p, n) => M.env.bindEnv(p, { context: ectx, key: n, parser: A.vp.integer() }),
    bindConfig: (p, n) => M.config.bindConfig(p, { context: cctx, key: n }),
  };
  const fs = {};
  d.fields.forEach((f, i) => { fs[NAMES[i]] = KINDS[f.kind].mk(A, P, NAMES[i], A.vp.integer()); });
  const other = () => ({ q: P.prompt(A.option("--q", A.vp.integer()), { n: "q" }) });
  const parser = BOXES[d.box].make(A, fs, other);
  const cfgData = {}; d.fields.forEach((f, i) => { if (f.env === "ok") cfgData[NAMES[i]] = 11 + i; });
  const contexts = { parse: [], env: [ectx], "env+config": [ectx, cctx], "config+derived": [cctx, dctx, ectx], run: [ectx, dctx] }[d.mode];
  const contextOptions = d.mode.includes("config") ? { load: () => Promise.resolve({ config: cfgData, meta: undefined }) } : {};
  return { parser, contexts, contextOptions };
}
export function argsOf(d) {
  const opts = [], args = [];
  d.fields.forEach((f, i) => {
    if (f.cli === "none") return;
    const v = f.cli === "ok" ? String(1 + i) : "x";
    if (KINDS[f.kind].arg) args.push(v); else opts.push("--" + NAMES[i], v);
  });
  const pre = BOXES[d.box].pre ?? [];
  return [...pre, ...(d.rev ? [...args, ...opts] : [...opts, ...args]), ...(d.extra ?? [])];
}
export async function once(A, M, d) {
  const log = { asked: [] }, err = [], out = [];
  let r;
  try {
    const b = build(A, M, d, log), args = argsOf(d);
    if (d.mode === "parse") {
      if (d.how === "suggest") { await A.suggestAsync(b.parser, args.length ? args : [""]); r = { values: {} }; }
      else if (d.how === "doc") { await A.getDocPageAsync(b.parser, args); r = { values: {} }; }
      else { const x = await A.parseAsync(b.parser, args); r = x.success ? { raw: x.value } : { fail: 1, err: A.plainMsg?.(x.error) }; }
    } else {
      const x = await A[d.mode === "run" ? "runWithAsync" : "runWith"](b.parser, "prog", b.contexts, { args, contextOptions: b.contextOptions, stdout: (s) => out.push(s), stderr: (s) => err.push(s), onError: () => ({ "!": "fail" }), ...(d.how ? { help: { command: true, option: true, onShow: () => ({ "!": "meta" }) }, version: { value: "1", command: true, option: true, onShow: () => ({ "!": "meta" }) }, completion: { command: true, option: true, onShow: () => ({ "!": "meta" }) } } : {}) });
      r = x?.["!"] === "fail" ? { fail: 1, err: err.join("\n") } : x?.["!"] === "meta" ? { meta: 1 } : { raw: x };
    }
    if (r.raw !== undefined) { r.values = {}; d.fields.forEach((f, i) => { r.values[NAMES[i]] = BOXES[d.box].get(r.raw, NAMES[i], i); }); }
  } catch (e) { r = { thrown: String(e?.message ?? e).slice(0, 300) }; }
  await new Promise((s) => setImmediate(s));
  return { ...r, asked: log.asked, overlap: log.overlap };
}
const setup = async (ctx) => ({ ...await api(ctx), ...await ctx.load("core/src/facade.js") });
const LOADED = async (ctx) => ({ env: await ctx.load("env/src/index.js"), config: await ctx.load("config/src/index.js"), derived: await ctx.load("derived-defaults/src/index.js"), prompt: await ctx.load("prompt/src/index.js") });
const fname = (f) => `${f.kind}:${f.cli}${f.env && f.env !== "none" ? "/" + f.env : ""}${f.out && f.out !== "value" ? "!" + f.out : ""}`;
const name = (d) => `${d.mode} ${d.box}(${d.fields.map(fname).join(", ")})${d.how ? " " + d.how : ""}${d.extra ? " " + d.extra.join(" ") : ""}`;
let k = 0;
function judge(d, e, got) {
  const bad = [], counts = {}; for (const n of got.asked) counts[n] = (counts[n] ?? 0) + 1;
  const retry = e.two && !d.extra && (e.bad || e.missing || d.fields.some((f, i) => e.need.includes(NAMES[i]) && f.out === "fail" && f.cli === "none"));
  const exactly = (l) => show(got.asked) === show(l);
  if (got.overlap) bad.push("two prompts were open at once");
  if (!(d.extra && e.two)) for (const n in counts) if (counts[n] > (e.two && e.need.includes(n) ? 2 : 1) && !(retry && e.need.includes(n) && ((bad.retry = true)))) bad.push(`${n} was asked ${counts[n]} times`);
  for (const n in counts) if (!e.need.includes(n) && !e.log.includes(n) && !(d.extra && e.two)) bad.push(`${n} was asked although supplied`);
  const outOk = e.out.values ? !got.fail && got.thrown === undefined && show(got.values) === show(e.out.values) : e.out.thrown ? got.thrown === e.out.thrown : !!got.fail;
  if (d.extra) { // a line no reading of which is valid: nobody is asked (the first of two passes may ask before the line is refused)
    if (got.asked.length && !e.two) bad.push(`asked ${got.asked} although the line is refused`);
    if (!got.fail) bad.push(`not refused: ${show(got)}`);
  } else if (e.loose) { /* a refused environment value: only the general rules above */ }
  else if (e.bad || e.missing) {
    if (!e.two && !(got.asked.length <= e.log.length && exactly(e.log.slice(0, got.asked.length)))) bad.push(`asked ${got.asked}, at most ${e.log} precede the failure`);
    if (!got.fail && !(got.thrown?.startsWith("boom-"))) bad.push(`should fail but ${show(got)}`);
  } else {
    const throws1 = e.two && e.pass1.length && d.fields[NAMES.indexOf(e.pass1.at(-1))].out === "throw";
    const logs = !e.two ? [e.log] : throws1 ? [e.pass1, e.log] : [e.log, [...e.pass1, ...e.log]];
    const ok = outOk || (throws1 && got.thrown === "boom-" + e.pass1.at(-1));
    if (retry && outOk && !logs.some(exactly)) bad.retry = true;
    else if (retry && got.thrown?.startsWith("boom-") && d.fields.some((f, i) => got.thrown === "boom-" + NAMES[i] && f.out === "throw" && e.need.includes(NAMES[i]))) bad.retry = true;
    else if (!logs.some(exactly)) bad.push(`asked [${got.asked}], should be [${logs.join("] or [")}]`);
    if (!ok && !bad.retry) bad.push(`should ${e.out.values ? "give " + show(e.out.values) : e.out.thrown ? "throw " + e.out.thrown : "fail"}, got ${show(got)}`);
  }
  return bad;
}
async function one(ctx, A, M, d) {
  ctx.begin(d); ctx.exec(1); ctx.transition(d.fields.length + 1);
  const got = await once(A, M, d);
  const bad = [];
  if (d.how) { // meta requests, suggestions, pages: nobody is asked
    if (got.asked.length) bad.push(`asked ${got.asked}`);
    if (d.how === "meta" && !got.meta) bad.push(`not a meta request but ${show(got)}`);
    if (got.thrown) bad.push("threw " + got.thrown);
    ctx.outcome(d.how);
  } else {
    const es = readings(d).map((o) => expected(d, o)), tries = es.map((e) => judge(d, e, got));
    const e = es[0]; const best = tries.sort((x, y) => x.length - y.length || !!x.retry - !!y.retry)[0]; bad.push(...best);
    if (best.retry && !bad.length) ctx.violation("retry|two-pass", `${name(d)}: a refused prompt is put again in the same run: asked [${got.asked}]`, d, d.fields.length * 10 + (d.box !== "object"));
    ctx.outcome(e.out.values ? e.log.length ? "asked" : "supplied" : e.out.thrown ? "throws" : "fails");
    ctx.distinct(d.box + d.fields.map(fname) + got.asked);
  }
  if (bad.length) ctx.violation(`${d.box}|${d.mode}|${d.fields.map(fname)}${d.how ?? ""}`, `${name(d)}: ${bad.join("; ")}`, d, d.fields.length * 10 + (d.box !== "object") + (d.mode !== "parse") * 2 + (d.extra ? 3 : 0));
  else if (k++ % 20000 === 1) ctx.sample({ run: name(d), asked: got.asked });
}
const MODES = ["parse", "env", "env+config", "config+derived", "run"];
export function states(kind, small) {
  const K = KINDS[kind], clis = K.nocli ? ["none"] : small ? ["none", "ok"] : ["none", "ok", "bad"], envs = K.env || K.cfg ? small ? ["none", "ok"] : ["none", "ok", ...(K.env ? ["bad"] : [])] : ["none"];
  const r = [];
  for (const cli of clis) for (const env of envs) for (const out of K.p && cli === "none" ? ["value", "fail", "throw"] : ["value"]) r.push({ kind, cli, env, out });
  return r;
}
export async function run(ctx) {
  const A = await setup(ctx), M = await LOADED(ctx), deep = !ctx.quick;
  let t = 0; ctx.bound("prompted fields", 3);
  const kinds = Object.keys(KINDS);
  for (let n = 1; n <= 3; n++) for (const ks of product(...Array(n).fill(kinds))) {
    if (n > 1 && ks.some((x, i) => KINDS[x].arg && ks.slice(i + 1).some((y) => KINDS[y].arg))) continue; // which argument is which is not the subject here
    if (n === 3 && !deep && ks.filter((x) => !KINDS[x].p).length > 1) continue;
    if (!ctx.next()) continue;
    ctx.state(1);
    const boxes = Object.keys(BOXES).filter((b) => n > 1 || !["merge", "concat", "cmdshare"].includes(b));
    for (const fields of product(...ks.map((x) => states(x, n === 3 && !deep)))) {
      t++;
      const bs = n < 3 ? boxes : deep ? [boxes[t % 12], boxes[(t * 5 + 3) % 12]] : [boxes[t % boxes.length]];
      for (const [j, box] of bs.entries()) {
        const ms = n === 1 || (n === 2 && deep) ? MODES : n === 2 ? [MODES[(t + j) % 5], MODES[(t + j + 2) % 5]] : [MODES[(t >> 1) % 5]];
        for (const mode of ms) await one(ctx, A, M, { box, mode, fields: fields.map((f, i) => ({ ...f, lat: (t + i) % 3 })), rev: t % 2 });
      }
    }
    // refused lines, meta requests, suggestions and pages ask nobody
    const base = ks.map((kind) => ({ kind, cli: "none", env: "none", out: "value" }));
    for (const [j, box] of (n === 1 ? boxes : [boxes[t % boxes.length], boxes[(t + 5) % boxes.length]]).entries()) {
      const fields = base.map((f, i) => (t + i) % 3 || KINDS[f.kind].nocli ? f : { ...f, cli: "ok" });
      const full = ks.some((x) => KINDS[x].arg) ? [] : [["junk"]];
      for (const extra of [["--nope"], ...full, ...(full.length ? [["--nope=1"]] : [])]) for (const mode of MODES) if (box !== "cmdshare") await one(ctx, A, M, { box, mode, fields, extra });
      for (const extra of [["--help"], ["--version"], ["--completion", "bash"]]) for (const mode of MODES.slice(1)) await one(ctx, A, M, { box, mode, fields, extra, how: "meta" });
      for (const how of ["suggest", "doc"]) for (const extra of how === "doc" ? [undefined] : [[""], ["-"], ["--a"], ["--a", ""]]) await one(ctx, A, M, { box, mode: "parse", fields, extra, how });
    }
    if (ctx.checkTime()) return;
  }
  await packages(ctx, A, M);
}
// the inquirer and clack packages: each prompt type asks exactly once, blank numbers and cancellations fail
export const WRAPPED = {
  inquirer: ["input", "password", "editor", "confirm", "number", "select", "rawlist", "expand", "checkbox"],
  clack: ["text", "password", "confirm", "number", "select", "multiselect"],
};
async function packages(ctx, A, M) {
  for (const pkg of Object.keys(WRAPPED)) {
    const mod = await ctx.load(pkg + "/src/index.js");
    for (const type of WRAPPED[pkg]) for (const cli of ["none", "ok"]) for (const outcome of ["value", "blank", "cancel", "throw"]) for (const box of ["object", "or", "merge", "tuple"]) for (const mode of ["parse", "env+config"]) {
      if (!ctx.next()) continue;
      if (outcome === "blank" && type !== "number") continue;
      ctx.state(1);
      await wrapped(ctx, A, M, mod, { pkg, type, cli, outcome, box, mode });
    }
  }
}
async function wrapped(ctx, A, M, mod, d) {
  ctx.begin(d); ctx.exec(1); ctx.transition(1);
  let asked = 0;
  const list = d.type === "checkbox" || d.type === "multiselect", want = d.type === "confirm" ? true : d.type === "number" ? 42 : list ? ["x", "y"] : "x";
  const prompter = async () => {
    asked++; await null;
    if (d.outcome === "blank") return undefined;
    if (d.outcome === "throw") throw new Error("boom");
    if (d.outcome === "cancel") { if (d.pkg === "clack") return Symbol.for("clack:cancel"); throw Object.assign(new Error("User force closed"), { name: "ExitPromptError" }); }
    return want;
  };
  const inner = d.type === "confirm" ? A.option("--v") : d.type === "number" ? A.option("--v", A.vp.integer()) : list ? A.multiple(A.option("--v", A.vp.string())) : A.option("--v", A.vp.string());
  const cfg = { type: d.type, message: "m", choices: d.type === "expand" ? [{ value: "x", key: "x", name: "x" }] : ["x", "y"], options: [{ value: "x" }, { value: "y" }], prompter };
  const given = d.type === "confirm" ? ["--v"] : d.type === "number" ? ["--v", "7"] : ["--v", "z"], gv = d.type === "confirm" ? true : d.type === "number" ? 7 : list ? ["z"] : "z";
  let r;
  try {
    const fs = { v: mod.prompt(inner, cfg), o: A.optional(A.option("--o", A.vp.string())) }, box = BOXES[d.box];
    const parser = box.make(A, fs, () => ({ q: A.constant(1) })), args = [...(box.pre ?? []), ...(d.cli === "ok" ? given : []), "--o", "1"];
    const cctx = M.config.createConfigContext({ schema: SCHEMA });
    if (d.mode === "parse") { const x = await A.parseAsync(parser, args); r = x.success ? { v: box.get(x.value, "v", 0) } : { fail: 1 }; }
    else { const x = await A.runWith(parser, "prog", [cctx], { args, contextOptions: { load: () => ({ config: {}, meta: undefined }) }, stdout() {}, stderr() {}, onError: () => ({ "!": 1 }) }); r = x?.["!"] ? { fail: 1 } : { v: box.get(x, "v", 0) }; }
  } catch (e) { r = { thrown: String(e?.message) }; }
  const bad = [];
  if (d.cli === "ok") { if (asked) bad.push(`asked ${asked} times although given`); if (show(r.v) !== show(gv)) bad.push(`gave ${show(r)}`); }
  else {
    if (asked !== 1 && !(d.mode !== "parse" && asked === 2) && !(d.mode !== "parse" && (d.outcome === "blank" || d.outcome === "cancel"))) bad.push(`asked ${asked} times`);
    const ok = d.outcome === "value" ? show(r.v) === show(want) : d.outcome === "throw" ? r.thrown === "boom" : d.outcome === "blank" ? r.fail : d.outcome === "cancel" && d.pkg === "clack" ? r.fail || true : r.fail;
    if (!ok) bad.push(`${d.outcome}: ${show(r)}`);
  }
  ctx.outcome(d.cli === "ok" ? "supplied" : d.outcome);
  if (bad.length) ctx.violation(`${d.pkg}|${d.type}|${d.outcome}|${d.cli}`, `${d.pkg} ${d.type} in ${d.box} (${d.mode}), cli ${d.cli}: ${bad.join("; ")}`, d, 1);
}
export async function replay(ctx, d) { const A = await setup(ctx), M = await LOADED(ctx); if (d.pkg) await wrapped(ctx, A, M, await ctx.load(d.pkg + "/src/index.js"), d); else await one(ctx, A, M, d); }

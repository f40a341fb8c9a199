// P36: lifecycle hooks under every assignment of outcomes, and two dispatches under every interleaving.
import { api, show, product, asyncOf } from "../lib/prog.mjs";
import { explore } from "../lib/sched.mjs";
export const meta = {
  rule: "For every assignment of outcomes (absent, plain, asynchronous, with or without a resource, thrown, rejected, undefined thrown) to the six hooks and the handler, the trace of starts and ends, every argument (invocation, context object, result, error) and the final outcome of runProgram() are those of the reference; refused command lines and meta requests call nothing; two concurrent dispatches keep their traces and resources apart under every interleaving of their asynchronous steps.",
  assumptions: ["a failing afterEach makes its own scope's onError run too (documented)", "a command without beforeEach shares the program's context (documented)"],
};
const BEFORE = ["absent", "void", "null", "res", "ares", "avoid", "throw", "reject", "rthen"], AFTER = ["absent", "ok", "aok", "throw", "reject"], HANDLER = ["ok", "aok", "throw", "reject", "undef"], ERRH = ["absent", "ok", "aok", "throw", "reject"];
const spin = async () => { for (let i = 0; i < 3; i++) await null; };
const isFail = (k) => ["throw", "reject", "undef"].includes(k);
// reference: list of events [name, ctx tag, extra]; final {error}|{}
export function reference(o) {
  const ev = []; let pctx = {}, tag = 0;
  const scope = (pre, b, a, e, inner, fallback) => {
    let ctx = b === "absent" ? fallback : { empty: 1 };
    const r = (() => {
      if (b !== "absent") {
        ev.push([pre + "b"]);
        if (isFail(b)) return { error: pre + "b" };
        if (["res", "ares", "rthen"].includes(b)) ctx = { res: pre };
      }
      const ir = inner(ctx);
      if (ir.error !== undefined) return ir;
      if (a !== "absent") { ev.push([pre + "a", ctx, "result"]); if (isFail(a)) return { error: pre + "a" }; }
      return ir;
    })();
    if (r.error !== undefined && e !== "absent") ev.push([pre + "e", ctx, r.error]);
    return r;
  };
  const final = scope("p", o.pb, o.pa, o.pe, (pc) => scope("c", o.cb, o.ca, o.ce, (cc) => {
    const given = o.cb !== "absent" ? cc : o.pb !== "absent" ? pc : undefined;
    ev.push(["h", given]); return isFail(o.h) ? { error: "h" } : {};
  }, pc), { empty: 1 });
  return { ev, final };
}
class Exit extends Error {}
/** Sets up hooks and handler for outcomes o; `gate` (optional) delays the asynchronous ones. */
export function world(A, M, o, gate, who = "") {
  const log = [], errors = {}, result = { the: "result" + who }, res = {}, open = [];
  const fail = (n) => n === "undef" ? undefined : errors[n] ??= new Error(who + n);
  const enter = (n) => { log.push(["start", n]); open.push(n); }, leave = (n) => { log.push(["end", n]); open.splice(open.indexOf(n), 1); };
  const act = (n, kind, value) => {
    enter(n);
    if (gate) return (async () => { await gate(who + n); leave(n); if (kind === "throw" || kind === "reject") throw fail(n); if (kind === "undef") throw undefined; return value; })();
    if (kind === "throw") { leave(n); throw fail(n); }
    if (kind === "undef") { leave(n); errors[n] = undefined; throw undefined; }
    if (kind === "reject") return spin().then(() => { leave(n); throw fail(n); });
    if (kind.startsWith("a")) return spin().then(() => { leave(n); return value; });
    if (kind === "rthen") return { then: (f) => spin().then(() => { leave(n); f(value); }) };
    leave(n); return value;
  };
  const args = [];
  const mkh = (pre, b, a, e) => {
    const h = {};
    if (b !== "absent") h.beforeEach = (...x) => { args.push([pre + "b", x]); if (open.length) log.push(["overlap", pre + "b"]); return act(pre + "b", b, ["res", "ares", "rthen"].includes(b) ? (res[pre] = { resource: who + pre }) : b === "null" ? null : undefined); };
    if (a !== "absent") h.afterEach = (...x) => { args.push([pre + "a", x]); if (open.length) log.push(["overlap", pre + "a"]); return act(pre + "a", a, "ignored"); };
    if (e !== "absent") h.onError = (...x) => { args.push([pre + "e", x]); if (open.length) log.push(["overlap", pre + "e"]); return act(pre + "e", e, "ignored"); };
    return h;
  };
  const handler = (...x) => { args.push(["h", x]); if (open.length) log.push(["overlap", "h"]); return act("h", o.h, result); };
  const chooks = mkh("c", o.cb, o.ca, o.ce), phooks = mkh("p", o.pb, o.pa, o.pe);
  return { log, args, errors, result, res, handler, chooks, phooks };
}
export const LAYOUTS = {
  leaf: { path: ["go"], others: [["no"]] }, root: { path: [], others: [["x"]] }, deep: { path: ["a", "b"], others: [["a"], ["a", "b", "c"]] }, parent: { path: ["a"], others: [["a", "b"]] },
};
function commands(A, M, w, d) {
  const L = LAYOUTS[d.layout], n = d.async ? asyncOf()(A.vp.integer()) : A.vp.integer();
  const mine = M.defineCommand({ ...(d.entry ? {} : { path: L.path }), parser: A.object({ n: A.withDefault(A.option("-n", n), 1) }), handler: w.handler, ...(Object.keys(w.chooks).length || d.emptyHooks ? { hooks: w.chooks } : {}) });
  const others = L.others.map((p) => M.defineCommand({ path: p, parser: A.object({}), handler() { w.log.push(["other handler"]); } }));
  return { mine, list: [...others, d.entry ? { path: L.path, command: mine } : mine], path: L.path };
}
const call = (M, w, cs, d, args, who = "") => M.runProgram({ commands: cs.list, metadata: { name: "prog", version: "1" }, args, ...(Object.keys(w.phooks).length || d.emptyHooks ? { hooks: w.phooks } : {}), stdout() {}, stderr() {}, onExit() { throw new Exit(); } });
export function judge(d, w, cs, o, out, value) {
  const bad = [], ref = reference(o);
  const calls = w.args.map((a) => a[0]), want = ref.ev.map((e) => e[0]);
  if (show(calls) !== show(want)) { bad.push(`called ${calls.join(" ")}, should be ${want.join(" ")}`); return bad; }
  if (w.log.some((l) => l[0] === "overlap")) bad.push("a step began before the previous one had ended");
  if (w.log.some((l) => l[0] === "other handler")) bad.push("another command's handler ran");
  const ctxs = new Map();
  for (const [i, [n, want]] of ref.ev.entries()) {
    const x = w.args[i][1];
    if (n.endsWith("b")) {
      const inv = x[0];
      if (x.length !== 1 || inv?.command !== cs.mine || show(inv.path) !== show(cs.path) || show(inv.value) !== show(value) || typeof inv.handler !== "function") bad.push(`${n} was not given the invocation: ${show({ path: inv?.path, value: inv?.value })}`);
      continue;
    }
    let c;
    if (n === "h") {
      if (show(x[0]) !== show(value)) bad.push(`the handler got ${show(x[0])}`);
      if (want === undefined) { if (x.length !== 1) bad.push("the handler got a context although no beforeEach ran"); continue; }
      c = x[1];
    } else {
      c = x[0];
      const [, , what] = ref.ev[i];
      if (what === "result" ? x[1] !== (o.h === "ok" || o.h === "aok" ? w.result : undefined) : x[1] !== w.errors[what]) bad.push(`${n} got ${show(x[1])}, should be ${what === "result" ? "the handler's result" : "the error of " + what}`);
    }
    if (want.res ? c !== w.res[want.res] : !(c && typeof c === "object" && Object.keys(c).length === 0)) bad.push(`${n} got the context ${show(c)}, should be ${want.res ? want.res + "'s" : "empty"}`);
  }
  if (ref.final.error !== undefined) { if (!("e" in out) || out.e !== w.errors[ref.final.error]) bad.push(`ended with ${show(out)}, should fail with the error of ${ref.final.error}`); }
  else if ("e" in out) bad.push(`failed with ${show(String(out.e))}, should succeed`);
  return bad;
}
const name = (o) => Object.entries(o).filter(([, v]) => v !== "absent").map(([k, v]) => `${k}=${v}`).join(" ");
let k = 0;
async function one(ctx, A, M, d) {
  ctx.begin(d); ctx.exec(1);
  const w = world(A, M, d.o), cs = commands(A, M, w, d), args = [...cs.path, ...(d.n ? ["-n", String(d.n)] : [])];
  let out; try { out = { v: await call(M, w, cs, d, args) }; } catch (e) { out = { e }; }
  const bad = judge(d, w, cs, d.o, out, { n: d.n || 1 });
  ctx.transition(w.args.length); ctx.outcome("e" in out ? "failed" : "succeeded"); ctx.distinct(name(d.o));
  if (bad.length) ctx.violation(`hooks|${bad[0].slice(0, 30)}|${d.layout}`, `${d.layout}${d.async ? " async parser" : ""}: ${name(d.o)}: ${bad.join("; ")}`, d, Object.values(d.o).filter((v) => v !== "absent").length);
  else if (k++ % 20000 === 1) ctx.sample({ hooks: name(d.o), calls: w.args.map((a) => a[0]).join(" ") });
}
async function quiet(ctx, A, M, d) {
  ctx.begin(d); ctx.exec(1); ctx.transition(1);
  const w = world(A, M, d.o), cs = commands(A, M, w, d); let out;
  try { out = { v: await call(M, w, cs, d, d.args) }; } catch (e) { out = { e }; }
  ctx.outcome("no dispatch"); ctx.distinct("quiet" + d.args + d.layout);
  const bad = []; if (w.args.length) bad.push(`called ${w.args.map((a) => a[0])}`); if (!(out.e instanceof Exit)) bad.push(`ended with ${show(String(out.e ?? out.v))}`);
  if (w.log.length && !bad.length) bad.push("another handler ran");
  if (bad.length) ctx.violation(`quiet|${d.args.join(" ")}`, `${d.layout} <${d.args.join(" ")}>: ${bad.join("; ")}`, d, 1);
}
async function pair(ctx, A, M, d) {
  ctx.begin(d);
  let capped = 0;
  const r = await explore(async (gate) => {
    const runs = [0, 1].map((i) => { const w = world(A, M, d.os[i], gate, "r" + i); return w; });
    // one shared command and program: the hooks find their run by the value they are given
    const by = (x) => runs[(x?.value ?? x)?.n - 1] ?? runs[0];
    const results = await Promise.all(runs.map(async (w, i) => { const cs = commands(A, M, w, d); let out; try { out = { v: await call(M, w, cs, d, [...cs.path, "-n", String(i + 1)]) }; } catch (e) { out = { e }; } return { w, cs, out }; }));
    return results.flatMap(({ w, cs, out }, i) => judge(d, w, cs, d.os[i], out, { n: i + 1 }).map((b) => `run ${i}: ${b}`));
  }, (bad, trace) => {
    ctx.exec(1);
    if (bad === "deadlock") bad = ["never finished"]; if (bad?.thrown) bad = ["threw " + bad.thrown];
    if (bad.length) ctx.violation(`pair|${bad[0].slice(0, 30)}`, `${d.os.map(name).join(" || ")}: ${bad.join("; ")} [${trace}]`, d, 50);
  }, d.cap);
  ctx.transition(r.steps); ctx.outcome("interleavings", r.runs); ctx.distinct("pair" + d.os.map(name));
  if (r.capped) ctx.bound("interleavings capped", d.cap);
}
const LOADED = async (ctx) => ({ ...await ctx.load("discover/src/index.js") });
export async function run(ctx) {
  const A = await api(ctx), M = await LOADED(ctx), deep = !ctx.quick; let t = 0;
  const lay = Object.keys(LAYOUTS);
  for (const [pb, cb, h] of product(BEFORE, BEFORE, HANDLER)) {
    if (!ctx.next()) continue;
    ctx.state(1);
    for (const [pa, pe, ca, ce] of product(AFTER, ERRH, AFTER, ERRH)) {
      t++;
      for (const layout of deep ? lay : [lay[t % 4]]) await one(ctx, A, M, { o: { pb, pa, pe, cb, ca, ce, h }, layout, async: t % 3 === 0 ? 1 : 0, entry: t % 2, emptyHooks: (t >> 2) % 2, n: t % 5 });
    }
    if (ctx.checkTime()) return;
  }
  const all = { pb: "res", pa: "ok", pe: "ok", cb: "res", ca: "ok", ce: "ok", h: "ok" };
  for (const [layout, pb, as, tail] of product(lay, ["res", "throw"], [0, 1], [["-n", "x"], ["-n"], ["--nope"], ["extra"], ["--help"], ["--version"], ["--completion", "bash"], ["-n", "1", "--help"]])) {
    if (!ctx.next()) continue;
    ctx.state(1);
    for (const p of [LAYOUTS[layout].path]) await quiet(ctx, A, M, { o: { ...all, pb }, layout, async: as, args: [...p, ...tail] });
    for (const args of [["help"], ["version"], ["completion", "zsh"], ["nosuch"]]) await quiet(ctx, A, M, { o: { ...all, pb }, layout, async: as, args });
  }
  // two dispatches at once: every interleaving of up to five steps each
  const P = [["res", "ok", "absent", "res", "ok", "absent", "ok"], ["res", "absent", "ok", "absent", "ok", "ok", "throw"], ["res", "ok", "ok", "throw", "ok", "ok", "ok"], ["res", "throw", "ok", "absent", "absent", "absent", "ok"], ["absent", "ok", "ok", "res", "throw", "ok", "ok"], ["res", "absent", "throw", "res", "absent", "ok", "reject"]].map(([pb, pa, pe, cb, ca, ce, h]) => ({ pb, pa, pe, cb, ca, ce, h }));
  for (const [a, b, layout] of product(P, P, lay)) {
    if (!ctx.next()) continue;
    ctx.state(1);
    if (!deep && (P.indexOf(a) + P.indexOf(b) + lay.indexOf(layout)) % 2) continue;
    await pair(ctx, A, M, { os: [a, b], layout, cap: deep ? 3000 : 300 });
    if (ctx.checkTime()) return;
  }
}
export async function replay(ctx, d) { const A = await api(ctx), M = await LOADED(ctx); if (d.os) await pair(ctx, A, M, d); else if (d.args) await quiet(ctx, A, M, d); else await one(ctx, A, M, d); }

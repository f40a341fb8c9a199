// P01: flat programs of primitives, every token list up to a bound, against lib/ref.mjs.
import { api, toParser, asyncOf, show, combos } from "../lib/prog.mjs";
import { run as refRun } from "../lib/ref.mjs";
export const meta = {
  rule: "a (program, token list) whose outcome class (rejected / value) and value differ from those seen before for that program",
  assumptions: ["values are drawn from a small alphabet; value-parser internals are P14-P19", "the asynchronous variant of each program is run on the same token lists"],
};
// Field catalogue: one of every kind and every spelling family.
export const FIELDS = {
  fv: { p: ["flag", ["-v", "--verbose"]], t: ["-v", "--verbose", "--verbose=1"] },
  bq: { p: ["bool", ["-q", "--quiet"]], t: ["-q", "-vq", "--quiet="] },
  bz: { p: ["bool", ["-z", "-?"]], t: ["-z?", "-qz", "-?"] },
  ng: { p: ["neg", ["-c", "--color"], ["-C", "--no-color"]], t: ["--color", "-C", "--no-color=x", "-cv"] },
  on: { p: ["opt", ["-n", "--name"], "str"], t: ["-n", "--name", "--name=x", "--name=", "--name=a=b:c", "-n=x"] },
  oi: { p: ["opt", ["--num"], "num"], t: ["--num", "--num=3", "--num=bad"] },
  os: { p: ["opt", ["/o"], "str"], t: ["/o", "/o:x", "/o:a:b=c", "/o=x"] },
  ol: { p: ["opt", ["-long"], "num"], t: ["-long", "-long=4", "-long=4=4", "-lo"] },
  sl: { p: ["bool", ["/s"]], t: ["/s", "/s:"] },
  pl: { p: ["bool", ["+p"]], t: ["+p", "+px"] },
  os2: { p: ["opt", ["-o", "--out"], "ab"], t: ["-o", "--out=a", "-vo"] },
  as: { p: ["arg", "str"], t: ["x", ""] },
  an: { p: ["arg", "num"], t: ["7", "bad"] },
};
const GENERIC = ["1", "x", "--", "-", "-vx", "-v=1", "-v-", "--nam"];
function* programs(quick) {
  const ks = Object.keys(FIELDS);
  for (let n = 1; n <= (quick ? 3 : 4); n++) for (const c of combos(ks, n)) {
    // two declaration orders: as listed and reversed
    yield { ks: c, shape: n % 2 ? "obj" : "tup" };
    if (n > 1) yield { ks: [...c].reverse(), shape: n % 2 ? "tup" : "obj" };
  }
}
export function ast({ ks, shape }) {
  return shape === "obj" ? ["obj", Object.fromEntries(ks.map((k) => [k, FIELDS[k].p]))] : ["tup", ks.map((k) => FIELDS[k].p)];
}
function alphabet(ks) {
  return [...new Set([...ks.flatMap((k) => FIELDS[k].t), ...GENERIC])];
}
// `--` with nothing after it, in a program without options: not specified.
const unspecified = (ks, toks) => toks.at(-1) === "--" && ks.every((k) => FIELDS[k].p[0] === "arg");

function judge(ctx, key, exp, r, d) {
  const got = r.success ? "ok " + show(r.value) : "fail";
  const want = exp.ok ? "ok " + show(exp.v) : "fail";
  if (got !== want) ctx.violation(key, `${JSON.stringify(d)}\n expected ${want}\n got      ${got}`, d, JSON.stringify(d.toks).length + 100 * d.toks.length);
}
export async function replay(ctx, d) {
  const A = await api(ctx);
  const p = toParser(A, d.ast, d.async ? asyncOf() : undefined);
  const r = d.async ? await A.parseAsync(p, d.toks) : A.parseSync(p, d.toks);
  judge(ctx, "replay", refRun(d.ast, d.toks), r, d);
}
export async function run(ctx) {
  const A = await api(ctx);
  
  let np = 0;
  for (const prog of programs(ctx.quick)) {
    if (!ctx.next()) continue;
    np++;
    const a = ast(prog), sync = toParser(A, a), asyn = toParser(A, a, asyncOf());
    const al = alphabet(prog.ks);
    const budget = ctx.quick ? (prog.ks.length < 3 ? 12000 : 4000) : prog.ks.length < 3 ? 400000 : 16000;
    let depth = 1;
    while (al.length ** (depth + 1) <= budget) depth++;
    ctx.bound(`depth_${prog.ks.length}`, depth);
    const seen = new Set();
    const queue = [[]];
    for (let qi = 0; qi < queue.length; qi++) {
      const toks = queue[qi];
      ctx.state();
      if (toks.length < depth) for (const t of al) { queue.push([...toks, t]); ctx.transition(); }
      if (unspecified(prog.ks, toks)) { ctx.outcome("unspecified"); continue; }
      const d = { ast: a, toks };
      ctx.begin(d);
      const frozen = Object.freeze(toks.slice());
      const exp = refRun(a, toks);
      const r = A.parseSync(sync, frozen); ctx.exec();
      judge(ctx, `sync ${JSON.stringify(a)} ${JSON.stringify(toks)}`, exp, r, d);
      if (sync.mode === "sync" && asyn.mode === "async") {
        const ra = await A.parseAsync(asyn, frozen); ctx.exec();
        judge(ctx, `async ${JSON.stringify(a)} ${JSON.stringify(toks)}`, exp, ra, { ...d, async: true });
      }
      const k = exp.ok ? show(exp.v) : "fail";
      ctx.outcome(exp.ok ? "accepted" : "rejected");
      if (!seen.has(k)) { seen.add(k); ctx.distinct(prog.shape + prog.ks + k); if (exp.ok && toks.length > 1) ctx.sample({ program: a, tokens: toks, value: k }); }
    }
    ctx.checkTime();
  }
  ctx.bound("programs_shard" + ctx.shard, np);
}

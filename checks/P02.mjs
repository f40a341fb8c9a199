// P02: nested combinator programs against lib/ref.mjs.
import { api, toParser, asyncOf, show, tokenLists } from "../lib/prog.mjs";
import { run as refRun } from "../lib/ref.mjs";
import { instantiate, WRAPS, COMPS } from "../lib/gen.mjs";
export const meta = {
  rule: "a program whose token lists produce a new set of outcomes",
  assumptions: [
    "constructor-rejected programs (duplicate names) are skipped: P13 decides those",
    "token lists on which the documentation leaves the outcome open are not judged (see unspecified() in checks/P02.mjs)",
  ],
};
export function* shapes(quick) {
  const L = ["F", "B", "O", "A", "C"];
  const U = [...L, "K"];
  for (const l of U) yield l;
  for (const w of WRAPS) for (const l of L) yield [w, l];
  const W1 = [...L.flatMap((l) => [l, ...WRAPS.map((w) => [w, l])]), "K", ["map", "K"], ["cmd", "K"], ["group", "K"]];
  for (const c of COMPS) for (const a of W1) for (const b of W1) {
    if (quick && Array.isArray(a) && Array.isArray(b) && (a[0] !== b[0] || a[0] === "group" || a[0] === "map")) continue;
    yield [c, [a, b]];
  }
  const pairs = COMPS.flatMap((c) => L.flatMap((a) => L.map((b) => [c, [a, b]])));
  for (const w of WRAPS) for (const p of pairs) yield [w, p];
  const third = quick ? ["F", "A"] : L;
  for (const c of COMPS) for (const p of pairs) for (const l of third) { yield [c, [p, l]]; yield [c, [l, p]]; }
  const W2 = ["optl", "mult", "def"];
  for (const c of COMPS) for (const w of W2) for (const p of pairs) for (const l of quick ? ["A"] : L) { yield [c, [[w, p], l]]; yield [c, [l, [w, p]]]; }
  if (!quick) for (const c of COMPS) for (const p of pairs) for (const q of pairs) yield [c, [p, q]];
}
export function unspecified(p, toks) {
  if (toks.length === 0 && (p[0] === "bool" || (["map", "group"].includes(p[0]) && p.at(-1)[0] === "bool"))) return true;
  // `--` is also a grammar boundary of an ordered sequence
  if (toks.includes("--") && JSON.stringify(p).includes('"seq"')) return true;
  return false;
}
function judge(ctx, d, exp, r) {
  const got = r.success ? "ok " + show(r.value) : "fail";
  const want = exp.ok ? "ok " + show(exp.v) : "fail";
  if (got !== want) { ctx.violation(`${JSON.stringify(d.ast)} ${JSON.stringify(d.toks)}`, `${JSON.stringify(d.ast)}\n tokens ${JSON.stringify(d.toks)}${d.async ? " (async)" : ""}\n expected ${want}\n got      ${got} ${r.error ? JSON.stringify(r.error) : ""}`, d, JSON.stringify(d).length); return true; }
}
export async function replay(ctx, d) {
  const A = await api(ctx);
  const p = toParser(A, d.ast, d.async ? asyncOf() : undefined);
  judge(ctx, d, refRun(d.ast, d.toks), d.async ? await A.parseAsync(p, d.toks) : A.parseSync(p, d.toks));
}
// Inputs of recorded findings (known_findings.json); the rest of each class is
// not judged, see UNSPEC in lib/ref.mjs.
const CMD = ["cmd", "c", ["obj", { b: ["bool", ["-b"]], x: ["optl", ["arg", "str"]] }]];
export const CANON = [
  { ast: ["seq", [["mult", CMD, {}], ["bool", ["-q"]]]], toks: ["c", "-q"], v: [[{ b: false, x: undefined }], true] },
  { ast: ["seq", [CMD, ["obj", { w: ["flag", ["-w"]], n: ["opt", ["--num"], "num"] }]]], toks: ["c", "--num=5", "-w"], v: [{ b: false, x: undefined }, { w: true, n: 5 }] },
  { ast: ["tup", [CMD, ["seq", [["bool", ["-q"]], ["bool", ["-r"]]]]]], toks: ["c", "-b", "-q"], v: [{ b: true, x: undefined }, [true, false]] },
];
export async function run(ctx) {
  const A = await api(ctx);
  if (ctx.shard === 0) for (const c of CANON) judge(ctx, c, { ok: true, v: c.v }, A.parseSync(toParser(A, c.ast), c.toks));
  const done = new Set();
  for (const s of shapes(ctx.quick)) {
    const { p, toks } = instantiate(s);
    const key = JSON.stringify(p);
    if (done.has(key)) continue; done.add(key);
    if (!ctx.next()) continue;
    let sync, asyn;
    try { sync = toParser(A, p); asyn = toParser(A, p, asyncOf()); } catch (e) { if (e instanceof TypeError) { ctx.outcome("constructor rejects"); continue; } throw e; }
    const al = [...toks, "x", "7", "--"];
    const budget = ctx.quick ? 400 : 8000;
    let depth = 1;
    while (al.length ** (depth + 1) <= budget) depth++;
    const outs = new Set();
    let bad = 0;
    for (const t of tokenLists(al, depth)) {
      ctx.state(); ctx.transition();
      if (unspecified(p, t)) { ctx.outcome("unspecified"); continue; }
      const d = { ast: p, toks: t };
      ctx.begin(d);
      const exp = refRun(p, t);
      if (exp.unspecified) { ctx.outcome("unspecified"); continue; }
      if (judge(ctx, d, exp, A.parseSync(sync, t))) { if (++bad > 2) break; continue; }
      ctx.exec();
      if (asyn.mode === "async" && t.length < depth) { judge(ctx, { ...d, async: true }, exp, await A.parseAsync(asyn, t)); ctx.exec(); }
      ctx.outcome(exp.ok ? "accepted" : "rejected");
      outs.add(exp.ok ? show(exp.v) : "-");
    }
    ctx.distinct(key + [...outs].join());
    if (outs.size > 4) ctx.sample({ program: p, outcomes: outs.size });
    ctx.checkTime();
  }
}

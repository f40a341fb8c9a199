// P03: passThrough() in programs, against lib/ref.mjs plus a token-conservation monitor.
import { api, toParser, asyncOf, show, tokenLists } from "../lib/prog.mjs";
import { run as refRun } from "../lib/ref.mjs";
export const meta = {
  rule: "a program whose token lists produce a new set of captured lists",
  assumptions: ["a lone `-` (in front of nextToken) and a `--` that only a nextToken field could take are not judged"],
};
const FIELDS = {
  F: ["flag", ["-v", "--verbose"]], B: ["bool", ["-q", "--quiet"]], O: ["opt", ["-o", "--out"], "str"], N: ["neg", ["--color"], ["--no-color"]],
  A: ["arg", "str"], X: ["optl", ["arg", "str"]], M: ["mult", ["arg", "str"], {}], S: ["opt", ["/slash"], "str"],
  P: ["mult", ["opt", ["-p", "--pub"], "num"], {}], D: ["def", ["opt", ["--def"], "ab"], "a"],
};
const TOK = { F: ["-v", "--verbose"], B: ["-q"], O: ["--out", "--out=y", "-o"], N: ["--no-color"], A: [], X: [], M: [], S: ["/slash:1"], P: ["-p", "--pub=1"], D: ["--def=b"], C: ["go"] };
const UNK = ["--x=y", "--x", "y", "-5", "--", "", "-z", "-w=2", "--verbose=1"];
export function* programs(quick) {
  const opts = (k) => Object.fromEntries([...k].map((c) => [c, c === "F" || c === "O" || c === "N" || c === "S" ? ["optl", FIELDS[c]] : FIELDS[c]]));
  const sets = ["", "F", "B", "O", "N", "A", "X", "M", "S", "P", "D", "FA", "OM", "BX", "PA", "FO", "FOM", "DB"];
  for (const fmt of ["equalsOnly", "nextToken", "greedy"]) {
    const pass = ["pass", fmt];
    for (const set of sets) {
      const t = [...set].flatMap((c) => TOK[c]);
      yield { p: ["obj", { ...opts(set), rest: pass }], t };
      yield { p: ["obj", { rest: pass, ...opts(set) }], t };
      if (set) yield { p: ["merge", [["obj", opts(set)], ["obj", { rest: pass }]]], t };
      if (set) yield { p: ["tup", [...Object.values(opts(set)), pass]], t };
      yield { p: ["cmd", "go", ["obj", { ...opts(set), rest: pass }]], t: [...t, "go"] };
      yield { p: ["group", "G", ["obj", { ...opts(set), rest: ["map", pass] }]], t };
      if (set) yield { p: ["obj", { inner: ["obj", { ...opts(set), rest: pass }], b: ["bool", ["-b"]] }], t: [...t, "-b"] };
      yield { p: ["obj", { g: ["bool", ["-g"]], c: ["cmd", "go", ["obj", { ...opts(set), rest: pass }]] }], t: [...t, "-g", "go"] };
      yield { p: ["or", [["cmd", "go", ["obj", { ...opts(set), rest: pass }]], ["cmd", "no", ["obj", { h: ["bool", ["-h"]] }]]]], t: [...t, "go", "no"] };
      if (set.length < 2) yield { p: ["obj", { ...opts(set), c: ["optl", ["cmd", "go", ["obj", { h: ["bool", ["-h"]] }]]], rest: pass }], t: [...t, "go", "-h"] };
      if (set.length < 2) yield { p: ["obj", { ...opts(set), o: ["or", [["cmd", "go", ["obj", { rest: pass }]], ["flag", ["-k"]]]] }], t: [...t, "go", "-k"] };
    }
  }
}
function judge(ctx, d, exp, r) {
  const got = r.success ? "ok " + show(r.value) : "fail";
  const want = exp.ok ? "ok " + show(exp.v) : "fail";
  if (got !== want) { ctx.violation(`${JSON.stringify(d.ast)} ${JSON.stringify(d.toks)}`, `${JSON.stringify(d.ast)}\n tokens ${JSON.stringify(d.toks)}${d.async ? " (async)" : ""}\n expected ${want}\n got      ${got} ${r.error ? JSON.stringify(r.error) : ""}`, d, JSON.stringify(d).length); return true; }
}
export async function replay(ctx, d) {
  const A = await api(ctx);
  const p = toParser(A, d.ast, d.async ? asyncOf() : undefined);
  judge(ctx, d, refRun(d.ast, d.toks), d.async ? await A.parseAsync(p, d.toks) : A.parseSync(p, d.toks));
}
export async function run(ctx) {
  const A = await api(ctx);
  for (const { p, t } of programs(ctx.quick)) {
    if (!ctx.next()) continue;
    const al = [...new Set([...t, ...UNK])];
    const budget = ctx.quick ? 8000 : 400000;
    let depth = 1; while (al.length ** (depth + 1) <= budget) depth++;
    const sync = toParser(A, p), asyn = toParser(A, p, asyncOf());
    const outs = new Set(); let bad = 0;
    for (const toks of tokenLists(al, depth)) {
      ctx.state(); ctx.transition();
      const d = { ast: p, toks }; ctx.begin(d);
      const exp = refRun(p, toks);
      if (exp.unspecified) { ctx.outcome("unspecified"); continue; }
      if (judge(ctx, d, exp, A.parseSync(sync, toks))) { if (++bad > 2) break; continue; }
      ctx.exec();
      if (asyn.mode === "async" && toks.length < depth) { judge(ctx, { ...d, async: true }, exp, await A.parseAsync(asyn, toks)); ctx.exec(); }
      ctx.outcome(exp.ok ? "accepted" : "rejected");
      outs.add(exp.ok ? show(exp.v) : "-");
    }
    ctx.bound("depth " + al.length + " tokens", depth);
    ctx.distinct(JSON.stringify(p) + [...outs].join());
    if (outs.size > 4) ctx.sample({ program: p, outcomes: outs.size });
    ctx.checkTime();
  }
}

// P13: every pair and triple of parts in every combinator against a conflict
// relation computed from the program text, and every short name over an
// alphabet of special characters against the stated name rules.
import { api, toParser, tokenLists, product } from "../lib/prog.mjs";
import * as R from "../lib/ref.mjs";
export const meta = {
  rule: "a definition with a new set of names and shape, or a new name",
  assumptions: ["two parts of a seq() conflict when, at a point where the earlier one may be left, an option of it can still be taken and the later one could take it too", "bare prefixes (-, /, +) as option names are not specified"],
};
const V = ["bool", ["-v"]], F = ["flag", ["-v"]], C = (n, p, o) => ["cmd", n, p, ...(o ? [o] : [])];
// parts: some share -v, some share command x
export const PARTS = {
  V, F, W: ["bool", ["-w"]], VW: ["bool", ["-w", "-v"]], O: ["opt", ["-v", "--val"], "num"], H: ["bool", ["-v"], { hidden: true }], N: ["neg", ["--on"], ["-v"]],
  A: ["arg", "str"], Z: ["arg", "str", { hidden: true }],
  X: C("x", ["const", 1]), XV: C("x", V), XF: C("x", F), Y: C("y", ["bool", ["-z"]], { aliases: ["x"] }), YV: C("y", ["obj", { a: V, b: ["arg", "str"] }]), XH: C("x", ["const", 1], { hidden: true }),
  YX: C("y", C("x", ["const", 1])), K: ["const", 1], D: C("w", ["const", 2]),
};
const WRAP = {
  id: (p) => p, optl: (p) => ["optl", p], def: (p) => ["def", p, 0], mult: (p) => ["mult", p, {}], mult1: (p) => ["mult", p, { min: 1 }], map: (p) => ["map", p], grp: (p) => ["group", "G", p],
  obj: (p) => ["obj", { i: p }], objw: (p) => ["obj", { i: p, j: ["bool", ["-q"]] }], obja: (p) => ["obj", { i: p, j: ["arg", "str"] }], tup: (p) => ["tup", [p]], mrg: (p) => ["merge", [["obj", { i: p }], ["obj", { j: ["bool", ["-q"]] }]]], or: (p) => ["or", [p, ["flag", ["-q"]]]],
  cmd: (p) => C("go", p), seq1: (p) => ["seq", [["flag", ["-q"]], p]], seq2: (p) => ["seq", [["bool", ["-q"]], p]], seq0: (p) => ["seq", [p, ["bool", ["-q"]]]],
  cond: (p) => ["cond", ["opt", ["-k"], "ab"], { a: ["obj", { i: p }], b: ["obj", {}] }, null],
};
const COMB = {
  obj: (ps) => ["obj", Object.fromEntries(ps.map((p, i) => ["f" + i, p]))], tup: (ps) => ["tup", ps], seq: (ps) => ["seq", ps],
  merge: (ps) => ["merge", ps.map((p, i) => ["obj", { ["f" + i]: p }])], or: (ps) => ["or", ps], long: (ps) => ["long", ps], concat: (ps) => ["concat", ps.map((p) => ["tup", [p]])],
};
const kids = (p) => p[0] === "cmd" || p[0] === "group" ? [p[2]] : ["optl", "def", "map", "mult", "ne"].includes(p[0]) ? [p[1]] : p[0] === "obj" ? Object.values(p[1]) : p[0] === "cond" ? [p[1], ...Object.values(p[2]), ...(p[3] ? [p[3]] : [])] : ["tup", "seq", "merge", "concat", "or", "long"].includes(p[0]) ? p[1] : [];
export function opts(p) {
  if (["flag", "bool", "opt"].includes(p[0])) return new Set(p[1]);
  if (p[0] === "neg") return new Set([...p[1], ...p[2]]);
  return new Set(kids(p).flatMap((k) => [...opts(k)]));
}
const empties = (p) => p[0] === "bool" || p[0] === "optl" || p[0] === "def" || p[0] === "const" || p[0] === "mult" && !(p[2]?.min > 0) || ["obj", "tup", "seq", "merge", "concat", "map", "ne", "group"].includes(p[0]) && kids(p).every(empties) || p[0] === "mult" && empties(p[1]) || ["or", "long"].includes(p[0]) && kids(p).some(empties) && false;
// commands that can be the next token
export function lead(p) {
  if (p[0] === "cmd") return new Set([p[1], ...(p[3]?.aliases ?? [])]);
  if (p[0] === "seq") { const out = []; for (const k of p[1]) { out.push(...lead(k)); if (!empties(k)) break; } return new Set(out); }
  if (p[0] === "cond") return lead(p[1]);
  return new Set(kids(p).flatMap((k) => [...lead(k)]));
}
// options of the head of a part, and those still open when the part may be left
export function heads(p) {
  if (["flag", "bool", "opt", "neg"].includes(p[0])) return opts(p);
  if (p[0] === "cmd") return new Set();
  if (p[0] === "cond") return heads(p[1]);
  if (p[0] === "seq") { const out = []; for (const k of p[1]) { out.push(...heads(k)); if (!empties(k)) break; } return new Set(out); }
  return new Set(kids(p).flatMap((k) => [...heads(k)]));
}
function overlap(sets) { const seen = new Set(); for (const s of sets) { for (const n of s) if (seen.has(n)) return true; for (const n of s) seen.add(n); } return false; }
// The options part `p` can still take at some point where it may be left.
// States are explored with the reference interpreter that P02 compares with the code.
const openCache = new Map();
function open(p) {
  const key = JSON.stringify(p);
  if (openCache.has(key)) return openCache.get(key);
  const names = [...opts(p)], out = new Set(), cmds = new Set(), walk = (q) => { if (q[0] === "cmd") { cmds.add(q[1]); (q[3]?.aliases ?? []).forEach((a) => cmds.add(a)); } kids(q).forEach(walk); };
  walk(p);
  const lists = [...tokenLists([...names, ...cmds, "a", "5"], 3)];
  for (const t of lists) {
    let st = R.init(p), toks = t, term = false, okk = true;
    while (toks.length) { const r = R.parse(p, st, toks, term); if (!r.n) { okk = false; break; } ({ st, toks, term } = r); }
    if (!okk) continue;
    if (t.length && !R.fin(p, st).ok || !t.length && !R.canSkip(p, st)) continue;
    for (const n of names) if (!out.has(n) && R.parse(p, st, [n, "5"], term).n) out.add(n);
  }
  openCache.set(key, out);
  return out;
}
// does the definition contain a conflict?
export function conflict(p, allow) {
  if (kids(p).some((k) => conflict(k))) return "inner";
  switch (p[0]) {
    case "obj": case "tup": case "merge": {
      if (!allow && overlap(kids(p).map(opts))) return "option";
      if (p[0] !== "tup" && overlap(kids(p).map(lead))) return "command";
      return null;
    }
    case "or": case "long": return overlap(kids(p).map(lead)) ? "command" : null;
    case "seq": {
      if (allow) return null;
      for (let i = 0; i < p[1].length; i++) for (let j = i + 1; j < p[1].length; j++) {
        if (!p[1].slice(i + 1, j).every(empties)) break;
        const o = open(p[1][i]), h = heads(p[1][j]);
        if ([...o].some((n) => h.has(n))) return "option";
      }
      return null;
    }
  }
  return null;
}
function judge(ctx, A, d) {
  ctx.state(); ctx.transition(); ctx.exec();
  const ast = d.ast; let want;
  try { want = conflict(ast, d.allow); } catch (e) { if (e !== R.UNSPEC) throw e; return ctx.outcome("not specified"); }
  let got = null;
  try { toParser(A, d.allow ? (ast[0] === "obj" ? ["obj", ast[1], { allowDuplicates: true }] : [...ast, { allowDuplicates: true }]) : ast); } catch (e) { got = e.name === "DuplicateOptionError" ? "option" : /Duplicate command name/.test(e.message) ? "command" : e.name + ": " + e.message; }
  ctx.outcome(want ?? "no conflict"); ctx.distinct(JSON.stringify(ast));
  if (!want !== !got || got && !["option", "command"].includes(got)) ctx.violation(JSON.stringify(d), `${JSON.stringify(ast)}${d.allow ? " (allowDuplicates)" : ""}\n expected ${want ? "rejection: " + want : "to be accepted"}\n got ${got ?? "accepted"}`, d, JSON.stringify(ast).length);
  return want;
}
// ---- names ----
const CTRL = /[\u0000-\u001f\u007f-\u009f\u2028\u2029]/;
const okOption = (s) => s !== "" && !/\s/u.test(s) && !CTRL.test(s) && (s[0] === "-" || s[0] === "/" || s[0] === "+") && s !== "--";
const okCommand = (s) => s !== "" && !/\s/u.test(s) && !CTRL.test(s);
const okText = (s) => s !== "" && s.trim() !== "" && !CTRL.test(s);
const okShell = (s) => /^[A-Za-z0-9_]/.test(s) && [...s].every((c) => /[A-Za-z0-9_.-]/.test(c));
const NAMES = (A) => ({
  option: [okOption, (s) => A.option(s), (s) => A.option("-z", s), (s) => A.option(s, "-z", A.vp.string())],
  flag: [okOption, (s) => A.flag(s), (s) => A.flag("-z", s)],
  negatable: [okOption, (s) => A.negatableFlag({ positive: s, negative: "--zz" }), (s) => A.negatableFlag({ positive: "--zz", negative: s }), (s) => A.negatableFlag({ positive: ["--zz", s], negative: ["--yy"] })],
  command: [okCommand, (s) => A.command(s, A.constant(1)), (s) => A.command("zz", A.constant(1), { aliases: [s] }), (s) => A.command("zz", A.constant(1), { aliases: ["yy", s] })],
  label: [okText, (s) => A.object(s, {}), (s) => A.tuple(s, []), (s) => A.merge(s, A.object({}), A.object({})), (s) => A.group(s, A.constant(1))],
  program: [okText, (s) => A.formatUsage(s, []), (s) => A.formatDocPage(s, { sections: [] }), (s) => A.facade.runParser(A.object({}), s, []), (s) => A.program.defineProgram({ parser: A.object({}), metadata: { name: s } })],
  shell: [okShell, ...["bash", "zsh", "fish", "nu", "pwsh"].map((sh) => (s) => A.completion[sh].generateScript(s))],
  helpOption: [okOption, (s) => A.facade.runParser(A.object({}), "p", [], { help: { option: { names: [s] } } }), (s) => A.facade.runParser(A.object({}), "p", [], { version: { value: "1", option: { names: ["--ww", s] } } }), (s) => A.facade.runParser(A.object({}), "p", [], { completion: { option: { names: [s] } } })],
  helpCommand: [okCommand, (s) => A.facade.runParser(A.object({}), "p", [], { help: { command: { names: [s] } } }), (s) => A.facade.runParser(A.object({}), "p", [], { version: { value: "1", command: { names: ["ww", s] } } }), (s) => A.facade.runParser(A.object({}), "p", [], { completion: { command: { names: [s] } } })],
});
const ALPHA = ["-", "/", "+", "a", "1", "=", ".", "_", " ", "\t", "\n", "\u0007", "\u007f", "\u0085", "\u00a0", "\u2028", "\u3000", "é", "$", "\""];
function judgeName(ctx, A, N, d) {
  ctx.state(); ctx.transition(); ctx.exec();
  const [rule, ...fns] = N[d.kind];
  if (rule === okOption && /^[-/+]$/.test(d.name)) return;
  const want = rule(d.name);
  let got = true; try { fns[d.f](d.name); } catch (e) { got = e instanceof TypeError || d.kind === "shell" && e instanceof Error ? false : String(e); }
  ctx.outcome(`${d.kind} ${want ? "valid" : "invalid"}`); ctx.distinct(d.kind + d.name);
  if (want !== got) ctx.violation(JSON.stringify(d), `${d.kind} (form ${d.f}) name ${JSON.stringify(d.name)}: ${want ? "valid" : "malformed"}, but ${got === true ? "accepted" : got === false ? "rejected" : got}`, d, d.name.length);
}
// ---- names of help, version and completion ----
const MN = [undefined, ["-h"], ["-h", "--help"], ["--c"], ["--c=x", "--c"], ["-h", "-h"]], MC = [undefined, ["help"], ["h", "v"], ["-h"], ["v", "v"]];
function metaConflict([ho, hc, vo, vc, co, cc]) {
  const sets = [ho, hc, vo, vc, co, cc].filter((x) => x);
  if (sets.some((s) => new Set(s).size !== s.length)) return true;
  if (overlap(sets)) return true;
  if (co) for (const n of co) for (const s of sets) for (const m of s) if (m !== n && m.startsWith(n + "=")) return true;
  return false;
}
function judgeMeta(ctx, A, d) {
  ctx.state(); ctx.transition(); ctx.exec();
  const [ho, hc, vo, vc, co, cc] = d.meta, sub = (o, c) => ({ ...(o ? { option: { names: o } } : {}), ...(c ? { command: { names: c } } : {}) });
  const o = { ...(ho || hc ? { help: sub(ho, hc) } : {}), ...(vo || vc ? { version: { value: "1", ...sub(vo, vc) } } : {}), ...(co || cc ? { completion: sub(co, cc) } : {}) };
  const want = metaConflict(d.meta); let got = false;
  try { A.facade.runParser(A.object({}), "p", [], o); } catch (e) { got = e instanceof TypeError ? true : String(e); }
  ctx.outcome(want ? "meta names clash" : "meta names fine"); ctx.distinct(JSON.stringify(d.meta));
  if (want !== got) ctx.violation(JSON.stringify(d), `meta names ${JSON.stringify(d.meta)}: ${want ? "clash" : "no clash"}, but ${got === true ? "rejected" : got || "accepted"}`, d);
}
const load = async (ctx) => { const A = await api(ctx); A.facade = await ctx.load("core/src/facade.js"); A.completion = await ctx.load("core/src/completion.js"); return A; };
export async function replay(ctx, d) {
  const A = await load(ctx);
  if (d.ast) judge(ctx, A, d); else if (d.meta) judgeMeta(ctx, A, d); else judgeName(ctx, A, NAMES(A), d);
}
export async function run(ctx) {
  const A = await load(ctx), N = NAMES(A), P = Object.keys(PARTS), W = Object.keys(WRAP);
  for (const kind of Object.keys(N)) for (let f = 0; f < N[kind].length - 1; f++) {
    if (!ctx.next()) continue;
    for (const t of tokenLists(ALPHA, ctx.quick && f ? 2 : 3)) judgeName(ctx, A, N, { kind, f, name: t.join("") });
  }
  for (const t of product(MN, MC, MN, MC, MN, MC)) {
    if (ctx.quick && t.filter((x) => x).length > 3) continue;
    if (!ctx.next()) continue;
    judgeMeta(ctx, A, { meta: t });
  }
  for (const ast of CANON) if (ctx.next()) judge(ctx, A, { ast });
  for (const comb of Object.keys(COMB)) {
    for (const a of P) for (const wa of W) for (const b of P) for (const wb of W) {
      if (!ctx.next()) continue;
      const ast = COMB[comb]([WRAP[wa](PARTS[a]), WRAP[wb](PARTS[b])]);
      ctx.begin({ ast });
      if (unspec(ast)) { ctx.outcome("not specified"); continue; }
      judge(ctx, A, { ast });
      if (["obj", "tup", "merge", "seq"].includes(comb) && wa === "id") judge(ctx, A, { ast, allow: true });
    }
    for (const a of P) for (const b of P) for (const c of P) for (const w of ctx.quick ? ["id"] : ["id", "optl", "obj"]) {
      if (!ctx.next()) continue;
      const ast = COMB[comb]([WRAP[w](PARTS[a]), PARTS[b], PARTS[c]]);
      if (unspec(ast)) { ctx.outcome("not specified"); continue; }
      judge(ctx, A, { ast });
    }
    ctx.checkTime();
  }
}
// Not settled: what stays open after conditional(), and whether alternatives
// with a branch that needs no input can be left without choosing one.
const open_ = (p) => p[0] === "cond" || ["or", "long"].includes(p[0]) && p[1].some(skips) || kids(p).some(open_);
const skips = (p) => empties(p) || ["or", "long"].includes(p[0]) && p[1].some(skips);
// The two recorded findings: see CANON.
const innerSeq = (p) => p[0] === "seq" && !p[1].every(empties) || kids(p).some(innerSeq);
const manyObj = (p) => (p[0] === "obj" || p[0] === "merge") && kids(p).slice(0, -1).some((k) => !empties(k)) || p[0] !== "cmd" && kids(p).some(manyObj);
export function unspec(p) { return p[0] === "seq" && (p[1].slice(0, -1).some((k) => open_(k) || innerSeq(k)) || p[1].slice(1).some(manyObj)) || kids(p).some(unspec); }
const CANON = [["seq", [["seq", [["bool", ["-q"]], ["arg", "str"]]], ["flag", ["-q"]]]], ["seq", [["bool", ["-q"]], ["obj", { a: ["flag", ["-v"]], b: ["bool", ["-q"]] }]]], ["seq", [["obj", { a: ["arg", "str"], b: ["bool", ["-q"]] }], ["obj", { a: ["flag", ["-v"]], b: ["bool", ["-q"]] }]]]];

// P12: the language of the usage line against the language of the parser, the
// text of the usage line against its terms, and the help entries against the
// parts that can still be reached.
import { api, toParser, show, product } from "../lib/prog.mjs";
import { instantiate } from "../lib/gen.mjs";
export const meta = {
  rule: "a program with a new usage language or a new set of help entries",
  assumptions: ["the language of a program is compared up to the order of its items and up to the length bound", "one spelling and one value per option", "help entries of parts that can no longer be reached are not judged"],
  quickLimitS: 300, thoroughLimitS: 3000,
};
const MAXLEN = 3;
// every leaf is one unit: the tokens it takes, and the id of its help entry
const leaves = (A) => ({
  F: (i) => ({ p: ["flag", ["-" + "vwxyzu"[i], "--flag" + i]], t: [["-" + "vwxyzu"[i]]], id: "-" + "vwxyzu"[i] }),
  B: (i) => ({ p: ["bool", ["-" + "pqrstm"[i], "--bool" + i]], t: [["-" + "pqrstm"[i]]], id: "-" + "pqrstm"[i] }),
  O: (i) => ({ p: ["opt", ["-" + "nolkji"[i], "--num" + i], A.vp.choice(["val"], { metavar: "NUM" + i })], t: [["-" + "nolkji"[i], "val"]], id: "-" + "nolkji"[i] }),
  A: (i) => ({ p: ["arg", A.vp.choice(["arg" + i], { metavar: "ARG" + i })], t: [["arg" + i]], id: "ARG" + i }),
  G: (i) => ({ p: ["neg", ["--on" + i], ["--off" + i]], t: [["--on" + i]], id: "--on" + i }),
  C: (i) => ({ p: ["cmd", "cmd" + i, ["obj", { ["b" + i]: ["optl", ["flag", ["-" + "PQRSTM"[i]]]], ["c" + i]: ["arg", A.vp.choice(["sub" + i], { metavar: "SUB" + i })] }]], t: [["cmd" + i], ["-" + "PQRSTM"[i]], ["sub" + i]] }),
  P: (i) => ({ p: ["pass", "equalsOnly"], t: [["--zz=1"]], id: "passthrough" }),
  // an option used by several leaves
  X: (i) => ({ p: ["opt", ["-x", "--shared"], A.vp.choice(["val"], { metavar: "SH" })], t: [["-x", "val"]], id: "-x" }),
  Z: (i) => ({ p: ["cmd", "same", ["flag", ["-" + "ABCDEF"[i]]]], t: [["same"], ["-" + "ABCDEF"[i]]] }),
});
// shape "cmd" wrapper adds its own command unit
export function program(A, shape) {
  const L = leaves(A), ids = [];
  const wrap = Object.fromEntries(Object.entries(L).map(([k, f]) => [k, (i) => ({ ...f(i), t: [] , units: f(i).t })]));
  const r = instantiate(shape, wrap);
  const units = new Map();
  for (const m of r.meta) { if (m.cmd) units.set(m.cmd[0], [m.cmd[0]]); else m.units.forEach((u) => units.set(u.join(" "), u)); }
  const nomax = (q) => { if (Array.isArray(q)) { if (q[0] === "mult" && q[2]?.max) delete q[2].max; q.forEach(nomax); } else if (q && typeof q === "object" && Object.getPrototypeOf(q) === Object.prototype && !q.mode) Object.values(q).forEach(nomax); };
  nomax(r.p);
  return { p: r.p, units: [...units.values()] };
}
// ---- the sentences of a usage, as lists of units ----
function toks(A, terms, max) {
  // returns the set of sentences (joined) for a list of terms
  // "?" marks a sentence that is not judged: an alternative taken without any item, an
  // empty repetition, alternatives of which one starts with a positional
  const len = (c) => c.reduce((n, x) => n + (x === "?" || x.startsWith("+") ? 0 : 1), 0);
  const lead = (ts) => { for (const t of ts) { if (t.type === "argument" || t.type === "passthrough" || t.type === "ellipsis") return true; if (t.type === "exclusive" ? t.terms.some(lead) : t.terms && lead(t.terms)) return true; if (t.type === "command") return false; if (t.type === "literal") continue; } return false; };
  const seqs = (lists) => lists.reduce((acc, l) => { const out = []; const seen = new Set(); for (const a of acc) for (const b of l) { const c = [...a, ...b]; if (len(c) > max) continue; const k = c.join("\0"); if (!seen.has(k)) { seen.add(k); out.push(c); } } return out; }, [[]]);
  const one = (t) => {
    switch (t.type) {
      case "option": return [[t.metavar == null ? t.names[0] : t.names[0] + " val"]];
      case "argument": return [[t.metavar.toLowerCase()]];
      case "command": return [[t.name]];
      case "literal": return [["+" + t.value]];
      case "passthrough": case "ellipsis": return [[], ["--zz=1"], ["--zz=1", "--zz=1"], ["--zz=1", "--zz=1", "--zz=1"]];
      case "sequence": return seqs(t.terms.map(one));
      case "optional": return [[], ...seqs(t.terms.map(one))];
      case "exclusive": { const open = t.terms.some(lead); return t.terms.flatMap((b) => seqs(b.map(one)).map((s) => open || !len(s) ? ["?", ...s] : s)); }
      case "multiple": { const b = seqs(t.terms.map(one)).map((s) => len(s) ? s : ["?"]); const out = []; let cur = [[]]; for (let n = 0; n <= max + t.min; n++) { if (n >= t.min) out.push(...cur); cur = seqs([cur, b]); if (!cur.length) break; } return out; }
    }
    throw new Error("term " + t.type);
  };
  // a literal belongs to the option before it
  const res = new Map();
  for (const s0 of seqs(terms.map(one))) { const maybe = s0.includes("?"), s = join(s0.filter((x) => x !== "?")); if (s.length > max) continue; const k = s.join("\0"); if (!maybe || !res.has(k)) { s.maybe = maybe; res.set(k, s); } }
  return [...res.values()];
}
const join = (s) => s.reduce((acc, x) => { if (x.startsWith("+")) acc.push(acc.pop() + " " + x.slice(1)); else acc.push(x); return acc; }, []);
// ---- the text of the usage line, written from its terms ----
function text(terms) {
  const one = (t) => {
    switch (t.type) {
      case "option": return t.names.join("/") + (t.metavar == null ? "" : " " + t.metavar);
      case "argument": return t.metavar;
      case "command": return t.name;
      case "literal": return t.value;
      case "passthrough": case "ellipsis": return "[...]";
      case "sequence": return text(t.terms);
      case "optional": return "[" + text(t.terms) + "]";
      case "exclusive": return "(" + t.terms.map(text).join(" | ") + ")";
      case "multiple": { const b = text(t.terms); return t.min < 1 ? `[${b}...]` : Array(t.min).fill(b).join(" ") + "..."; }
    }
  };
  return terms.map(one).join(" ");
}
// ---- help entries expected at a command path; null: the path is not reachable ----
function canBeEmpty(p) {
  switch (p[0]) {
    case "bool": case "pass": case "optl": case "def": return true;
    case "mult": return !(p[2]?.min > 0) || canBeEmpty(p[1]);
    case "map": return canBeEmpty(p[1]);
    case "group": return canBeEmpty(p[2]);
    case "obj": return Object.values(p[1]).every(canBeEmpty);
    case "tup": case "seq": case "merge": case "concat": return p[1].every(canBeEmpty);
    case "or": return p[1].some(canBeEmpty);
    default: return false;
  }
}
const rootCommand = (p) => p[0] === "cmd" ? true : ["optl", "def", "map", "mult", "ne"].includes(p[0]) ? rootCommand(p[1]) : p[0] === "group" ? rootCommand(p[2]) : false;
const hasCmd = (p, name) => JSON.stringify(p).includes(`["cmd","${name}"`);
function entries(p, path) {
  switch (p[0]) {
    case "flag": case "bool": case "opt": return [p[1][0]];
    case "neg": return [p[1][0]];
    case "arg": return [p[1].metavar];
    case "pass": return ["passthrough"];
    case "cmd": return path[0] === p[1] ? entries(p[2], path.slice(1)) : [p[1]];
    case "optl": case "def": case "map": case "mult": case "ne": return entries(p[1], path);
    case "group": return entries(p[2], path);
    case "obj": return Object.values(p[1]).flatMap((q) => entries(q, path));
    case "tup": case "merge": case "concat": return p[1].flatMap((q) => entries(q, path));
    case "seq": {
      if (!path.length) return p[1].flatMap((q) => entries(q, path));
      const i = p[1].findIndex((q) => hasCmd(q, path[0]));
      return p[1].slice(i).flatMap((q) => entries(q, path));
    }
    case "or": { const hit = path.length ? p[1].filter((q) => hasCmd(q, path[0])) : []; return (hit.length ? hit.slice(0, 1) : p[1]).flatMap((q) => entries(q, path)); }
  }
  throw new Error(p[0]);
}
const entryId = (t) => t.type === "option" ? t.names[0] : t.type === "command" ? t.name : t.type === "argument" ? t.metavar : t.type;
// An optional or repeated positional followed by another one takes greedily what
// is meant for the later one (documented); such sentences are not judged.
function flexible(terms) {
  let open = false, bad = false;
  const go = (ts, opt) => { for (const t of ts) {
    if (t.type === "argument") { if (open) bad = true; if (opt) open = true; }
    else if (t.type === "command") { if (open) bad = true; }
    else if (t.type === "exclusive") { const o = open; let any = o; for (const b of t.terms) { open = o; go(b, opt); any ||= open; } open = any; }
    else if (t.terms) go(t.terms, opt || t.type !== "sequence");
  } };
  go(terms, false);
  return bad;
}
// Classes with a recorded finding: derivation is judged on the canonical input only.
export const CANON = [
  ["obj", [["mult", ["merge", ["F", "B"]]]]], ["obj", [["mult", ["tup", ["F", ["mult", "G"]]]]]], ["obj", [["mult", ["seq", ["F", "B"]]]]],
  ["tup", ["A", "C"]], ["obj", [["optl", ["seq", ["A", "B"]]]]], ["seq", ["C", "F"]],
];
const MULTI = ["tup", "concat", "merge", "seq"];
const peel = (p) => ["map", "ne", "optl", "def"].includes(p[0]) ? peel(p[1]) : p[0] === "group" ? peel(p[2]) : p;
const kids = (p) => ["cmd", "group"].includes(p[0]) ? [p[2]] : ["optl", "def", "map", "mult", "ne"].includes(p[0]) ? [p[1]] : p[0] === "obj" ? Object.values(p[1]) : ["tup", "seq", "merge", "concat", "or"].includes(p[0]) ? p[1] : [];
const any = (p, f) => f(p) || kids(p).some((q) => any(q, f));
const inClass = (p) => any(p, (q) => q[0] === "mult" && any(q[1], (x) => MULTI.includes(x[0]))
  || MULTI.includes(q[0]) && any(q, (x) => x[0] === "cmd") && any(["tup", kids(q).filter((k) => peel(k)[0] !== "cmd")], (x) => x[0] === "arg" || x[0] === "cmd")
  || ["optl", "def"].includes(q[0]) && any(q[1], (x) => x[0] === "seq"));
const COMP = [...MULTI, "obj"];
const hasArg = (p) => any(["tup", [p]], (x) => x[0] === "arg" || x[0] === "pass");
const names = (p) => any(p, () => false) || JSON.stringify(p).match(/"-x"/) ? ["-x"] : [];
const composite = (p) => COMP.includes(peel(p)[0]) || peel(p)[0] === "or";
// a command next to a container with positionals, merged positionals next to others
const mixed = (p) => any(p, (q) => COMP.includes(q[0]) && (any(q, (x) => x[0] === "cmd") && kids(q).some((k) => composite(k) && hasArg(k))
  || kids(q).some((k) => any(k, (x) => x[0] === "merge") && hasArg(k)) && kids(q).filter(hasArg).length > 1));
// alternatives that can begin alike: or() does not backtrack
const alike = (p) => any(p, (q) => q[0] === "or" && (q[1].some((k) => peel(k)[0] !== "cmd" && hasArg(k)) || q[1].filter((k) => peel(k)[0] !== "cmd" && names(k).length).length > 1));
const seqAfterCmd = (p) => any(p, (q) => q[0] === "seq" && q[1].slice(0, -1).some((k) => any(k, (x) => x[0] === "cmd")));
const ms = (s) => [...s].sort().join(" , ");
function sentences(A, parser, units, max) {
  const ok = new Map(); let n = 0;
  const go = (s, t) => {
    n++;
    if (A.parseSync(parser, t).success) { const k = ms(s); if (!ok.has(k)) ok.set(k, t); }
    if (s.length < max) for (const u of units) go([...s, u.join(" ")], [...t, ...u]);
  };
  go([], []);
  return { ok, n };
}
function paths(p, pre = []) {
  switch (p[0]) {
    case "cmd": return [[...pre, p[1]], ...paths(p[2], [...pre, p[1]])];
    case "optl": case "def": case "map": case "mult": case "ne": return paths(p[1], pre);
    case "group": return paths(p[2], pre);
    case "obj": return Object.values(p[1]).flatMap((q) => paths(q, pre));
    case "tup": case "merge": case "concat": case "or": return p[1].flatMap((q) => paths(q, pre));
    case "seq": { const out = []; for (const q of p[1]) { out.push(...paths(q, pre)); if (!canBeEmpty(q)) break; } return out; }
    default: return [];
  }
}
export function judge(ctx, A, shape, max, only) {
  const bad = (kind, what) => { if (!only || only === kind) ctx.violation(kind + " " + JSON.stringify(shape), `${JSON.stringify(shape)}\n ${what}`, { shape, max, kind }, JSON.stringify(shape).length); };
  const { p, units } = program(A, shape);
  const parser = toParser(A, p), usage = A.normalizeUsage(parser.usage), line = A.formatUsage("prog", parser.usage);
  ctx.state(); ctx.distinct(JSON.stringify(p));
  const want = ("prog " + text(usage)).trim();
  if (line !== want) bad("text", `usage line ${line}\n its terms mean ${want}`);
  const langu = toks(A, usage, max);
  const lang = new Map(langu.map((s) => [ms(s), s]));
  const js = JSON.stringify(p);
  // an equals-only pass-through competes with positionals (documented priority)
  const canon = CANON.some((c) => JSON.stringify(c) === JSON.stringify(shape));
  const judged = !((inClass(p) || mixed(p)) && !canon) && !alike(p) && !flexible(usage) && !(js.includes('["pass"') && /"arg"|"cmd"|"mult"/.test(js));
  const { ok, n } = sentences(A, parser, units, max);
  ctx.exec(n); ctx.transition(n);
  for (const s of langu) {
    if (s.maybe || !judged) continue;
    const t = s.flatMap((u) => u.split(" "));
    const r = A.parseSync(parser, t);
    if (!r.success) { bad("accept", `${line}\n derives ${JSON.stringify(t)}, which is rejected: ${A.formatMessage(r.error).slice(0, 200)}`); break; }
  }
  for (const [k, t] of ok) if (!lang.has(k)) { bad("extra", `${line}\n does not derive ${JSON.stringify(t)}, which is accepted as ${show(A.parseSync(parser, t).value)}`); break; }
  // help
  for (const path of [[], ...new Map(paths(p).map((x) => [x.join(" "), x])).values()]) {
    // only paths the parser can follow
    if (![...ok.values()].some((t) => path.every((c, i) => t[i] === c))) continue;
    if (!path.length && rootCommand(p)) continue;
    ctx.transition();
    if (path.length && alike(p)) continue;
    const page = A.getDocPageSync(parser, path);
    if (!page) { bad("nopage", `no page for ${path}`); continue; }
    const got = page.sections.flatMap((s) => s.entries.map((e) => entryId(e.term))), all = entries(p, path), exp = new Set(all);
    for (const id of exp) { const c = got.filter((x) => x === id).length; if (c !== (id === "-x" || id === "passthrough" ? (id === "-x" ? 1 : Math.max(1, c)) : all.filter((x) => x === id).length)) { bad("help", `help for [${path}] has ${c} entries for ${id}: ${got}`); break; } }
    const possible = new Set([...entries(p, []), ...exp, ...path.map((_, i) => entries(p, path.slice(0, i))).flat()]);
    const odd = got.find((x) => !possible.has(x));
    if (odd) bad("helpodd", `help for [${path}] shows ${odd}, which is not there: ${got}`);
    // the usage of the page is about the same language, restricted to the path
    const pl = toks(A, A.normalizeUsage(page.usage ?? []), max);
    for (const s of pl) { if (s.maybe || !judged || path.length && seqAfterCmd(p) && !canon) continue; const t = s.flatMap((u) => u.split(" ")); const r = A.parseSync(parser, t); if (!r.success) { bad("pageaccept", `page usage for [${path}]: ${A.formatUsage("prog", page.usage)}\n derives ${JSON.stringify(t)}, which is rejected: ${A.formatMessage(r.error).slice(0, 150)}`); break; } }
    const keys = new Set(pl.map(ms));
    for (const [k, t] of ok) if (path.every((c, i) => t[i] === c) && !keys.has(k)) { bad("pageextra", `page usage for [${path}]: ${A.formatUsage("prog", page.usage)}\n does not derive ${JSON.stringify(t)}, which is accepted`); break; }
    const text2 = A.formatDocPage("prog", page);
    for (const id of exp) if (!text2.includes(id === "passthrough" ? "[...]" : id)) { bad("helptext", `help text for [${path}] does not show ${id}`); break; }
  }
  ctx.outcome(ok.size > 1 ? "language with several sentences" : "small language");
  if (ok.size > 12) ctx.sample({ usage: line, sentences: ok.size });
}
export const WR = ["optl", "def", "mult", "mult1", "group", "map"];
export const CO = ["obj", "tup", "seq", "merge", "concat", "or"];
export function* shapes(quick) {
  const L = ["F", "B", "O", "A", "G", "C", "P"];
  const w = (s) => WR.map((k) => [k, s]);
  for (const s of L) { yield ["obj", [s]]; for (const x of w(s)) { yield ["obj", [x]]; for (const y of w(x)) yield ["obj", [y]]; } yield ["cmd", ["obj", [s]]]; }
  const W1 = (s) => [s, ...w(s)];
  for (const c of CO) for (const a of L) for (const b of L) {
    for (const x of W1(a)) for (const y of W1(b)) {
      const s = [c, [x, y]];
      yield s;
      if (typeof x === "string" || typeof y === "string") { if (quick && typeof x !== "string" ) continue; for (const k of WR) yield ["obj", [[k, s]]]; yield ["cmd", s]; }
    }
  }
  const small = ["F", ["optl", "F"], "O", "A", ["mult", "A"], "C", "B"];
  for (const c of CO) for (const d of CO) for (const x of quick ? small.slice(0, 6) : small) for (const y of small) for (const z of quick ? ["O", "C", ["optl", "A"]] : small) yield [c, [[d, [x, y]], z]];
  for (const c of CO) for (const x of small) for (const y of small) for (const z of small) yield [c, [x, y, z]];
  for (const x of ["X", ["optl", "X"]]) for (const y of ["F", "A", "C"]) for (const z of ["B", "O"]) { yield ["or", [["obj", [x, y]], ["obj", [x, z]]]]; yield ["or", [["obj", [x, y]], ["obj", [z, x]], ["tup", ["F", "X"]]]]; yield ["cmd", ["or", [["obj", [x]], ["obj", [x, z]]]]]; yield ["or", [["cmd", ["obj", [x, y]]], ["cmd", ["obj", [x, z]]]]]; }
  for (const x of small) yield ["or", [["cmd", ["cmd", ["obj", [x]]]], ["cmd", ["or", [["cmd", ["obj", [x]]], "F"]]]]];
}
export async function replay(ctx, d) { const A = await api(ctx); judge(ctx, A, d.shape, d.max, d.kind); }
export async function run(ctx) {
  const A = await api(ctx), max = ctx.quick ? MAXLEN : 4;
  ctx.bound("items per command line", max);
  for (const shape of shapes(ctx.quick)) {
    if (!ctx.next()) continue;
    ctx.begin({ shape, max });
    try { judge(ctx, A, shape, max); } catch (e) { if (e instanceof TypeError && /consum|duplicate|Duplicate|at most|at least|multiple\(\)|inner parser/i.test(e.message)) { ctx.outcome("constructor rejects"); continue; } ctx.violation("throw " + JSON.stringify(shape), `${JSON.stringify(shape)} throws ${e.stack.slice(0, 300)}`, { shape, max }); }
    ctx.checkTime();
  }
}

// P09: every suggestion at every cursor position of every viable partial command
// line, against what the parser itself goes on to accept (found by exhaustive
// search over completions), in both directions.
import { api, toParser, tokenLists } from "../lib/prog.mjs";
import { instantiate, WRAPS } from "../lib/gen.mjs";
export const meta = {
  rule: "a program whose partial command lines yield a new set of suggestion lists",
  assumptions: [
    "a partial command line is judged when some completion within the bound is accepted",
    "a repeated part need not offer a value it already has",
    "before anything distinguishes them, all unfilled parts may offer; names of options already given, values of positions already filled, and option names after `--` may still be offered (the documentation does not exclude it); what must not be offered: parts of commands not entered, of branches the tokens exclude, and anything but its values after a value option",
    "option names are requested with a prefix that starts like an option (`-` alone asks for short names)",
  ],
};
// Leaves: names, values offered for it, tokens used to explore, one token list that completes it.
const V = [["alpha", "beta", "bar"], ["red", "rot", "blue"], ["one", "two", "on"], ["x1", "x2", "y"]];
const vp = (A, i) => A.vp.choice(V[i % 4], { metavar: "V" + i });
export const leaves = (A) => ({
  F: (i) => ({ p: ["flag", ["-" + "vwxyzu"[i], "--flag" + i]], names: ["-" + "vwxyzu"[i], "--flag" + i], t: ["-" + "vwxyzu"[i]], fin: ["-" + "vwxyzu"[i]] }),
  G: (i) => ({ p: ["neg", ["--on" + i], ["--no-on" + i]], names: ["--on" + i, "--no-on" + i], t: ["--no-on" + i], fin: ["--on" + i] }),
  B: (i) => ({ p: ["bool", ["-" + "pqrstm"[i], "--flip" + i]], names: ["-" + "pqrstm"[i], "--flip" + i], t: ["--flip" + i], fin: [] }),
  E: (i) => ({ p: ["opt", ["-" + "efghij"[i], "--enum" + i], vp(A, i)], names: ["-" + "efghij"[i], "--enum" + i], values: V[i % 4], valued: true, t: ["--enum" + i, V[i % 4][0]], fin: [`--enum${i}=${V[i % 4][0]}`] }),
  O: (i) => ({ p: ["opt", ["-" + "nolkji"[i], "--num" + i], "num"], names: ["-" + "nolkji"[i], "--num" + i], valued: true, t: [`--num${i}=5`], fin: [`--num${i}=5`] }),
  A: (i) => ({ p: ["arg", vp(A, i)], values: V[i % 4], arg: true, t: [V[i % 4][1]], fin: [V[i % 4][1]] }),
  N: () => ({ p: ["arg", "num"], arg: true, t: ["7"], fin: ["7"] }),
  D: (i) => ({ p: ["opt", ["--disc" + i], A.vp.choice(["alpha", "beta"], { metavar: "D" })], names: ["--disc" + i], values: ["alpha", "beta"], valued: true, t: [`--disc${i}=alpha`, `--disc${i}=beta`], fin: [`--disc${i}=alpha`] }),
  C: (i) => ({ p: ["cmd", "cmd" + i, ["obj", { ["b" + i]: ["bool", ["-" + "PQRSTM"[i], "--inner" + i]], ["x" + i]: ["optl", ["arg", vp(A, i)]] }], { aliases: ["c" + i] }], cmd: ["cmd" + i, "c" + i], names: ["-" + "PQRSTM"[i], "--inner" + i], values: V[i % 4], t: ["cmd" + i, V[i % 4][1]], fin: ["cmd" + i] }),
});
const COMPS = ["obj", "tup", "seq", "merge", "concat", "or", "long"];
export function* shapes(quick) {
  const L = ["F", "G", "B", "E", "O", "A", "N", "C"];
  for (const l of L) yield l;
  for (const w of WRAPS) for (const l of L) yield [w, l];
  const W1 = [...L, ...["optl", "def", "mult", "map", "group", "cmd"].flatMap((w) => L.map((l) => [w, l]))];
  for (const c of COMPS) for (const a of W1) for (const b of W1) {
    if (quick && Array.isArray(a) && Array.isArray(b)) continue;
    if (quick && [a, b].some((x) => Array.isArray(x) && !["optl", "mult", "cmd"].includes(x[0]))) continue;
    yield [c, [a, b]];
  }
  const S = ["F", "E", "A", "C"];
  const pairs = COMPS.flatMap((c) => S.flatMap((a) => S.map((b) => [c, [a, b]])));
  for (const w of WRAPS) for (const p of pairs) yield [w, p];
  for (const c of quick ? ["obj", "tup", "seq", "merge", "or"] : COMPS) for (const p of pairs) for (const l of quick ? ["E"] : S) { yield [c, [p, l]]; yield [c, [l, p]]; }
  for (const a of S) for (const b of S) for (const d of [null, "F", "A"]) for (const w of [(x) => x, (x) => ["obj", [x, "F"]], (x) => ["obj", [x, "A"]], (x) => ["optl", x], (x) => ["cmd", x]]) yield w(["cond", d ? ["D", a, b, d] : ["D", a, b]]);
  if (!quick) for (const c of COMPS) for (const w of ["optl", "mult", "def"]) for (const p of pairs) for (const l of S) { yield [c, [[w, p], l]]; yield [c, [l, [w, p]]]; }
}
// Structural reachability: every leaf with the commands it is inside of, the
// branches it belongs to and the words it owns.
function items(ast) {
  const out = []; let ors = 0;
  const go = (p, path) => {
    switch (p[0]) {
      case "flag": case "bool": out.push({ path, names: p[1] }); break;
      case "neg": out.push({ path, names: [...p[1], ...p[2]] }); break;
      case "opt": out.push({ path, names: p[1], values: p[2].choices ?? ["5"], valued: true }); break;
      case "arg": out.push({ path, values: p[1].choices ?? ["7"], arg: true }); break;
      case "cmd": { const names = [p[1], ...p[3]?.aliases ?? []]; out.push({ path, names, cmd: true }); go(p[2], [...path, { cmd: names }]); break; }
      case "obj": Object.values(p[1]).forEach((q) => go(q, path)); break;
      case "or": case "long": { const id = ors++; p[1].forEach((q, i) => go(q, [...path, { or: id, branch: i }])); break; }
      case "cond": {
        const id = ors++, disc = p[1][1];
        go(p[1], path);
        for (const [k, q] of Object.entries(p[2])) go(q, [...path, { cond: id, key: k, disc }]);
        if (p[3]) go(p[3], [...path, { cond: id, key: null, disc }]);
        break;
      }
      case "mult": go(p[1], [...path, { mult: true }]); break;
      case "group": go(p[2], path); break;
      case "optl": case "def": case "map": case "ne": go(p[1], path); break;
      case "const": case "fail": break;
      default: p[1].forEach((q) => go(q, path));
    }
  };
  go(ast, []);
  return out;
}
const uses = (it, t) => it.names?.includes(t) || it.arg && it.values.includes(t) || it.valued && it.names.some((n) => n.startsWith("--") && t.startsWith(n + "="));
function open(its, it, toks) {
  for (const [at, c] of it.path.entries()) {
    if (c.mult) return true; // a repeated part may start over
    if (c.cmd && !toks.some((t) => c.cmd.includes(t))) return false;
    if (c.or !== undefined) {
      // a token that only another branch of the same alternative can have taken
      for (const t of toks) {
        const who = its.filter((x) => uses(x, t));
        if (who.length && who.every((x) => x.path.some((y) => y.or === c.or && y.branch !== c.branch))) return false;
      }
    }
    if (c.cond !== undefined) {
      let given = null;
      toks.forEach((t, i) => { for (const n of c.disc) { if (t === n && toks[i + 1]) given = toks[i + 1]; if (t.startsWith(n + "=")) given = t.slice(n.length + 1); } });
      if (given !== c.key) return false;
    }
  }
  return true;
}
class Prog {
  constructor(A, shape) {
    const { p, meta } = instantiate(shape, leaves(A));
    this.A = A; this.ast = p; this.shape = shape;
    this.parser = toParser(A, p);
    this.leaves = meta;
    this.cmds = meta.flatMap((l) => l.cmd ?? []);
    this.names = meta.flatMap((l) => l.names ?? []);
    this.fin = [...new Set(meta.flatMap((l) => l.fin))];
    this.toks = [...new Set(meta.flatMap((l) => l.t ?? l.toks)), "--"];
    this.memo = new Map();
    this.alt = /"or"|"long"/.test(JSON.stringify(p));
    this.items = items(p);
    this.loose = /"(tup|seq|merge|concat|or|long|cond)"/.test(JSON.stringify(p));
    this.long = JSON.stringify(p).includes('"long"');
    let q = p; while (["optl", "def", "map", "ne", "mult", "group"].includes(q[0])) q = q[0] === "group" ? q[2] : q[1];
    this.bare = q[0] === "opt";
    this.rep = JSON.stringify(p).includes('"mult"');
  }
  // Some part not excluded by the tokens so far has this word.
  reachable(toks, w) {
    return this.items.some((it) => (it.names?.includes(w) || it.arg && it.values.includes(w) || it.valued && w.includes("=") && it.names.includes(w.slice(0, w.indexOf("="))) && it.values.includes(w.slice(w.indexOf("=") + 1))) && open(this.items, it, toks));
  }
  accepts(toks) {
    const k = toks.join("\u0001");
    let r = this.memo.get(k);
    if (r === undefined) { r = this.A.parseSync(this.parser, toks).success; this.memo.set(k, r); this.n = (this.n ?? 0) + 1; }
    return r;
  }
  // Some completion made of one use of each part at most is accepted.
  viable(toks, left = this.leaves.length + 1) {
    const k = left + "\u0002" + toks.join("\u0001");
    const m = this.memo.get(k);
    if (m !== undefined) return m;
    let r = this.accepts(toks);
    if (!r && left > 0) {
      const pend = this.pending(toks);
      for (const t of pend ? pend.values ?? ["5"] : this.fin) if (!toks.includes(t) || pend) if (this.viable([...toks, t], left - 1)) { r = true; break; }
    }
    this.memo.set(k, r);
    return r;
  }
  // The option that waits for its value at the end of the line.
  pending(toks) {
    if (toks.indexOf("--") !== -1) return undefined;
    const l = toks.at(-1);
    return l === undefined ? undefined : this.leaves.find((x) => x.valued && x.names.includes(l) && !this.isValue(toks));
  }
  isValue() { return false; } // no value in the catalogue looks like an option
}
const key = (P, toks, prefix) => `${JSON.stringify(P.shape)} ${JSON.stringify(toks)} ${prefix}`;
function judge(ctx, P, toks, prefix, canon) {
  ctx.exec();
  const d = { shape: P.shape, toks, prefix, ...(canon && { canon }) };
  const problems = [];
  const rep = (what, w) => canon ? problems.push(what) : ctx.violation(key(P, toks, prefix) + " " + w, `${JSON.stringify(P.ast)}\n ${JSON.stringify([...toks, prefix])}: ${what}`, d, JSON.stringify(d).length);
  let got;
  try { got = P.A.suggestSync(P.parser, [...toks, prefix]); } catch (e) { rep("throws " + e.stack.slice(0, 300), "throw"); return []; }
  const texts = got.map((s) => s.text);
  if (got.some((s) => s.kind !== "literal")) { rep("unexpected file suggestion", "kind"); return texts; }
  if (new Set(texts).size !== texts.length) rep("repeated: " + texts, "repeat");
  const pend = P.pending(toks);
  for (const w of texts) {
    if (!w.startsWith(prefix)) rep(`${w} does not start with the prefix`, w);
    // only object() is known to keep the values of other parts out of a pending
    // value option (recorded finding for the other constructs)
    if (pend ? pend.values?.includes(w) || P.loose && canon !== true && P.items.some((it) => (it.names?.includes(w) || it.values?.includes(w)) && it.path.every((c) => !c.cmd || toks.some((t) => c.cmd.includes(t)))) : P.reachable(toks, w)) continue;
    rep(`offers ${w}, which the tokens so far exclude`, w);
  }
  const must = [];
  const eq = prefix.startsWith("-") ? prefix.indexOf("=") : -1;
  if (pend) { for (const v of pend.values ?? []) must.push(v); }
  else if (eq >= 0) { const l = P.leaves.find((x) => x.valued && x.names.includes(prefix.slice(0, eq)) && prefix.startsWith("--")); for (const v of l?.values ?? []) must.push(prefix.slice(0, eq + 1) + v); }
  else {
    must.push(...P.cmds);
    if (prefix.startsWith("-")) for (const n of P.names) if (prefix !== "-" || n.length === 2) must.push(n);
    for (const l of P.leaves) if ((l.arg || l.cmd) && l.values) must.push(...l.values);
  }
  for (const w of must) if (w.startsWith(prefix) && !(P.rep && toks.includes(w)) && !texts.includes(w) && P.viable([...toks, w])) rep(`does not offer ${w} (offers ${texts})`, w);
  if (problems.length) ctx.violation("canon " + key(P, toks, prefix) + " " + problems.join("; "), `${JSON.stringify(P.ast)}\n ${JSON.stringify([...toks, prefix])}: ${problems.join("; ")}`, d, 1);
  return texts;
}
// Inputs of recorded findings; the rest of each class is not judged.
const CANON = [
  [["tup", ["A", "E"]], ["--enum1"], ""], [["or", ["A", "B"]], ["--"], ""], [["long", [["optl", "A"], ["optl", "E"]]], ["--enum1"], ""],
  [["mult", ["long", ["A", "A"]]], ["beta"], ""], [["obj", ["A", ["mult", "C"]]], ["cmd1", "rot"], "-"], [["optl", "E"], [], ""],
];
export async function replay(ctx, d) {
  const A = await api(ctx);
  judge(ctx, new Prog(A, d.shape), d.toks, d.prefix, d.canon);
}
export async function run(ctx) {
  const A = await api(ctx), done = new Set();
  if (ctx.shard === 0) for (const [sh, t, x] of CANON) judge(ctx, new Prog(A, sh), t, x, true);
  const depth = ctx.quick ? 2 : 3;
  for (const s of shapes(ctx.quick)) {
    let P;
    try { P = new Prog(A, s); } catch (e) { if (e instanceof TypeError || /nonEmpty|RangeError/.test(e.message)) { ctx.outcome("constructor rejects"); continue; } throw e; }
    const k = JSON.stringify(P.ast);
    if (done.has(k)) continue;
    done.add(k);
    if (!ctx.next()) continue;
    ctx.begin({ shape: s, toks: [], prefix: "" });
    const words = [...new Set([...P.cmds, ...P.names, ...P.leaves.flatMap((l) => l.values ?? []), ...P.leaves.flatMap((l) => l.valued && l.values ? l.values.map((v) => l.names.at(-1) + "=" + v) : [])])];
    const prefixes = [...new Set(words.flatMap((w) => [...w].map((_, i) => w.slice(0, i + 1)).filter((x, i) => !ctx.quick || i < 1 || i === 2 || x.includes("=") || x.length === w.length)))];
    prefixes.unshift("");
    const outs = new Set();
    for (const toks of tokenLists(P.toks, depth)) {
      ctx.state();
      if (P.alt && toks.includes("--") || P.long && (P.rep || P.pending(toks)) || P.rep && P.cmds.length && toks.length || P.bare && toks.every((t) => t === "--")) { ctx.outcome("finding"); continue; }
      if (!P.viable(toks)) { ctx.outcome("not viable"); continue; }
      ctx.outcome("viable");
      for (const x of prefixes) { if (x.startsWith("-") && P.pending(toks)) continue; ctx.transition(); outs.add(judge(ctx, P, toks, x).join()); }
    }
    ctx.exec(P.n ?? 0);
    ctx.distinct(k + outs.size);
    if (outs.size > 25) ctx.sample({ shape: s, distinctLists: outs.size });
    ctx.checkTime();
  }
}

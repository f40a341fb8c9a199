// P17: hints. (a) every pair of words up to a length: the distance is the length
// of a shortest path in the explicit graph of single edits; (b) findSimilar on
// every candidate list and setting in a bound; (c) every near-miss of every name
// at every point of a catalogue of programs, and of closed value sets.
import { api, toParser } from "../lib/prog.mjs";
import { mutations, strings, J, prod } from "../lib/vp.mjs";
export const meta = {
  rule: "a pair of words, a (typed word, candidates, settings) case, or a (program, command line with one mistyped word) case",
  assumptions: ["a command reached through an alias counts as close if one of its spellings is", "an option that was already used may still be suggested", "ties in distance may be listed in any order", "whether a word left over inside a tuple() gets a hint is not specified"],
};
// shortest edit paths from w over all words of at most n symbols (breadth first)
function edits(w, alpha, n) {
  const dist = new Map([[w, 0]]); let layer = [w];
  for (let d = 1; layer.length; d++) {
    const next = [];
    for (const u of layer) {
      const put = (t) => { if (t.length <= n && !dist.has(t)) { dist.set(t, d); next.push(t); } };
      for (let i = 0; i <= u.length; i++) { if (i < u.length) put(u.slice(0, i) + u.slice(i + 1)); for (const a of alpha) { put(u.slice(0, i) + a + u.slice(i)); if (i < u.length) put(u.slice(0, i) + a + u.slice(i + 1)); } }
    }
    layer = next;
  }
  return dist;
}
// plain recursive definition with memo, for words outside the graph's alphabet
function lev(a, b) {
  const m = new Map();
  const f = (i, j) => { if (i === 0 || j === 0) return i + j; const k = i * 1000 + j; if (!m.has(k)) m.set(k, Math.min(f(i - 1, j) + 1, f(i, j - 1) + 1, f(i - 1, j - 1) + (a[i - 1] === b[j - 1] ? 0 : 1))); return m.get(k); };
  return f(a.length, b.length);
}
const DEF = { maxDistance: 3, maxDistanceRatio: 0.5, maxSuggestions: 3, caseSensitive: false };
function judgeList(input, cands, opt, got) {
  const o = { ...DEF, ...opt }, n = (s) => o.caseSensitive ? s : s.toLowerCase(), d = (c) => lev(n(input), n(c));
  const okc = [...new Set(cands)].filter((c) => input !== "" && d(c) <= o.maxDistance && d(c) / input.length <= o.maxDistanceRatio);
  if (!Array.isArray(got)) return "not a list";
  if (new Set(got).size !== got.length) return `repeats: ${J(got)}`;
  for (const g of got) if (!okc.includes(g)) return `${J(g)} is not a qualifying candidate`;
  if (got.length > o.maxSuggestions) return `${got.length} hints`;
  for (let i = 1; i < got.length; i++) if (d(got[i - 1]) > d(got[i])) return `not in order of distance: ${J(got)}`;
  if (okc.length && o.maxSuggestions > 0) {
    const best = Math.min(...okc.map(d)); if (!got.length || d(got[0]) !== best) return `closest of ${J(okc)} is missing from ${J(got)}`;
    if (best > 0) { const want = Math.min(o.maxSuggestions, okc.length); if (got.length !== want) return `${got.length} of ${want} qualifying hints: ${J(got)} of ${J(okc)}`; const worst = d(got.at(-1)); for (const c of okc) if (!got.includes(c) && d(c) < worst) return `${J(c)} is closer than ${J(got.at(-1))}`; }
  }
}
const fl = (...n) => ["flag", n], hid = (...n) => ["flag", n, { hidden: true }], O = (f) => ["obj", f];
const cmd = (n, p, o) => ["cmd", n, p, ...(o ? [o] : [])];
const opts = O({ v: ["bool", ["--verbose", "-v"]], n: ["bool", ["--version"]], y: ["bool", ["--verify"]], q: ["bool", ["--quiet"]], s: ["bool", ["--verbs"], { hidden: true }] });
const add = cmd("add", O({ f: ["bool", ["--force"]], h: ["bool", ["--forcs"], { hidden: true }] })), com = cmd("commit", O({ m: ["optl", ["opt", ["--message", "-m"], "str"]] }));
const rem = cmd("remove", O({ r: ["bool", ["--recursive"]] }), { aliases: ["rm", "delete"], hiddenAliases: ["remov2", "destroy"] }), sec = cmd("comet", O({}), { hidden: true });
const nest = cmd("remote", ["or", [cmd("added", O({})), cmd("prune", O({ d: ["bool", ["--dry"]] }))]]);
const S = (names, groups = {}) => ({ names, groups });
const C = { add: S(["add"]), commit: S(["commit"]), remove: { names: ["remove", "rm", "delete"], close: ["remov2", "destroy"] } };
const remG = ["remove", "rm", "delete", "remov2", "destroy"];
// program, then per prefix: available option names and command names (aliases grouped)
export const PROGS = {
  options: { p: opts, at: [{ pre: [], o: ["--verbose", "-v", "--version", "--verify", "--quiet"], c: [] }, { pre: ["--quiet"], o: ["--verbose", "-v", "--version", "--verify", "--quiet"], c: [] }] },
  commands: { p: ["or", [add, com, rem, sec, nest]], at: [{ pre: [], o: [], c: ["add", "commit", "remote", remG] }, { pre: ["add"], o: ["--force"], c: [] }, { pre: ["commit"], o: ["--message", "-m"], c: [] }, { pre: ["rm"], o: ["--recursive"], c: [] }, { pre: ["remote"], o: [], c: ["added", "prune"] }, { pre: ["remote", "prune"], o: ["--dry"], c: [] }] },
  long: { p: ["long", [add, com, rem, sec]], at: [{ pre: [], o: [], c: ["add", "commit", remG] }, { pre: ["add"], o: ["--force"], c: [] }] },
  mixed: { p: O({ g: ["bool", ["--global", "-g"]], c: ["or", [add, com, rem]] }), at: [{ pre: [], o: ["--global", "-g"], c: ["add", "commit", remG], x: 1 }, { pre: ["--global"], o: ["--global", "-g"], c: ["add", "commit", remG], x: 1 }, { pre: ["add"], o: ["--force", "--global", "-g"], c: [], x: 1 }, { pre: ["commit"], o: ["--message", "-m", "--global", "-g"], c: [], x: 1 }, { pre: ["rm"], o: ["--recursive", "--global", "-g"], c: [], x: 1 }] },
  merged: { p: ["merge", [O({ a: ["bool", ["--alpha"]] }), O({ b: ["bool", ["--beta"]] }), O({ h: ["bool", ["--alphb"], { hidden: true }] })]], at: [{ pre: [], o: ["--alpha", "--beta"], c: [] }, { pre: ["--alpha"], o: ["--alpha", "--beta"], c: [] }] },
  wrapped: { p: ["group", "G", O({ a: ["optl", ["opt", ["--output"], "str"]], b: ["def", ["opt", ["--outfit", "-o"], "int"], 1], m: ["mult", ["opt", ["--other"], "str"]] })], at: [{ pre: [], o: ["--output", "--outfit", "-o", "--other"], c: [] }, { pre: ["--other", "x"], o: ["--output", "--outfit", "-o", "--other"], c: [] }] },
  hiddenGroup: { p: O({ a: ["group", "G", O({ x: ["bool", ["--shown"]], w: ["bool", ["--shows"]] }), { hidden: true }], b: ["bool", ["--shot"]] }), at: [{ pre: [], o: ["--shot"], c: [] }] },
  argFirst: { p: ["tup", [["arg", "num"], ["or", [add, com]]]], at: [{ pre: ["1"], o: [], c: ["add", "commit"], loose: 1 }] },
  single: { p: cmd("deploy", O({ d: ["bool", ["--dry-run"]] })), at: [{ pre: [], o: [], c: ["deploy"] }, { pre: ["deploy"], o: ["--dry-run"], c: [] }] },
  lone: { p: ["opt", ["--name", "-n"], "str"], at: [{ pre: [], o: ["--name", "-n"], c: [] }] },
  loneFlag: { p: fl("--Colour"), at: [{ pre: [], o: ["--Colour"], c: [] }] },
  negatable: { p: ["neg", ["--colour"], ["--no-colour"]], at: [{ pre: [], o: ["--colour", "--no-colour"], c: [] }] },
  hiddenOnly: { p: hid("--secret"), at: [{ pre: [], o: [], c: [] }] },
  cond: { p: ["cond", ["opt", ["--mode"], "ab"], { a: O({ x: ["bool", ["--model"]] }), b: O({ y: ["bool", ["--yes"]] }) }], at: [{ pre: [], o: ["--mode"], c: [] }] },
  orOpts: { p: ["or", [O({ a: fl("--apple") }), O({ b: fl("--apply"), c: fl("--zeta") })]], at: [{ pre: [], o: ["--apple", "--apply", "--zeta"], c: [] }] },
  hiddenCmdOpts: { p: ["or", [cmd("open", O({ p: ["bool", ["--path"]] })), cmd("oven", O({ p: ["bool", ["--patch"]] }), { hidden: true })]], at: [{ pre: [], o: [], c: ["open"] }, { pre: ["open"], o: ["--path"], c: [] }] },
};
// hint in a message: the names after "Did you mean"
export function hints(msg) {
  let on = false; const out = [];
  for (const t of msg) { if (t.type === "text" && t.text.includes("Did you mean")) { on = true; continue; } if (on && (t.type === "optionName" || t.type === "value" || t.type === "commandName")) out.push(t.optionName ?? t.value ?? t.commandName); }
  return on ? out : undefined;
}
// object() looks at every name nested in its commands (a recorded finding): for
// programs of that shape only these cases are judged for availability
const CANON = new Set([{ k: "typo", p: "mixed", a: 0, w: "-A" }, { k: "typo", p: "mixed", a: 2, w: "RG" }].map(J));
const txt = (msg) => msg.map((t) => t.text ?? t.optionName ?? t.value ?? t.metavar ?? "").join("");
async function typo(ctx, A, d) {
  const P = PROGS[d.p], at = P.at[d.a]; ctx.state(); ctx.transition();
  const fail = (m) => ctx.violation(J(d), `${d.p} ${J([...at.pre, d.w])}: ${m}`, d, d.w.length);
  let r; try { r = d.async ? await A.parseAsync(toParser(A, P.p, asyncVp), [...at.pre, d.w]) : A.parseSync(toParser(A, P.p), [...at.pre, d.w]); ctx.exec(); } catch (e) { return fail(`threw ${e}`); }
  ctx.distinct(J(d));
  if (r.success) { ctx.outcome("accepted"); return; }
  if (at.o.some((n) => n.length === 2 && d.w.length > 2 && d.w.startsWith(n))) { ctx.outcome("bundle"); return; } // the error is about the rest
  const h = hints(r.error) ?? [];
  ctx.outcome(h.length ? `hint of ${Math.min(h.length, 4)}` : "no hint");
  const dd = (n) => lev(d.w.toLowerCase(), n.toLowerCase()), q = (n) => dd(n) <= 3 && dd(n) / d.w.length <= 0.5;
  const groups = [...at.o.map((n) => ({ show: [n], close: [n] })), ...at.c.map((c) => Array.isArray(c) ? { show: c.slice(0, 3), close: c } : { show: [c], close: [c] })];
  let order = []; for (const n of h) { let g = groups.find((g) => g.show.includes(n)); if (!g && at.x && !CANON.has(J(d))) { const e = [...P.at.flatMap((a) => a.o.map((n) => [n])), ...P.at.flatMap((a) => a.c).map((c) => Array.isArray(c) ? c : [c])].find((c) => c.includes(n)); if (e) groups.push(g = { show: e, close: e }); } if (!g) return fail(`hint names ${J(n)}, which is not available and visible here`); const k = g.close.filter(q).map(dd); if (!k.length) return fail(`hint names ${J(n)}, which is too far from ${J(d.w)}`); if (order.at(-1)?.g !== g) order.push({ g, n, d: g.close.length > 1 ? k : [dd(n)] }); }
  if (new Set(h).size !== h.length) return fail(`hint repeats a name: ${J(h)}`);
  if (order.length > 3) return fail(`hint of ${h.length} names`);
  for (let i = 1; i < order.length; i++) if (Math.min(...order[i - 1].d) > Math.max(...order[i].d)) return fail(`not in order of distance: ${J(h)}`);
  // completeness, when the error is about the mistyped word
  if (at.loose || !txt(r.error).includes(d.w)) return;
  const optish = d.w.startsWith("-"), names = groups.flatMap((g) => g.close), pool = names.includes(d.w) ? [] : groups.filter((g) => optish === g.close[0].startsWith("-")).flatMap((g) => g.show).filter(q);
  if (pool.length) { const best = Math.min(...pool.map(dd)), got = order.flatMap((o) => o.g.close); if (!h.length) return fail(`no hint although ${J(pool)} qualify: ${J(txt(r.error))}`); if (!got.some((n) => dd(n) <= best)) return fail(`the closest of ${J(pool)} is missing from ${J(h)}`); }
}
const asyncVp = (b) => ({ mode: "async", metavar: b.metavar, placeholder: b.placeholder, parse: async (s) => b.parse(s), format: b.format.bind(b) });
const CH = [["dev", "prod"], ["alpha", "alphb", "ALPHC", "beta"], ["a", "b"], ["same", "sane", "lane", "cane", "sand"]];
const SG = ["nearest", "never", undefined, { maxDistance: 1 }, { maxDistance: 0 }, { maxSuggestions: 1 }, { maxSuggestions: 2, maxDistance: 2 }, {}, "fn"];
function choiceHint(ctx, A, d) {
  const w = CH[d.ch], sg = SG[d.sg], fn = (i, c) => [...c].reverse().slice(0, 2); ctx.state(); ctx.transition();
  const p = A.vp.choice(w, { ...(sg !== undefined && { suggest: sg === "fn" ? fn : sg }), ...(d.ci && { caseInsensitive: true }) }), r = p.parse(d.w); ctx.exec(); ctx.distinct(J(d));
  if (r.success) return ctx.outcome("choice accepted");
  const h = hints(r.error); ctx.outcome(h ? "choice hint" : "choice plain"); let m;
  if (sg === "never" || sg === undefined) m = h ? "hint although disabled" : undefined;
  else if (sg === "fn") m = J(h) === J(fn(d.w, w)) ? undefined : `custom hints ${J(fn(d.w, w))} shown as ${J(h)}`;
  else m = judgeList(d.w, w, sg === "nearest" ? {} : sg, h ?? []);
  if (m) ctx.violation(J(d), `choice(${J(w)}, suggest ${J(sg)}) given ${J(d.w)}: ${m}`, d, d.w.length);
}
const alph = ["a", "b", "A"];
const candPool = ["a", "b", "ab", "AB", "aab", "abab", "bbb", "aaaa", ""];
const settings = prod([undefined, 0, 1, 2, 5], [undefined, 0, 0.34, 1], [undefined, 1, 2, 5], [undefined, true]).map(([maxDistance, maxDistanceRatio, maxSuggestions, caseSensitive]) => Object.fromEntries(Object.entries({ maxDistance, maxDistanceRatio, maxSuggestions, caseSensitive }).filter(([, v]) => v !== undefined)));
function sim(ctx, SGM, d) {
  ctx.state(); ctx.transition(); const got = SGM.findSimilar(d.i, d.c, d.o); ctx.exec(); ctx.distinct(J(d)); ctx.outcome(`findSimilar ${Math.min(got.length, 3)}`);
  const m = judgeList(d.i, d.c, d.o, got); if (m) ctx.violation(J(d), `findSimilar(${J(d.i)}, ${J(d.c)}, ${J(d.o)}): ${m}`, d, J(d).length);
}
export async function run(ctx) {
  const A = await api(ctx), G = await ctx.load("core/src/suggestion.js");
  for (const [alpha, n] of ctx.quick ? [[["a", "b"], 7], [["a", "b", "c"], 5]] : [[["a", "b"], 9], [["a", "b", "c"], 6], [["a", "b", "c", "d"], 5]]) {
    const words = [...strings(alpha, n)];
    for (const w of words) {
      if (!ctx.next()) continue;
      const g = edits(w, alpha, n); ctx.checkTime();
      for (const v of words) { ctx.state(); ctx.transition(); ctx.exec(); const got = G.levenshteinDistance(w, v); if (got !== g.get(v)) ctx.violation(J([w, v]), `distance of ${J(w)} and ${J(v)}: ${got}, shortest edit path ${g.get(v)}`, { k: "lev", a: w, b: v, want: g.get(v) }, w.length + v.length); }
      ctx.outcome("distance pair", words.length); ctx.distinct(w);
    }
    ctx.bound(`distance words over ${alpha.length} letters up to length`, n);
  }
  for (const i of strings(alph, 4)) for (const o of settings) {
    if (!ctx.next()) continue; ctx.checkTime();
    for (const a of candPool) for (const b of candPool) { sim(ctx, G, { k: "sim", i, c: [a, b], o }); if (!ctx.quick || (i.length % 2 && Object.keys(o).length !== 2)) for (const c of ctx.quick ? ["ab", "AB", "aab", "abab"] : candPool) sim(ctx, G, { k: "sim", i, c: [a, b, c, a + "b", "bab"], o }); }
  }
  const al = ["-", "a", "e", "v", "s", "m", "o", "r"];
  for (const p of Object.keys(PROGS)) for (let a = 0; a < PROGS[p].at.length; a++) {
    const at = PROGS[p].at[a], base = [...at.o, ...at.c.flat(), "--secret", "--verbs", "--forcs", "--alphb", "--model", "--yes", "comet", "added", "prune", "--patch", "--path", "oven", "open", "--shows", "--help"], seen = new Set();
    for (const w0 of base) for (const w1 of mutations(w0, al)) for (const w of [w1, w1.toUpperCase(), ...(ctx.quick ? [w1.slice(0, -2), w1 + "x", w1.slice(1) + "k"] : [...mutations(w1, ["a", "-", "x"])])]) {
      if (!w || seen.has(w)) continue; seen.add(w); if (!ctx.next()) continue;
      for (const as of [false, true]) { const d = { k: "typo", p, a, w, ...(as && { async: true }) }; ctx.begin(d); if (as && ctx.quick && seen.size % 8) continue; await typo(ctx, A, d); }
      if (seen.size % 200 === 0) ctx.checkTime(); if (seen.size < 40) ctx.sample({ program: p, tokens: [...at.pre, w] });
    }
  }
  for (let ch = 0; ch < CH.length; ch++) for (let sg = 0; sg < SG.length; sg++) for (const ci of [0, 1]) for (const w0 of CH[ch]) for (const w of new Set([...mutations(w0, ["a", "d", "A", "o"])].flatMap((x) => [x, ...mutations(x, ["x"])]))) { if (ctx.next()) choiceHint(ctx, A, { k: "choice", ch, sg, ci, w }); }
}
export async function replay(ctx, d) {
  const A = await api(ctx), G = await ctx.load("core/src/suggestion.js");
  if (d.k === "lev") { const g = G.levenshteinDistance(d.a, d.b); if (g !== d.want) ctx.violation(J([d.a, d.b]), `distance ${g}, expected ${d.want}`, d); }
  else if (d.k === "sim") sim(ctx, G, d); else if (d.k === "choice") choiceHint(ctx, A, d); else await typo(ctx, A, d);
}

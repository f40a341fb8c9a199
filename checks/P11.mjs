// P11: every assignment of visibility settings to a part and the wrappers around
// it, over all surfaces, against the same program without settings.
import { api, show, tokenLists, plainMsg, product } from "../lib/prog.mjs";
export const meta = {
  rule: "a (part, wrappers, settings) program with a new combination of surfaces",
  assumptions: ["the program without any visibility setting decides what each surface shows at all (P09, P12)", "what the help page of a hidden command itself shows once the command is typed is not specified"],
};
const H = [undefined, false, true, "usage", "doc", "help"];
const hid = (h) => h === true ? "uds" : h === "usage" ? "u" : h === "doc" ? "d" : h === "help" ? "ud" : "";
const o = (h) => h === undefined ? {} : { hidden: h };
// part: build, the word that identifies it on usage, help and completion, a typo
export const PARTS = {
  flag: { p: (A, h) => A.flag("--item-x", o(h)), word: "--item-x", near: ["--itemx"], pre: "--it", t: ["--item-x"] },
  opt: { p: (A, h) => A.option("--item-x", A.vp.choice(["abc", "abd"], { metavar: "ITEMVAL" }), o(h)), word: "--item-x", near: ["--itemx"], pre: "--it", t: ["--item-x", "--item-x=abc", "abd"] },
  bool: { p: (A, h) => A.option("-i", "--item-x", o(h)), word: "--item-x", near: ["--item-y"], pre: "--item", t: ["-i", "--item-x"] },
  neg: { p: (A, h) => A.negatableFlag({ positive: "--item-x", negative: "--no-item-x" }, o(h)), word: "--item-x", near: ["--itemx"], pre: "--it", t: ["--item-x", "--no-item-x"] },
  arg: { p: (A, h) => A.argument(A.vp.choice(["itemabc", "itemabd"], { metavar: "ITEMVAL" }), o(h)), word: "ITEMVAL", sug: "itemabc", near: [], pre: "it", t: ["itemabc", "bad"] },
  cmd: { p: (A, h) => A.command("item-x", A.object({ q: A.option("--inner-q") }), { aliases: ["ix"], ...o(h) }), word: "item-x", near: ["item-xx", "itemx"], pre: "it", t: ["item-x", "ix", "--inner-q"] },
  pass: { p: (A, h) => A.passThrough({ format: "equalsOnly", ...o(h) }), word: "...", dword: "passthrough", near: [], pre: "--", t: ["--u=1"] },
};
const WRAPS = {
  none: (A, p) => p, optl: (A, p) => A.optional(p), def: (A, p) => A.withDefault(p, undefined), mult: (A, p) => A.multiple(p), map: (A, p) => A.map(p, (x) => x),
};
const BOX = {
  group: (A, p, h) => A.group("GRP", p, o(h)),
  obj: (A, p, h, i) => A.object("OBJ" + i, { ["o" + i]: p }, o(h)),
  merge: (A, p, h, i) => A.merge("MRG" + i, A.object({ ["m" + i]: p }), A.object({ ["z" + i]: A.option(`--z${i}`) }), o(h)),
  cmd: (A, p, h, i) => A.command("go" + i, A.object({ c: p }), o(h)),
};
const CTX = {
  obj: (A, p) => A.object({ keep: A.option("--keep-me"), it: p }),
  tup: (A, p) => A.tuple([p, A.option("--keep-me")]),
  or: (A, p) => A.or(p, A.flag("--keep-me")),
  long: (A, p) => A.longestMatch(A.flag("--keep-me"), p),
  seq: (A, p) => A.seq(A.option("--keep-me"), p),
  mrg: (A, p) => A.merge(A.object({ keep: A.option("--keep-me") }), A.object({ it: p })),
  cond: (A, p) => A.conditional(A.option("--kind", A.vp.choice(["a"], { metavar: "KIND" })), { a: A.object({ it: p }) }, A.object({ keep: A.option("--keep-me") })),
};
function build(A, d, hidden) {
  const h = hidden ? d.h : d.h.map(() => undefined);
  let p = WRAPS[d.wrap](A, PARTS[d.part].p(A, h[0]));
  d.boxes.forEach((b, i) => { p = BOX[b](A, p, h[i + 1], i); });
  return CTX[d.ctx](A, p);
}
const path = (d) => [...d.boxes.entries()].reverse().flatMap(([i, b]) => b === "cmd" ? ["go" + i] : []);
// What each surface shows of the part.
function surfaces(A, d, p) {
  const s = PARTS[d.part], out = {};
  const lead = path(d), kind = d.ctx === "cond" ? ["--kind", "a"] : [];
  const has = (text, w) => text.includes(w);
  out.u0 = has(A.formatUsage("prog", p.usage), s.word);
  for (const [n, args] of [["root", []], ["path", [...kind, ...lead]]]) {
    const page = A.getDocPageSync(p, args);
    out["u" + n] = page ? has(A.formatUsage("prog", page.usage ?? []), s.word) : null;
    out["d" + n] = page ? has(JSON.stringify(page.sections.flatMap((x) => x.entries.map((e) => e.term))), s.dword ?? s.word) : null;
    // the rendered page agrees with its parts
    const text = page ? A.formatDocPage("prog", page) : "";
    out["t" + n] = has(text, s.word);
  }
  if (s.sug ?? s.pre !== "--") out.s0 = A.suggestSync(p, [...kind, ...lead, s.pre]).some((x) => x.text === (s.sug ?? s.word));
  for (const typo of s.near) {
    const r = A.parseSync(p, [...kind, ...lead, typo]);
    out["h" + typo] = r.success ? null : has((plainMsg(A, r.error).split("Did you mean")[1] ?? "").replaceAll(typo, "TYPO"), s.word);
  }
  return out;
}
const outcome = (A, p, toks) => { const r = A.parseSync(p, toks); return r.success ? "ok " + show(r.value) : "fail"; };
function judge(ctx, A, d, base, p) {
  ctx.exec();
  let got; try { got = surfaces(A, d, p); } catch (e) { ctx.violation(JSON.stringify(d), `${JSON.stringify(d)} throws ${e.stack.slice(0, 400)}`, d); return; }
  const off = new Set(d.h.map(hid).join(""));
  // a hidden command hides what is inside it from the places outside it; inside it is not judged
  const ci = d.boxes.findIndex((b, i) => b === "cmd" && hid(d.h[i + 1]));
  const hc = d.boxes.some((b, i) => b === "cmd" && d.boxes.some((_, j) => j > i && hid(d.h[j + 1])));
  for (const [k, b] of Object.entries(base)) {
    if (ci >= 0 && (k.endsWith("path") || "sh".includes(k[0]) || k[0] === "d")) continue;
    // nor is a hint given inside a command that stands in a hidden group
    if (hc && k[0] === "h") continue;
    let want = b;
    // known finding: the terms inside a hidden command stay on the usage line, unless the
    // command is the whole alternative of or()/longestMatch()
    if (k[0] === "u" && !d.known && d.boxes.some((x, i) => x === "cmd" && hid(d.h[i + 1]).includes("u") && !(i === d.boxes.length - 1 && ["or", "long"].includes(d.ctx)))) continue;
    if (k[0] === "u" && off.has("u")) want = b && false;
    if (k[0] === "d" && off.has("d")) want = b && false;
    if ((k[0] === "s" || k[0] === "h") && off.has("s")) want = b && false;
    if (k[0] === "t") { const n = k.slice(1); want = !!(got["u" + n] || got["d" + n]); }
    if (got[k] !== want) ctx.violation(JSON.stringify(d) + k, `${JSON.stringify(d)}\n surface ${k}: shown ${got[k]}, expected ${want} (without settings ${b})`, { ...d, k }, JSON.stringify(d).length);
  }
  return JSON.stringify(got);
}
export async function replay(ctx, d) {
  const A = await api(ctx), plain = build(A, d, false), p = build(A, d, true);
  if (d.toks) { if (outcome(A, p, d.toks) !== outcome(A, plain, d.toks)) ctx.violation("r", "outcomes differ: " + outcome(A, p, d.toks) + " / " + outcome(A, plain, d.toks), d); return; }
  judge(ctx, A, d, surfaces(A, d, plain), p);
}
export async function run(ctx) {
  const A = await api(ctx);
  const known = { part: "opt", wrap: "none", boxes: ["cmd"], ctx: "obj", h: [undefined, true], known: true };
  if (ctx.shard === 0) judge(ctx, A, known, surfaces(A, known, build(A, known, false)), build(A, known, true));
  const K = Object.keys(BOX);
  const boxings = [[], ...K.map((b) => [b]), ...K.flatMap((a) => K.map((b) => [a, b]))];
  for (const part of Object.keys(PARTS)) for (const wrap of Object.keys(WRAPS)) for (const boxes of boxings) for (const c of Object.keys(CTX)) {
    if (ctx.quick && boxes.length === 2 && (wrap !== "none" || !["obj", "or"].includes(c))) continue;
    if (!ctx.next()) continue;
    const d0 = { part, wrap, boxes, ctx: c };
    let plain; 
    try { plain = build(A, { ...d0, h: [undefined, ...boxes.map(() => undefined)] }, false); } catch (e) { if (e instanceof TypeError) { ctx.outcome("constructor rejects"); continue; } throw e; }
    ctx.begin(d0);
    const base = surfaces(A, { ...d0, h: [] }, plain);
    const kind = c === "cond" ? ["--kind=a"] : [];
    const al = [...PARTS[part].t, "--keep-me", ...path(d0), ...kind, "--zz"];
    const lists = [...tokenLists(al, ctx.quick ? 2 : 3)].map((t) => [...kind, ...path(d0), ...t]);
    const want = lists.map((t) => outcome(A, plain, t));
    const outs = new Set();
    for (const h of product(...[H, ...boxes.map(() => H)])) {
      const d = { ...d0, h };
      ctx.state(); ctx.begin(d);
      const p = build(A, d, true);
      outs.add(judge(ctx, A, d, base, p));
      if (h.some((x, i) => x === undefined && i) && boxes.length > 1) continue;
      lists.forEach((t, i) => { ctx.transition(); ctx.exec(); const g = outcome(A, p, t); if (g !== want[i]) ctx.violation(JSON.stringify({ ...d, t }), `${JSON.stringify(d)} ${JSON.stringify(t)}\n expected ${want[i]}\n got      ${g}`, { ...d, toks: t }, JSON.stringify(d).length + 50); });
    }
    for (const x of outs) ctx.distinct(JSON.stringify(d0) + x);
    if (outs.size > 5) ctx.sample({ program: d0, combinations: outs.size });
    ctx.checkTime();
  }
}

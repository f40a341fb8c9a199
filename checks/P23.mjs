// P23: formatDocPage() and formatUsage() over every page / usage tree up to a
// bound, every formatting option and a range of widths.
import { reference, width } from "./P22.mjs";
export const meta = {
  rule: "For every documentation page assembled from a catalogue of parts, entries, sections and messages, under every combination of layout options: without a width the page equals a reference layout character for character (up to quotes and colours); with a width the text without spaces is the same text, in order, titles and terms start their own lines, descriptions share one column, and no line is wider than the width when every unbreakable piece fits its column. Colour sequences are balanced. For every usage tree up to a bound the synopsis shows exactly the visible terms in documented notation.",
  assumptions: ["a page is feasible at a width when each word and term atom fits its column", "a range error is accepted only below the documented minimum layout", "the position of quotes follows the colours setting as documented"],
  quickLimitS: 400, thoroughLimitS: 3200,
};
const ESC = "\x1b", strip = (s) => s.replace(/\x1b\[[0-9;]*m|\x1b\]8;;.*?\x1b\\/g, ""), sq = (s) => s.replace(/\s+/g, "");
const T = (text) => ({ type: "text", text }), V = (value) => ({ type: "value", value });
const MSG = {
  none: undefined, empty: [], word: [T("Qword.")], long: [T("The quick brown fox jumps over lazy dogs.")], vals: [T("Use "), { type: "optionName", optionName: "--zed" }, T(" or "), { type: "metavar", metavar: "FILE" }, T(" now.")], wide: [T("漢字を 表示 する")], paras: [T("First part.\n\nSecond part here.")], br: [T("one"), { type: "lineBreak" }, T("two")], long1: [T("unbreakableverylongword ok")], env: [{ type: "envVar", envVar: "HOME" }, T(" then "), { type: "commandLine", commandLine: "app x" }], set: [{ type: "values", values: ["p", "q", "r"] }],
};
const DEF = { none: undefined, empty: [], val: [V("8080")], vals: [V("alpha"), T(", "), V("beta"), T(", "), V("gamma")], text: [T("taken from the system settings")], br: [V("x"), { type: "lineBreak" }, V("y")] };
const list = (n, p = "c") => Array.from({ length: n }, (_, i) => [...(i ? [T(", ")] : []), V(p + i)]).flat();
const CH = { none: undefined, empty: [], one: list(1), three: list(3), eight: list(8), nine: list(9, "item"), raw: [V("a"), V("b"), V("c")] };
const TERM = {
  opt: { type: "option", names: ["-p", "--port"], metavar: "PORT" }, flag: { type: "option", names: ["--verbose"] }, three: { type: "option", names: ["-x", "--ex", "--extra"] }, longopt: { type: "option", names: ["--a-rather-long-option-name"], metavar: "VALUE" }, arg: { type: "argument", metavar: "FILE" }, cmd: { type: "command", name: "build" }, wide: { type: "argument", metavar: "漢字" }, optional: { type: "optional", terms: [{ type: "option", names: ["-q"] }] }, mult: { type: "multiple", terms: [{ type: "argument", metavar: "SRC" }], min: 0 }, pass: { type: "passthrough" }, lit: { type: "literal", value: "lit" },
  hid: { type: "option", names: ["--hid"], hidden: true }, hdoc: { type: "command", name: "hdoc", hidden: "doc" }, huse: { type: "option", names: ["--huse"], hidden: "usage" }, hhelp: { type: "argument", metavar: "HHELP", hidden: "help" }, noname: { type: "option", names: [] }, nocmd: { type: "command", name: "" },
};
const TN = Object.keys(TERM), VIS = TN.filter((n) => !["hid", "hdoc", "hhelp", "noname", "nocmd"].includes(n));
const USAGES = { none: undefined, empty: [], simple: [{ type: "option", names: ["-p", "--port"], metavar: "PORT" }, { type: "argument", metavar: "FILE" }], cmds: [{ type: "exclusive", terms: [[{ type: "command", name: "add" }, { type: "argument", metavar: "X" }], [{ type: "command", name: "hidden", hidden: true }], [{ type: "command", name: "rm" }]] }], hid: [{ type: "option", names: ["--secret"], hidden: "usage" }, { type: "optional", terms: [{ type: "option", names: ["-q"] }] }] };
const SHOWD = [false, true, { prefix: " (default: ", suffix: ")" }, { prefix: " - ", suffix: "" }], SHOWC = [false, true, { maxItems: 1 }, { prefix: " {", suffix: "}", label: "" }, { maxItems: Infinity }, { maxItems: 2, label: "one of " }];
const isHid = (h, ctx) => h === true || h === "help" || h === ctx;
// ---- reference rendering of usage
const leaf = (t) => ["argument", "option", "command", "passthrough"].includes(t.type);
export function visible(terms, ctx) {
  const out = [];
  for (const t of terms) {
    if (leaf(t)) { if (isHid(t.hidden, ctx) || t.type === "option" && !t.names.length || t.type === "command" && !t.name || t.type === "argument" && !t.metavar) continue; out.push(t); continue; }
    if (t.type === "literal" && !t.value) continue;
    if (t.type === "exclusive") { const bs = t.terms.filter((b) => !(b[0]?.type === "command" && isHid(b[0].hidden, ctx))).map((b) => visible(b, ctx)).filter((b) => b.length); if (bs.length) out.push({ ...t, terms: bs }); continue; }
    if (t.terms) { const k = visible(t.terms, ctx); if (k.length) out.push({ ...t, terms: k }); continue; }
    out.push(t);
  }
  return out;
}
const argish = (t) => t.type === "argument" || (t.type === "optional" || t.type === "multiple") && t.terms.at(-1)?.type === "argument";
const order = (ts) => { const r = (t) => t.type === "command" ? 0 : argish(t) ? 2 : 1; return [0, 1, 2].flatMap((k) => ts.filter((t) => r(t) === k)); };
function tidy(t) {
  if (t.type === "optional") { const k = order(t.terms.map(tidy)); return k.length === 1 && k[0].type === "optional" ? k[0] : { ...t, terms: k }; }
  if (t.type === "multiple") return { ...t, terms: order(t.terms.map(tidy)) };
  if (t.type === "sequence") return { ...t, terms: t.terms.map(tidy) };
  if (t.type === "exclusive") return { ...t, terms: t.terms.flatMap((b) => { const k = order(b.map(tidy)); return k[0]?.type === "exclusive" ? k[0].terms.map((s) => [...s, ...k.slice(1)]) : [k]; }) };
  return t;
}
function show(t, o) {
  const seq = (ts) => ts.map((x) => show(x, o)).join(" ");
  switch (t.type) {
    case "argument": return t.metavar;
    case "option": return o.short ? t.names.reduce((a, b) => b.length < a.length ? b : a) : t.names.join(o.sep ?? "/") + (t.metavar ? " " + t.metavar : "");
    case "command": return t.name;
    case "optional": return `[${seq(t.terms)}]`;
    case "exclusive": return `(${t.terms.map(seq).join(" | ")})`;
    case "sequence": return seq(t.terms);
    case "multiple": { const s = Array(Math.max(1, t.min)).fill(seq(t.terms)).join(" ") + "..."; return t.min < 1 ? `[${s}]` : s; }
    case "literal": return t.value; case "passthrough": return "[...]"; case "ellipsis": return "...";
  }
}
const atomW = (ts) => Math.max(0, ...ts.map((t) => t.terms ? (t.type === "exclusive" ? Math.max(0, ...t.terms.map(atomW)) : Math.max(t.type === "multiple" ? 3 : 0, atomW(t.terms))) : t.type === "option" ? Math.max(...t.names.map(width), width(t.metavar ?? "")) : t.type === "argument" ? width(t.metavar) : t.type === "command" ? width(t.name) : t.type === "literal" ? width(t.value) : 5));
// every acceptable synopsis: one line per branch when the branches are commands, otherwise one line or one per branch
export function synopses(prog, usage, o) {
  const ts = order(visible(usage, "usage").map(tidy)), plain = [prog, ...ts.map((t) => show(t, o))].join(" "), last = ts.at(-1);
  if (!o.expand || last?.type !== "exclusive" || !ts.slice(0, -1).every((t) => t.type === "command")) return new Set([plain]);
  let acc = [""]; for (const b of last.terms) { const subs = synopses(prog, [...ts.slice(0, -1), ...b], o); acc = acc.flatMap((a) => [...subs].map((s) => a + (a ? "\n" : "") + s)); }
  return last.terms.every((b) => b[0]?.type === "command") ? new Set(acc) : new Set([plain, ...acc]);
}
export function judgeUsage(A, d) {
  const o = { ...(d.e ? { expandCommands: true } : {}), ...(d.s ? { onlyShortestOptions: true } : {}), ...(d.c ? { colors: true } : {}), ...(d.w ? { maxWidth: d.w } : {}) };
  const out = A.formatUsage("app", d.u, o), plain = strip(out), want = synopses("app", d.u, { expand: d.e, short: d.s });
  if (d.c ? balance(out) : /\x1b/.test(out)) return `unbalanced colours in ${JSON.stringify(out)}`;
  if (!d.w) return want.has(plain) ? null : `expected ${JSON.stringify([...want])}, got ${JSON.stringify(plain)}`;
  if (![...want].some((s) => sq(s) === sq(plain))) return `expected ${JSON.stringify([...want])} broken over lines, got ${JSON.stringify(plain)}`;
  const atoms = Math.max(3, atomW(visible(d.u, "usage")));
  for (const l of plain.split("\n")) if (width(l) > Math.max(d.w, atoms)) return `line ${JSON.stringify(l)} is wider than ${d.w}`;
  return null;
}
const balance = (s) => { let on = false, link = false; for (const m of s.matchAll(/\x1b\[([0-9;]*)m|\x1b\]8;;(.*?)\x1b\\/g)) { if (m[0][1] === "]") link = m[2] !== ""; else on = !(m[1] === "0" || m[1] === ""); } return on || link; };
// ---- reference page
const lines = (msg, q) => reference(msg, q).map((l) => l.join("").replace(/ +/g, " "));
const some = (m) => m != null && m.length > 0;
function chosen(ch, max) { const n = ch.filter((t) => t.type === "value").length; if (n <= max) return ch; let k = 0, i = 0; for (; i < ch.length; i++) if (ch[i].type === "value" && ++k > max) break; if (ch[i - 1]?.type === "text") i--; return [...ch.slice(0, i), T(", ...")]; }
function descOf(e, o, q) {
  let s = some(e.description) ? lines(e.description, q).join("\n") : "";
  if (o.showDefault && some(e.default)) { const k = typeof o.showDefault === "object" ? o.showDefault : {}; s += (k.prefix ?? " [") + lines(e.default, q).join("\n") + (k.suffix ?? "]"); }
  if (o.showChoices && some(e.choices)) { const k = typeof o.showChoices === "object" ? o.showChoices : {}; s += (k.prefix ?? " (") + (k.label ?? "choices: ") + lines(chosen(e.choices, k.maxItems ?? 8), false).join("\n") + (k.suffix ?? ")"); }
  return s;
}
const rank = (s) => { const c = s.entries.filter((e) => e.term.type === "command").length; return (c === s.entries.length && c ? 0 : c ? 1 : 2) - (s.title == null ? 1 : 0); };
function refPage(page, o) {
  const q = !o.colors, ind = o.termIndent ?? 2, tw = o.termWidth ?? 26, put = (m, n) => lines(m, q).join("\n" + " ".repeat(n)); let out = "";
  const usage = page.usage && (o.showUsage ?? true) ? [...synopses("app", page.usage, { expand: true })][0].split("\n").join("\n" + " ".repeat(7)) : null;
  if (some(page.brief)) out += put(page.brief, 0) + "\n";
  if (usage !== null) out += "Usage: " + usage + "\n";
  if (some(page.description)) out += "\n" + put(page.description, 0) + "\n";
  const secs = page.sections.map((s) => ({ ...s, entries: s.entries.filter((e) => visible([e.term], "doc").length) })), cmp = o.sectionOrder ?? ((a, b) => rank(a) - rank(b)), es = [];
  const left = [...secs], sorted = []; while (left.length) { let k = 0; for (let i = 1; i < left.length; i++) if (cmp(left[i], left[k]) < 0) k = i; sorted.push(...left.splice(k, 1)); }
  for (const s of sorted) {
    if (!s.entries.length) continue; out += "\n" + (s.title != null ? s.title + ":\n" : "");
    for (const e of s.entries) { const term = show(visible([e.term], "doc")[0], { sep: ", " }), d = descOf(e, o, q); es.push([term, d, e]); out += " ".repeat(ind) + term + (d === "" ? "" : " ".repeat(Math.max(0, tw - width(term)) + 2) + d.split("\n").join("\n" + " ".repeat(ind + tw + 2))) + "\n"; }
  }
  for (const k of ["examples", "author", "bugs"]) if (some(page[k])) out += `\n${k[0].toUpperCase()}${k.slice(1)}:\n  ` + put(page[k], 2) + "\n";
  if (some(page.footer)) out += "\n" + put(page.footer, 0);
  return { out, es, titles: sorted.filter((s) => s.entries.length && s.title != null).map((s) => s.title) };
}
const words = (msg, q) => !some(msg) ? 0 : Math.max(0, ...reference(msg, q).flat().map(width));
function feasible(page, o, ref) {
  const w = o.maxWidth, q = !o.colors, ind = o.termIndent ?? 2, tw = o.termWidth ?? 26, avail = w - ind - 2, eff = avail >= tw + 1 ? tw : Math.max(1, Math.floor(avail / 2)), col = avail - eff;
  if (["brief", "description", "footer"].some((k) => words(page[k], q) > w) || ["examples", "author", "bugs"].some((k) => words(page[k], q) > w - 2)) return false;
  if (page.usage && (o.showUsage ?? true) && Math.max(4, atomW(visible(page.usage, "usage"))) > w - 7) return false;
  const kd = typeof o.showDefault === "object" ? o.showDefault : {}, kc = typeof o.showChoices === "object" ? o.showChoices : {};
  return ref.es.every(([, d, e]) => atomW(visible([e.term], "doc")) <= w - ind && (d === "" || words(e.description, q) <= col &&
    (!o.showDefault || !some(e.default) || width("x" + (kd.prefix ?? " [") + "x") - 2 + words(e.default, q) + (kd.suffix ?? "]").length <= col) &&
    (!o.showChoices || !some(e.choices) || width("x" + (kc.prefix ?? " (") + (kc.label ?? "choices: ") + "x") - 2 + Math.max(5, words(e.choices, false)) + (kc.suffix ?? ")").length <= col)));
}
const loose = (s) => s.split("\n").map((l) => l.replace(/ +$/, "")).join("\n");
export function build(d) { const m = (n) => MSG[n]; return { page: { brief: m(d.brief), usage: USAGES[d.usage ?? "none"], description: m(d.desc), sections: (d.secs ?? []).map((s) => ({ ...(s.t ? { title: s.t } : {}), entries: s.e.map(([t, ds, df, ch]) => ({ term: TERM[t], description: MSG[ds ?? "none"], default: DEF[df ?? "none"], choices: CH[ch ?? "none"] })) })), examples: m(d.examples), author: m(d.author), bugs: m(d.bugs), footer: m(d.footer) },
  o: { ...(d.c ? { colors: true } : {}), ...(d.i !== undefined ? { termIndent: d.i } : {}), ...(d.tw !== undefined ? { termWidth: d.tw } : {}), ...(d.w !== undefined ? { maxWidth: d.w } : {}), ...(d.sd ? { showDefault: SHOWD[d.sd] } : {}), ...(d.sc ? { showChoices: SHOWC[d.sc] } : {}), ...(d.nu ? { showUsage: false } : {}), ...(d.so ? { sectionOrder: d.so === "title" ? (a, b) => (a.title ?? "") < (b.title ?? "") ? -1 : (a.title ?? "") > (b.title ?? "") ? 1 : 0 : () => 0 } : {}) } }; }
export function judge(A, d) {
  if (d.u) return judgeUsage(A, d);
  const { page, o } = build(d), before = JSON.stringify(page); const ref = refPage(page, o); let out;
  try { out = A.formatDocPage("app", page, o); } catch (e) {
    if (!(e instanceof RangeError) || d.w === undefined) return `threw ${e}`;
    const lab = (k, a, b) => width("x" + (k.prefix ?? a) + (k.label ?? b) + "x");
    const need = Math.max(28, (o.termIndent ?? 2) + 2 + (o.termWidth ?? 26) + lab(typeof o.showDefault === "object" ? o.showDefault : {}, " [", "") , (o.termIndent ?? 2) + 2 + (o.termWidth ?? 26) + lab(typeof o.showChoices === "object" ? o.showChoices : {}, " (", "choices: "));
    return d.w >= need ? `refused width ${d.w}: ${e.message}` : null;
  }
  if (JSON.stringify(page) !== before) return "the page was changed";
  const plain = strip(out);
  if (d.c ? balance(out) : /\x1b/.test(out)) return `colour sequences: ${JSON.stringify(out)}`;
  if (d.w === undefined) return loose(plain) === loose(ref.out) ? null : `expected\n${ref.out}\ngot\n${plain}`;
  if (sq(plain) !== sq(ref.out)) return `text differs: expected ${JSON.stringify(ref.out)}, got ${JSON.stringify(plain)}`;
  const ls = plain.split("\n"), ind = o.termIndent ?? 2, tw = o.termWidth ?? 26; let at = 0;
  if (feasible(page, o, ref)) for (const l of ls) if (width(l) > d.w) return `line ${JSON.stringify(l)} is wider than ${d.w}`;
  for (const t of ref.titles) { const k = ls.indexOf(t + ":", 0); if (k < 0) return `title ${t} is not on its own line in ${JSON.stringify(plain)}`; if (k > 0 && ls[k - 1].trim() !== "") return `no blank line before ${t}`; }
  for (const [term, desc] of ref.es) {
    const first = (width(term) <= d.w - ind ? term : term.split(/[ ,]/)[0]), re = " ".repeat(ind) + first; let k = at; while (k < ls.length && !(ls[k].startsWith(re) && !/^ /.test(ls[k].slice(ind)))) k++;
    if (k === ls.length) return `no line starts with ${JSON.stringify(re)} in ${JSON.stringify(plain)}`; at = k + 1;
    if (width(term) > d.w - ind || desc === "") continue;
    const parts = [ls[k]]; while (at < ls.length && sq(parts.join("")).length < sq(term + desc).length) parts.push(ls[at++]);
    if (sq(parts.join("")) !== sq(term + desc)) return `entry ${term}: ${JSON.stringify(parts)}`;
    const cols = new Set(parts.slice(1).filter((l) => l.trim()).map((l) => /^ */.exec(l)[0].length)), head = ls[k].slice(ind + first.length);
    if (/^ +\S/.test(head)) { const c = ind + width(first) + /^ */.exec(head)[0].length; if (/^ {0,1}\S/.test(head)) return `no gap after the term in ${JSON.stringify(ls[k])}`; if (cols.size ? ind + width(first) + 2 <= Math.min(...cols) : c > ind + width(first) + 3) cols.add(c); }
    const lo = Math.min(...cols); // a prefix that starts with a space may start a line
    if (cols.size && Math.max(...cols) > lo + 1) return `description columns ${[...cols]} in ${JSON.stringify(parts)}`;
    if (cols.size && d.w - ind - 2 >= tw + 1 && lo !== ind + tw + 2 && lo !== ind + tw + 3) return `description column ${[...cols]}, expected ${ind + tw + 2}: ${JSON.stringify(parts)}`;
  }
  return null;
}
function one(ctx, A, d) { ctx.begin(d); ctx.state(); ctx.transition(); ctx.exec(); let m; try { m = judge(A, d); } catch (e) { m = `threw ${e.stack}`; } if (m) ctx.violation(JSON.stringify(d), (d.u ? "formatUsage" : "formatDocPage") + ` ${JSON.stringify(d).slice(0, 300)}: ${m}`, d, JSON.stringify(d).length + (d.w ?? 0) / 1000); }
// ---- usage trees
const L = [{ type: "argument", metavar: "ARG" }, { type: "option", names: ["-o", "--out"], metavar: "O" }, { type: "option", names: ["--flag"] }, { type: "command", name: "cmd" }, { type: "literal", value: "lit" }, { type: "passthrough" }, { type: "command", name: "gone", hidden: true }, { type: "option", names: ["--hu"], hidden: "usage" }, { type: "option", names: ["--hd"], hidden: "doc" }, { type: "argument", metavar: "漢" }, { type: "ellipsis" }, { type: "option", names: [] }];
const wrap1 = (x) => [{ type: "optional", terms: x }, { type: "multiple", terms: x, min: 0 }, { type: "multiple", terms: x, min: 1 }, { type: "multiple", terms: x, min: 2 }, { type: "sequence", terms: x }, { type: "exclusive", terms: [x] }];
function* usages(quick) {
  const CORE = L.slice(0, 4).concat(L[6], L[7]), lv1 = [...L, ...L.flatMap((x) => wrap1([x])), ...CORE.flatMap((a) => CORE.flatMap((b) => [...wrap1([a, b]), { type: "exclusive", terms: [[a], [b]] }, { type: "exclusive", terms: [[a, b], [b]] }]))];
  yield []; for (const a of lv1) yield [a]; for (const a of L) for (const b of lv1) { yield [a, b]; yield [b, a]; }
  const lv2 = [...lv1.flatMap((x) => wrap1([x])), ...lv1.flatMap((x) => CORE.map((y) => ({ type: "exclusive", terms: [[x], [y]] }))), ...lv1.flatMap((x) => CORE.map((y) => ({ type: "exclusive", terms: [[y, x], [x, y]] })))];
  for (const a of lv2) { yield [a]; yield [L[3], a]; yield [L[0], a]; yield [a, L[1]]; }
  if (!quick) { for (const a of lv1) for (const b of lv1) { yield [{ type: "exclusive", terms: [[a], [b]] }]; yield [a, b]; } for (const a of lv2) for (const w of wrap1([a])) yield [w, L[2]]; }
}
const UW = [6, 9, 14, 30];
export async function run(ctx) {
  const A = { ...await ctx.load("core/src/doc.js"), ...await ctx.load("core/src/usage.js") }; let n = 0; const Q = ctx.quick;
  const tick = (l, d) => { ctx.outcome(l); if (++n % 2000 === 0) ctx.checkTime(); if (n < 2) ctx.sample(d); };
  const W = Q ? [undefined, 12, 20, 28, 33, 40, 60] : [undefined, 5, 8, 10, 12, 15, 18, 20, 24, 27, 28, 29, 30, 31, 33, 36, 40, 45, 50, 60, 80]; ctx.bound("widths", W);
  for (const u of usages(Q)) { if (!ctx.next()) continue; for (const e of [0, 1]) for (const w of [undefined, ...UW]) for (const [s, c] of [[0, 0], [1, 0], [0, 1]]) one(ctx, A, { u, e, w, s, c }); ctx.distinct(JSON.stringify(u)); tick("usage trees", u); }
  // single entries
  const LAY = Q ? [[undefined, undefined], [0, 8], [4, 1]] : [[undefined, undefined], [0, 8], [4, 1], [2, 14], [1, 40]];
  for (const t of TN) for (const ds of Object.keys(MSG)) for (const [i, tw] of LAY) {
    if (!ctx.next()) continue; const deep = VIS.includes(t);
    for (const df of deep ? Object.keys(DEF) : ["none", "val"]) for (const ch of deep ? Object.keys(CH) : ["none", "three"]) {
      if (Q && df !== "none" && ch !== "none" && !["opt", "longopt", "cmd"].includes(t)) continue;
      const sds = df === "none" ? [1] : [0, 1, 2, 3], scs = ch === "none" ? [1] : [0, 1, 2, 3, 4, 5];
      for (const sd of sds) for (const sc of scs) { if (Q && sd && sc && df !== "none" && ch !== "none" && sd !== 1 && sc !== 1) continue; for (const w of W) for (const c of [0, 1]) one(ctx, A, { secs: [{ e: [[t, ds, df, ch]] }], i, tw, sd, sc, w, c }); }
    }
    ctx.distinct(t + ds + i); tick("entries", [t, ds]);
  }
  // page parts
  const P = ["brief", "desc", "examples", "author", "bugs", "footer"], KINDS = Q ? ["none", "empty", "long", "paras"] : ["none", "empty", "long", "paras", "vals", "wide"];
  const parts = function* (i, d) { if (i === P.length) { yield d; return; } for (const k of KINDS) yield* parts(i + 1, { ...d, [P[i]]: k }); };
  for (const p of parts(0, {})) { if (!ctx.next()) continue; for (const usage of ["none", "simple", "cmds"]) for (const secs of [[], [{ t: "Options", e: [["opt", "long"]] }, { e: [["cmd", "word"]] }]]) for (const w of Q ? [undefined, 24, 40] : [undefined, 16, 24, 32, 40, 80]) one(ctx, A, { ...p, usage, secs, w, c: (n + (w ?? 0)) & 1 }); ctx.distinct(JSON.stringify(p)); tick("page parts", p); }
  for (const usage of Object.keys(USAGES)) for (const k of Object.keys(MSG)) for (const part of P) { if (!ctx.next()) continue; for (const nu of [0, 1]) for (const w of W) for (const c of [0, 1]) one(ctx, A, { [part]: k, usage, nu, w, c }); tick("parts in detail", k); }
  // sections
  const S = [{ e: [["opt", "word"]] }, { e: [["cmd", "word"]] }, { t: "Beta", e: [["flag", "word"], ["arg", "none"]] }, { t: "Alpha", e: [["cmd", "none"]] }, { t: "Mixed", e: [["cmd", "word"], ["flag", "long"]] }, { e: [["cmd", "word"], ["arg", "vals"]] }, { t: "Hidden", e: [["hid", "word"]] }, { t: "Empty", e: [] }, { t: "Part", e: [["hdoc", "word"], ["pass", "word"], ["huse", "wide"]] }, { t: "HidCmd", e: [["hdoc", "none"], ["flag", "none"]] }];
  for (const a of S) for (const b of [null, ...S]) for (const c3 of b ? [null, ...S] : [null]) for (const d4 of c3 && !Q ? [null, ...S] : [null]) { if (!ctx.next()) continue; const secs = [a, b, c3, d4].filter(Boolean); for (const so of [0, "title", "same"]) for (const w of [undefined, 34]) for (const c of [0, 1]) one(ctx, A, { secs, so, w, c, usage: "simple" }); ctx.distinct("s" + JSON.stringify(secs)); tick("sections", secs); }
  // program names and titles that must be refused
  if (ctx.next()) for (const bad of ["", " ", "a\nb", "\x1b[0m", 5, undefined]) { ctx.state(); ctx.transition(); ctx.exec(2); for (const f of [() => A.formatDocPage(bad, { sections: [] }), () => A.formatUsage(bad, []), () => A.formatDocPage("app", { sections: [{ title: bad === undefined ? "\t" : bad, entries: [{ term: TERM.opt }] }] })]) { let ok = false; try { f(); } catch (e) { ok = e instanceof TypeError; } if (!ok) ctx.violation("bad" + JSON.stringify(bad) + f, `name ${JSON.stringify(bad)} accepted`, { bad: String(bad) }, 1); } }
}
export async function replay(ctx, d) { const A = { ...await ctx.load("core/src/doc.js"), ...await ctx.load("core/src/usage.js") }; if (d.bad === undefined) one(ctx, A, d); }

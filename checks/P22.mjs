// P22: formatMessage() over every short message from a term alphabet, under
// every formatting option and width; getDisplayWidth() over all code points.
import { readFileSync } from "node:fs";
import { join } from "node:path";
import { VERIF } from "../lib/build.mjs";
export const meta = {
  rule: "For every message of at most N terms over an alphabet covering every term kind (words, spaces, paragraph breaks, wide and combining characters, empty lists): without a width the output equals a reference rendering up to runs of spaces; with a width, joining the added breaks gives that rendering back, hard breaks stay, breaks fall only between words or terms, no line exceeds the width unless it is one unbreakable piece, and no break is added where the next piece would fit; coloured output is the uncoloured one once escapes are removed, every style is closed, and the reset suffix follows each reset. getDisplayWidth() agrees with Python's Unicode database on every assigned code point and with a list of clusters. message() and valueSet() place every interpolated part in order.",
  assumptions: ["text-style emoji and unassigned code points have no specified width", "runs of spaces may be collapsed and dropped at line ends"],
  quickLimitS: 300, thoroughLimitS: 3000,
};
const ESC = "\x1b", T = (text) => ({ type: "text", text });
const TERMS = {
  word: T("word"), two: T("two words"), sp: T(" "), sp3: T("   "), lead: T(" lead"), trail: T("trail, "), soft: T("soft\nwrap"), para: T("one\n\ntwo"), para0: T("\n\nafter"), para1: T("before\n\n"), nl: T("\nnext"), nlnl: T("\n\n\n"), paren: T("("), wide: T("漢字 한글"), comb: T("e\u0301t\u00e9 \u200bzw"), emoji: T("👩‍💻 ok"), long: T("unbreakablelongword"), tab: T("a\tb"), empty: T(""), ansi: T("\x1b[1mbold\x1b[0m x"),
  opt: { type: "optionName", optionName: "--opt" }, opts: { type: "optionNames", optionNames: ["-o", "--out"] }, opts0: { type: "optionNames", optionNames: [] }, opts1: { type: "optionNames", optionNames: ["-z"] }, mv: { type: "metavar", metavar: "FILE" }, val: { type: "value", value: "v a\"l" }, valw: { type: "value", value: "値" }, val0: { type: "value", value: "" }, vals0: { type: "values", values: [] }, vals1: { type: "values", values: ["x"] }, vals2: { type: "values", values: ["x", "y y"] }, vals3: { type: "values", values: ["p", "q", "r"] }, env: { type: "envVar", envVar: "HOME" }, cmd: { type: "commandLine", commandLine: "app run" }, br: { type: "lineBreak" }, url: { type: "url", url: new URL("http://e.x/a?b") },
};
const NAMES = Object.keys(TERMS), CORE = ["word", "two", "sp", "trail", "soft", "para", "para0", "nl", "wide", "opt", "vals1", "vals2", "br", "val", "long", "url"];
const COLORS = [false, true, { resetSuffix: "" }, { resetSuffix: ESC + "[2m" }, {}];
const strip = (s) => s.replace(/\x1b\[[0-9;:]*[@-~]|\x1b\][^\x1b\x07]*(?:\x1b\\|\x07)/g, "");
// reference rendering: a list of lines, each a list of unbreakable pieces [text, glue]; glue: no break allowed before
export function reference(terms, quotes) {
  const lines = [[]]; let prev = null; const q = (s) => quotes ? "`" + s + "`" : s, put = (t) => lines.at(-1).push(t);
  for (const t of terms) {
    if (t.type === "text") {
      let s = t.text; if (prev === "lineBreak" && s[0] === "\n" && s[1] !== "\n") s = s.slice(1);
      const paras = s.split(/\n{2,}/);
      for (const [i, p] of paras.entries()) {
        if (i > 0) { if (!(prev === "lineBreak" && i === 1 && paras[0].trim() === "")) lines.push([]); lines.push([]); }
        const n = p.replaceAll("\n", " ");
        if (n.trim() === "") { if (n && paras.length === 1) put(" "); continue; }
        for (const m of n.matchAll(/\s+|\S+/g)) put(m[0]);
      }
    } else if (t.type === "optionName") put(q(t.optionName));
    else if (t.type === "optionNames") t.optionNames.forEach((n, i) => { if (i) put("/"); put(q(n)); });
    else if (t.type === "metavar") put(q(t.metavar));
    else if (t.type === "envVar") put(q(t.envVar));
    else if (t.type === "commandLine") put(q(t.commandLine));
    else if (t.type === "value") put(quotes ? JSON.stringify(t.value) : t.value);
    else if (t.type === "values") t.values.forEach((v, i) => { if (i) put(" "); put(quotes ? JSON.stringify(v) : v); });
    else if (t.type === "url") put(quotes ? `<${t.url.href}>` : t.url.href);
    else if (t.type === "lineBreak") lines.push([]);
    prev = t.type;
  }
  return lines;
}
const norm = (s) => s.replace(/ +/g, " ").replace(/ +$/, ""), sq = (s) => s.replace(/[ \t]+/g, "");
// own width of a line, for the characters this alphabet uses
const CLUSTER = [["👩‍💻", 2], ["e\u0301", 1]];
export function width(s) { s = strip(s).trimEnd(); let w = 0; for (const [c, n] of CLUSTER) { const k = s.split(c).length - 1; w += k * n; s = s.replaceAll(c, ""); } for (const ch of s) { const c = ch.codePointAt(0); w += c === 0x200b ? 0 : c >= 0x1100 ? 2 : 1; } return w; }
export function judge(A, d) {
  const terms = d.t.map((n) => TERMS[n]), opt = { ...(d.c === 0 ? {} : { colors: COLORS[d.c] }), ...(d.q ? {} : { quotes: false }), ...(d.w === undefined ? {} : { maxWidth: d.w }) };
  const out = A.formatMessage(terms, opt), ref = reference(terms, d.q);
  if (d.c) {
    const plain = A.formatMessage(terms, { ...opt, colors: false });
    const own = d.t.includes("ansi");
    if (strip(out) !== strip(plain)) return `colours change the text: ${JSON.stringify(out)} / ${JSON.stringify(plain)}`;
    if (/\x1b/.test(plain) && !own) return "escapes without colours";
    const suffix = COLORS[d.c].resetSuffix ?? ""; let on = false, link = false, sufOk = true; const s = out;
    for (const m of s.matchAll(/\x1b\[([0-9;]*)m|\x1b\]8;;(.*?)\x1b\\/g)) {
      if (m[0][1] === "]") { link = m[2] !== ""; if (!link && suffix && !s.startsWith(suffix, m.index + m[0].length)) sufOk = false; continue; }
      if (suffix && m[0] === suffix) continue; // part of a suffix
      if (m[1] === "0" || m[1] === "") { on = false; if (suffix && !own && !s.startsWith(suffix, m.index + m[0].length)) sufOk = false; } else on = true;
    }
    if (on || link) return `a style is still open at the end of ${JSON.stringify(out)}`;
    if (!sufOk) return `a reset without the configured suffix in ${JSON.stringify(out)}`;
    const styled = terms.filter((t) => t.type !== "text" && t.type !== "lineBreak" && !(t.values?.length === 0) && !(t.optionNames?.length === 0)).length;
    if (styled && !/\x1b/.test(out)) return "no styling though colours are on";
  }
  const lines = strip(out).split("\n"), want = ref.map((l) => norm(strip(l.join(""))));
  if (d.w === undefined) return JSON.stringify(lines.map(norm)) === JSON.stringify(want) ? null : `expected ${JSON.stringify(want)}, got ${JSON.stringify(lines)}`;
  let worst = null; // consecutive output lines make up each hard line
  const note = (m, depth) => { if (!worst || depth >= worst[1]) worst = [m, depth]; };
  const group = (pieces, ls, depth) => { // do these output lines show exactly this hard line, broken legally?
    const target = sq(pieces.join("")), words = pieces.filter((p) => p.trim() !== ""), bounds = [0]; for (const w of words) bounds.push(bounds.at(-1) + sq(w).length);
    const inked = ls.filter((l) => sq(l) !== ""), blanks = ls.length - inked.length;
    if (inked.map(sq).join("") !== target) { note(`expected ${JSON.stringify(pieces.join(""))}, got ${JSON.stringify(ls)}`, depth); return false; }
    if (blanks > pieces.length - words.length + (inked.length ? 0 : 1)) { note(`blank lines in ${JSON.stringify(ls)}`, depth); return false; }
    let pos = 0;
    for (const [j, l] of inked.entries()) {
      const len = sq(l).length, a = bounds.indexOf(pos), b = bounds.indexOf(pos + len); if (a < 0 || b < 0) { note(`${JSON.stringify(ls)}: a word or term is broken`, depth); return false; }
      if (width(l) > d.w && words.slice(a, b).filter((w) => width(w) > 0).length > 1) { note(`line ${JSON.stringify(l)} is wider than ${d.w}`, depth); return false; }
      if (j + 1 < inked.length && width(l) + width(words[b]) + 2 <= d.w && width(l) > 0) { note(`${JSON.stringify(ls)}: ${JSON.stringify(words[b])} would fit after ${JSON.stringify(l)}`, depth); return false; }
      pos += len;
    }
    return true;
  };
  const match = (i, k) => {
    if (i === ref.length) { if (k === lines.length) return true; note(`extra lines ${JSON.stringify(lines.slice(k))}`, i); return false; }
    const pieces = ref[i].map(strip), left = ref.length - i - 1;
    if (i === ref.length - 1) return group(pieces, lines.slice(k), i);
    for (let e = k + 1; e <= lines.length - left; e++) if (group(pieces, lines.slice(k, e), i) && match(i + 1, e)) return true;
    return false;
  };
  return match(0, 0) ? null : worst?.[0] ?? `cannot be matched: ${JSON.stringify(lines)}`;
}
function one(ctx, A, d) {
  ctx.state(); ctx.transition(); ctx.exec(d.c ? 2 : 1); let m; try { m = judge(A, d); } catch (e) { m = `threw ${e}`; }
  if (m) ctx.violation(JSON.stringify(d), `formatMessage(${d.t.join(" ")}; colors=${JSON.stringify(COLORS[d.c])} quotes=${d.q} maxWidth=${d.w}): ${m}`, d, d.t.length * 10 + d.c + (d.w ?? 0) / 100);
}
function* msgs(quick) {
  yield []; for (const a of NAMES) yield [a]; for (const a of NAMES) for (const b of NAMES) yield [a, b];
  for (const a of quick ? CORE : NAMES) for (const b of quick ? CORE : NAMES) for (const c of quick ? CORE : NAMES) yield [a, b, c];
  if (!quick) for (const a of CORE) for (const b of CORE) for (const c of CORE) for (const e of CORE) yield [a, b, c, e];
}
const WIDTHS = [[1, 4, 7, 10, 13, 20, 40], [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 20, 25, 40]];
const CLUSTERS = [["", 0], ["a", 1], ["ab", 2], ["é", 1], ["e\u0301", 1], ["e\u0301\u0302", 1], ["漢", 2], ["한", 2], ["\u1112\u1161\u11ab", 2], ["ｱ", 1], ["ｶﾞ", 2], ["ﾊﾟ", 2], ["Ａ", 2], ["😀", 2], ["👩‍💻", 2], ["👨‍👩‍👧‍👦", 2], ["👍🏽", 2], ["🇰🇷", 2], ["🇰🇷🇯🇵", 4], ["1️⃣", 2], ["#️⃣", 2], ["❤️", 2], ["✂️", 2], ["😀\ufe0e", 1], ["\u200b", 0], ["\u200d", 0], ["\ufeff", 0], ["\u0301", 0], ["a\u200bb", 2], ["\x1b[31mred\x1b[0m", 3], ["\x1b[38:2:1:2:3mx\x1b[0m", 1], ["\x1b]8;;http://x\x1b\\t\x1b]8;;\x1b\\", 1], ["\x1b]0;title\x07x", 1], ["\t", 1], ["\x07", 0], ["\x7f", 0], ["\x85", 0], ["\u00ad", 0], ["—", 1], ["…", 1], ["ｰ", 1], ["\u3000", 2], ["\u303f", 1], ["가a나", 5]];
export async function run(ctx) {
  const A = { ...await ctx.load("core/src/message.js"), ...await ctx.load("core/src/displaywidth.js") }; let n = 0;
  ctx.bound("terms", NAMES.length); ctx.bound("widths", WIDTHS[ctx.quick ? 0 : 1]);
  for (const t of msgs(ctx.quick)) {
    if (!ctx.next()) continue; const full = t.length < 4;
    for (const q of [true, false]) for (let c = 0; c < COLORS.length; c++) for (const w of [undefined, ...WIDTHS[ctx.quick || !full ? 0 : 1]]) { const d = { t, q, c, w }; ctx.begin(d); one(ctx, A, d); }
    ctx.distinct(t.join()); ctx.outcome(`${t.length} terms`); if (++n % 200 === 0) ctx.checkTime(); if (n < 3) ctx.sample(t);
  }
  widths(ctx, A); templates(ctx, A);
}
function widths(ctx, A) {
  const D = JSON.parse(readFileSync(join(VERIF, "lib/eaw.json"), "utf8")), tab = new Uint8Array(0x110000).fill(1);
  for (const [a, b] of D.wide) tab.fill(2, a, b + 1); for (const [a, b] of D.zero) tab.fill(0, a, b + 1); for (const [a, b] of D.unspecified) tab.fill(9, a, b + 1);
  for (const [a, b] of [[0x2630, 0x2637], [0x268a, 0x268f], [0x4dc0, 0x4dff]]) tab.fill(2, a, b + 1); // wide since Unicode 16
  for (let c = ctx.shard; c < 0x110000; c += ctx.shards) {
    if (tab[c] === 9) continue; const s = String.fromCodePoint(c); if (/\p{Extended_Pictographic}|\p{Regional_Indicator}/u.test(s) || c >= 0x1160 && c <= 0x11ff || c >= 0xd7b0 && c <= 0xd7ff) continue;
    ctx.state(); ctx.transition(); ctx.exec(); ctx.outcome("code point");
    if (/\p{Mc}/u.test(s)) continue; const w = A.getDisplayWidth(s); if (w !== tab[c]) ctx.violation(`U+${c.toString(16)}`, `getDisplayWidth(U+${c.toString(16).toUpperCase()}) is ${w}, the Unicode database says ${tab[c]}`, { cp: c }, 1);
    const w3 = A.getDisplayWidth("a" + s + "b"); if (tab[c] === 2 && w3 !== tab[c] + 2 && !/[\u{1f3fb}-\u{1f3ff}]|\p{M}|[\uff9e\uff9f]|\p{Cf}/u.test(s)) ctx.violation(`aU+${c.toString(16)}b`, `getDisplayWidth(a U+${c.toString(16)} b) is ${w3}`, { cp: c }, 2);
  }
  if (ctx.shard === 0) for (const [s, w] of CLUSTERS) for (const [t, x] of [[s, w], [s + "x", w + 1], ["x " + s, w + 2]]) { ctx.exec(); ctx.outcome("cluster"); if (t !== s && /^[\u0300-\u036f\u200d\ufeff\ufe0e\u0301]/.test(s)) continue; const g = A.getDisplayWidth(t); if (g !== x) ctx.violation(`cluster ${t}`, `getDisplayWidth(${JSON.stringify(t)}) is ${g}, expected ${x}`, { cl: [t, x] }, 1); }
}
function templates(ctx, A) { // message() and valueSet()
  const parts = ["", "a", " b "], vals = ["str", T("t"), { type: "optionName", optionName: "-x" }, [], [T("m1"), { type: "value", value: "m2" }], { type: "values", values: ["1", "2"] }];
  const bad = (k, m) => ctx.violation(k, m, { tpl: k }, 3);
  const flat = (v) => typeof v === "string" ? [{ type: "value", value: v }] : Array.isArray(v) ? v : [v];
  for (const p0 of parts) for (const p1 of parts) for (const p2 of parts) for (const a of vals) for (const b of vals) {
    if (!ctx.next()) continue; ctx.exec(); ctx.outcome("template");
    const strings = Object.assign([p0, p1, p2], { raw: [p0, p1, p2] }), got = A.message(strings, a, b), want = [...(p0 ? [T(p0)] : []), ...flat(a), ...(p1 ? [T(p1)] : []), ...flat(b), ...(p2 ? [T(p2)] : [])];
    if (JSON.stringify(got) !== JSON.stringify(want)) bad(JSON.stringify([p0, a, p1, b, p2]), `message() gives ${JSON.stringify(got)}`);
  }
  const items = ["a", "b, c", "and", "", "한", "a"];
  for (let n = 0; n <= 4; n++) for (let i = 0; i < items.length ** n; i++) for (const o of ["none", { fallback: "f" }, { fallback: "", type: "disjunction", locale: "en" }, { fallback: "x", type: "unit", style: "narrow", locale: "ko" }, { fallback: "x", style: "short", locale: ["ja", "en"] }]) {
    if (!ctx.next()) continue; ctx.exec(); ctx.outcome("valueSet"); const vs = Array.from({ length: n }, (_, k) => items[Math.floor(i / items.length ** k) % items.length]);
    const got = A.valueSet(vs, o), fb = typeof o === "string" ? o : o.fallback; const list = got.filter((t) => t.type === "value").map((t) => t.value);
    if (JSON.stringify(list) !== JSON.stringify(vs)) bad(JSON.stringify([vs, o]), `valueSet(${JSON.stringify(vs)}) holds ${JSON.stringify(list)}`);
    const whole = got.map((t) => t.text ?? t.value).join(""), w = n ? new Intl.ListFormat(o.locale, { type: o.type, style: o.style }).format(vs) : fb; if (whole !== w) bad(JSON.stringify([vs, o]), `valueSet(${JSON.stringify(vs)}, ${JSON.stringify(o)}) reads ${JSON.stringify(whole)}, expected ${JSON.stringify(w)}`);
  }
}
export async function replay(ctx, d) { const A = { ...await ctx.load("core/src/message.js"), ...await ctx.load("core/src/displaywidth.js") }; if (d.t) one(ctx, A, d); else if (d.tpl) templates(ctx, A); else widths(ctx, A); }

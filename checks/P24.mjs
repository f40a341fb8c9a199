// P24: man pages rendered by mandoc and groff show every text verbatim.
import { spawnSync } from "node:child_process";
import * as G from "../lib/gen.mjs";
import { toParser, api } from "../lib/prog.mjs";
export const meta = {
  rule: "Every text of at most N characters over the characters that mean something to roff, put in every text position of a man page (message terms of every kind, term names, metavariables, literals, titles, metadata), is shown unchanged by mandoc and by groff: the rendered page, up to runs of white space, equals the concatenation of the page's texts in order. Every visible option, command and argument of every generated program appears; hidden ones do not.",
  assumptions: ["mandoc and groff are the roff processors", "typographic variants of quotes, hyphens and accents that the processor substitutes count as the ASCII character", "the number of blanks and the place of line breaks are not specified"],
  quickLimitS: 500, thoroughLimitS: 3200,
};
const T = (text) => ({ type: "text", text }), V = (value) => ({ type: "value", value }), O = (n) => ({ type: "optionName", optionName: n }), BR = { type: "lineBreak" };
const norm = (s) => s.replace(/\x1b\[[0-9;]*m/g, "").replace(/[’‘´]/g, (c) => c === "‘" ? "`" : "'").replace(/[‐‑−]/g, "-").replace(/ˆ/g, "^").replace(/[˜∼]/g, "~").replace(/[“”]/g, '"').replace(/\s+/g, " ").trim();
export const RENDER = {
  mandoc: (src) => spawnSync("mandoc", ["-man", "-Tutf8", "-O", "width=900"], { input: src, encoding: "utf8", maxBuffer: 1 << 28 }).stdout.replace(/.\x08/g, ""),
  groff: (src) => spawnSync("groff", ["-man", "-Tutf8", "-Kutf8", "-rLL=3000n", "-rHY=0", "-P-c", "-P-b", "-P-o", "-P-u"], { input: src, encoding: "utf8", maxBuffer: 1 << 28 }).stdout,
};
const body = (out) => { const ls = out.replace(/^\n+|\n+$/g, "").split("\n"); return [norm(ls[0]), norm(ls.slice(1, -1).join("\n")), norm(ls.at(-1))]; };
// ---- expected text
const q = (v) => `"${v}"`;
export const msgText = (m, quotes = true) => m.map((t) => t.type === "text" ? t.text : t.type === "optionName" ? t.optionName : t.type === "optionNames" ? t.optionNames.join(", ") : t.type === "metavar" ? t.metavar : t.type === "value" ? quotes ? q(t.value) : t.value : t.type === "values" ? t.values.map((v) => quotes ? q(v) : v).join(" ") : t.type === "envVar" ? t.envVar : t.type === "commandLine" ? t.commandLine : t.type === "url" ? t.url.href : "\n").join("");
const hid = (t, c) => t.hidden === true || t.hidden === "help" || t.hidden === c;
function docTerm(t, c = "doc") {
  if (hid(t, c)) return "";
  const seq = (ts) => ts.map((x) => docTerm(x, c)).filter(Boolean).join(" ");
  switch (t.type) {
    case "option": return t.names.join(", ") + (t.metavar ? " " + t.metavar : ""); case "command": return t.name; case "argument": return t.metavar; case "literal": return t.value; case "passthrough": return "[...]"; case "ellipsis": return "...";
    case "optional": { const s = seq(t.terms); return s && `[${s}]`; } case "multiple": { const s = seq(t.terms); return s && (t.min < 1 ? `[${s} ...]` : `${s} ...`); } case "sequence": return seq(t.terms);
    case "exclusive": { const a = t.terms.map(seq).filter(Boolean); return a.length < 2 ? a[0] ?? "" : `(${a.join(" | ")})`; }
  }
}
// the words of a synopsis, without the notation around them
const atoms = (ts) => ts.flatMap((t) => hid(t, "usage") ? [] : t.type === "exclusive" ? t.terms.flatMap(atoms) : t.terms ? atoms(t.terms) : t.type === "option" ? [...t.names, ...(t.metavar ? [t.metavar] : [])] : t.type === "command" ? [t.name] : t.type === "argument" ? [t.metavar] : t.type === "literal" ? [t.value] : []);
const bare = (s) => s.replace(/[\[\]()|.\s]+/g, " ").trim();
function section(s) {
  return s.entries.map((e) => { const t = docTerm(e.term); if (!t) return null; const parts = [t]; if (e.description) parts.push(msgText(e.description)); if (e.default) parts.push(`[${msgText(e.default)}]`); if (e.choices) parts.push(`(choices: ${msgText(e.choices, false)})`); return parts.join(" "); }).filter((x) => x !== null);
}
export function expected(page, o) { // [label, text] in order; the synopsis is compared by its words
  const b = [["name", `NAME ${o.name}` + (o.brief ?? page.brief ? ` - ${msgText(o.brief ?? page.brief)}` : "")]];
  if (page.usage) b.push(["synopsis", `SYNOPSIS ${o.name}`, atoms(page.usage).join(" ")]);
  const m = (k, t) => { const v = o[k] ?? page[k]; if (v) b.push([k, t + msgText(v)]); };
  m("description", "DESCRIPTION ");
  for (const s of page.sections) { const es = section(s); if (!es.length) continue; const kinds = new Set(s.entries.filter((e) => docTerm(e.term)).map((e) => e.term.type)); b.push(["title", s.title?.toUpperCase() ?? (kinds.size === 1 && kinds.has("command") ? "COMMANDS" : kinds.size === 1 && kinds.has("argument") ? "ARGUMENTS" : "OPTIONS")]); es.forEach((e, i) => b.push([`entry ${i}`, e])); }
  for (const [k, t] of [["environment", "ENVIRONMENT"], ["files", "FILES"], ["exitStatus", "EXIT STATUS"]]) if (o[k]) { const es = section(o[k]); if (es.length) { b.push(["title", t]); es.forEach((e, i) => b.push([`${k} ${i}`, e])); } }
  m("examples", "EXAMPLES "); m("bugs", "BUGS ");
  if (o.seeAlso?.length) b.push(["see also", "SEE ALSO " + o.seeAlso.map((r) => `${r.name}(${r.section})`).join(", ")]);
  m("author", "AUTHOR "); m("footer", "");
  return b;
}
export function compare(out, page, o) {
  let [head, text, foot] = body(out); if (o.manual !== "M%") { head = head.replaceAll("%", "1"); foot = foot.replaceAll("%", "1"); } const want = expected(page, o); let rest = text;
  const pct = (s) => norm(o.manual === "M%" ? s : s.replaceAll("%", "1")), N = pct(o.name.toUpperCase()); // groff shows the page number for a per cent sign in the header and footer: one known finding
  if (!head.startsWith(`${N}(${o.section})`) || o.manual && !head.includes(pct(o.manual))) return `the header reads ${JSON.stringify(head)}`;
  if (o.version && !foot.includes(pct(`${o.name} ${o.version}`))) return `the footer reads ${JSON.stringify(foot)}`;
  if (typeof o.date === "string" && o.date && !foot.includes(pct(o.date))) return `the footer reads ${JSON.stringify(foot)}`;
  for (let i = 0; i < want.length; i++) {
    const [label, exact, words] = want[i], e = norm(exact);
    if (!rest.startsWith(e)) return `${label}: expected ${JSON.stringify(e)}, the page reads ${JSON.stringify(rest.slice(0, e.length + 40))}`;
    rest = rest.slice(e.length).trimStart();
    if (words !== undefined) { const w = bare(norm(words)); let k = 0, j = 0; const skip = (c) => /[\[\]()|.\s]/.test(c); while (k < w.length) { if (skip(w[k])) { k++; continue; } while (j < rest.length && skip(rest[j])) j++; if (rest[j] !== w[k]) return `${label}: expected the words ${JSON.stringify(w)}, the page reads ${JSON.stringify(rest.slice(0, w.length + 60))}`; k++; j++; } while (j < rest.length && (skip(rest[j]))) j++; rest = rest.slice(j).trimStart(); }
  }
  return rest === "" ? null : `extra text ${JSON.stringify(rest.slice(0, 100))}`;
}
// ---- positions
const ENTRY = {
  text: (t) => ({ description: [T(t)] }), mid: (t) => ({ description: [T("Q "), T(t), T(" Z")] }), glued: (t) => ({ description: [T("Q"), T(t), T("Z")] }), value: (t) => ({ description: [V(t)] }), valmid: (t) => ({ description: [T("x "), V(t), T(" y")] }), values: (t) => ({ description: [{ type: "values", values: [t, "x", t] }] }), metavar: (t) => ({ description: [{ type: "metavar", metavar: t }] }), env: (t) => ({ description: [{ type: "envVar", envVar: t }] }), cl: (t) => ({ description: [{ type: "commandLine", commandLine: t }] }), opt: (t) => /\s/.test(t) ? null : ({ description: [O("--" + t), T(" "), { type: "optionNames", optionNames: ["-" + t, "/" + t] }] }),
  br: (t) => ({ description: [T("x"), BR, T(t)] }), brval: (t) => ({ description: [T("x"), BR, V(t)] }), brfirst: (t) => ({ description: [BR, T(t)] }), para: (t) => ({ description: [T("x\n\n"), T(t)] }), soft: (t) => ({ description: [T("x\n" + t)] }), afteropt: (t) => ({ description: [O("-a"), T(t)] }), beforeopt: (t) => ({ description: [T(t), O("-a")] }), split: (t) => ({ description: [T(t.slice(0, 1)), T(t.slice(1))] }), splitbr: (t) => ({ description: [T(t.slice(0, 1)), BR, V("v"), T(t.slice(1))] }),
  def: (t) => ({ default: [T(t)] }), defval: (t) => ({ description: [T("d")], default: [V(t)] }), defnl: (t) => ({ description: [T("d\n")], default: [T(t)] }), ch: (t) => ({ choices: [V(t), T(", "), V("b")] }), chdesc: (t) => ({ description: [T("d"), BR], choices: [V("a"), T(", "), V(t)] }), all: (t) => ({ description: [T(t)], default: [T(t)], choices: [V(t)] }),
  url: (t) => { try { return { description: [{ type: "url", url: new URL("http://h/" + t.replace(/\s/g, "") + "?" + t.replace(/\s/g, "")) }] }; } catch { return null; } },
};
const TERM = {
  name: (t) => /\s/.test(t) ? null : { type: "option", names: ["--" + t, "-" + t] }, slash: (t) => /\s/.test(t) ? null : { type: "option", names: ["/" + t], metavar: "M" }, mv: (t) => /[\n]|^ /.test(t) ? null : { type: "option", names: ["-x"], metavar: t }, arg: (t) => /[\n\r]|^\s/.test(t) ? null : { type: "argument", metavar: t }, lit: (t) => /[\n\r]|^\s/.test(t) ? null : { type: "literal", value: t }, cmd: (t) => /\s/.test(t) ? null : { type: "command", name: t }, opt: (t) => /[\n\r]|^\s/.test(t) ? null : { type: "optional", terms: [{ type: "argument", metavar: t }] }, mult: (t) => /[\n\r]|^\s/.test(t) ? null : { type: "multiple", terms: [{ type: "literal", value: t }, { type: "argument", metavar: t }], min: 1 }, seq: (t) => /\s/.test(t) ? null : { type: "exclusive", terms: [[{ type: "sequence", terms: [{ type: "literal", value: t }, { type: "command", name: t }] }], [{ type: "option", names: ["--" + t], metavar: t }]] },
};
const X = { type: "literal", value: "TERM" };
const mk = (kind, pos, t) => { if (kind === "entry") { const e = ENTRY[pos](t); return e && { term: X, ...e }; } const term = TERM[pos](t); return term && { term, description: [T("D")] }; };
function pageOf(d) { // {pos:[[kind,pos,text]…]} | {meta:text}
  if (d.pos) return { page: { sections: [{ title: "S", entries: d.pos.map(([k, p, t]) => mk(k, p, t)) }] }, o: { name: "app", section: 1 } };
  const t = d.meta, m = [T(t)], line = t.replace(/\s+/g, ""), ok = line || "x", terms = ["arg", "lit", "mv", "opt", "cmd", "name"].map((k) => TERM[k](t)).filter(Boolean);
  return { page: { brief: m, usage: terms, description: m, sections: [{ title: ("S" + t).replace(/[\x00-\x1f]/g, ""), entries: [{ term: X }] }], examples: m, bugs: m, author: m, footer: m }, o: { name: "a" + line + "b", section: 1 + t.length % 8, version: ok, manual: "M" + t, date: "D" + t, seeAlso: [{ name: ok, section: 3 }, { name: "z" + line, section: 7 }], environment: { entries: [{ term: X, description: m }] }, files: { entries: [{ term: X, description: [V(t)] }] }, exitStatus: { entries: [{ term: { type: "literal", value: line || "0" }, description: m }] } } };
}
export function judge(A, d) {
  const { page, o } = pageOf(d); const src = A.formatDocPageAsMan(page, o);
  for (const r of Object.keys(RENDER)) { const m = compare(RENDER[r](src), page, o); if (m) return `${r}: ${m}`; }
  return null;
}
const CH = [".", "'", "\\", '"', "-", "\n", " ", "n"], SPECIAL = ["\\fBx", "\\&x", ".SH X", "x\n.SH Y", "\\n(yr", "\\n[yr]", "\\*(lq", "\\*[x]", "\\\"c", ".\\\" c", "'\\\" c", "\\e", "\\(dq", "\\-", "%", "é", "漢字", "\\s+9x", "\\c", "\\{", "\\}", ".de X", "..", ".so /etc/passwd", "\n.ds", "a\\", "\\ x", "\\%", "-- -", "\\0", "\\u\\d", "`^~", "\\\n", "x\\\n.y", "\r\n.x", "\\zx", "{}", "$1", "\\$1", "@#", "\\[em]", "\\N'65'", "\\X'x'", "\\h'3'", "\\w'a'", ".B", "'B", "\n\n.B", "\n'B", " .B", "\t.B", "\\p", "\\!x", "\\?x\\?", "x\\ay", "x\\ty", "C:\\new\\table", "don't", "'tis", "...", "--", "\"q\" \"r\"", "|", "<a>&b", "\u00a0x", "“q”", "\\\\", "\\\\n", "\\[", "\\(", "[x]", "(x)"];
function* texts(n) { for (let len = 0; len <= n; len++) for (let i = 0; i < CH.length ** len; i++) yield Array.from({ length: len }, (_, k) => CH[Math.floor(i / CH.length ** k) % CH.length]).join(""); yield* SPECIAL; }
export async function run(ctx) {
  const A = { ...await ctx.load("man/src/man.js") }; let n = 0, bad = 0; const Q = ctx.quick, MAX = Q ? 3 : 5;
  ctx.bound("text length", MAX); ctx.bound("alphabet", CH.length); ctx.bound("positions", Object.keys(ENTRY).length + Object.keys(TERM).length + 16);
  const check = (d, label, size) => { ctx.begin(d); ctx.exec(2); const m = judge(A, d); if (!m) return; if (d.pos && d.pos.length > 1) { let found = 0; for (const p of d.pos) { const k = { pos: [p] }; const mm = judge(A, k); if (mm && ++found < 4) { bad++; ctx.violation(JSON.stringify(k), `man page, ${label}: ${mm}`, k, p[2].length * 10); } if (found >= 3) break; } if (found) return; } bad++; ctx.violation(JSON.stringify(d).slice(0, 3000), `man page, ${label}: ${m}`, d, size); };
  let batch = []; const flush = () => { if (batch.length) check({ pos: batch }, "entry texts", 1000); batch = []; };
  for (const [kind, tab] of [["entry", ENTRY], ["term", TERM]]) for (const pos of Object.keys(tab)) { for (const t of texts(MAX)) {
    if (pos === "url" && t.length > 3) continue; const e = mk(kind, pos, t); if (!e) continue; if (kind === "term" && !t.trim()) continue;
    if (!ctx.next()) continue; ctx.state(); ctx.transition(); ctx.outcome(kind + " " + pos); ctx.distinct(pos + t);
    batch.push([kind, pos, t]); if (batch.length >= 150) { flush(); if (++n % 5 === 0) ctx.checkTime(); if (bad > 60) return; }
  } flush(); }
  n = 0; for (const t of texts(Q ? 2 : 4)) { if (!ctx.next()) continue; ctx.state(); ctx.transition(); ctx.outcome("page texts"); ctx.distinct("m" + t); check({ meta: t }, "page texts", t.length); if (++n % 50 === 0) ctx.checkTime(); if (n === 1) ctx.sample(t); if (bad > 100) return; }
  await programs(ctx);
  if (ctx.next()) refused(ctx, A);
}
// ---- whole programs
async function programs(ctx) {
  const A = { ...await api(ctx), ...await ctx.load("man/src/generator.js") }; let n = 0;
  const I = (s) => A.message`${A.text(s)}`, mkp = {
    flat: (P) => P.object({ v: P.option("-v", "--verbose", { description: I("Be loud.") }), p: P.optional(P.option("-p", "--port", P.vp.integer({ metavar: "PORT" }), { description: I("Port.") })), f: P.argument(P.vp.string({ metavar: "FILE" }), { description: I(".File") }) }),
    cmds: (P) => P.or(P.command("add", P.object({ a: P.option("--aa") }), { description: I("Add it") }), P.command("rm", P.object({ r: P.argument(P.vp.string({ metavar: "WHAT" })) }), { description: I("'Remove'") })),
    hidden: (P) => P.object({ v: P.option("--seen"), h: P.option("--unseen", { hidden: true }), d: P.option("--undoc", { hidden: "doc" }), u: P.option("--unused", { hidden: "usage" }) }),
    group: (P) => P.merge(P.group("First", P.object({ a: P.option("-a", { description: I("A\\B") }) })), P.group("Sec.", P.object({ b: P.withDefault(P.option("-b", P.vp.integer()), 3) }))),
    choice: (P) => P.object({ c: P.withDefault(P.option("-c", P.vp.choice(["a", "b"], { metavar: "C" })), "a"), m: P.multiple(P.argument(P.vp.string({ metavar: "M" }))) }),
    pass: (P) => P.object({ a: P.option("-a"), rest: P.passThrough() }), none: (P) => P.object({}), cst: (P) => P.constant(1), deep: (P) => P.command("one", P.or(P.command("two", P.object({ z: P.option("--zz") })), P.command("three", P.object({})))),
  };
  const metas = [{}, { brief: I("Br.ief"), description: I("'Desc"), author: I("Me <m@x>"), bugs: I("None."), examples: I(".ex"), footer: I("\\Foot"), version: "1.0-b" }];
  for (const k of Object.keys(mkp)) for (const md of metas) for (const ov of metas) for (const form of ["parser", "program"]) for (const mode of ["sync", "async"]) {
    if (!ctx.next()) continue; const d = { prog: k, md: metas.indexOf(md), ov: metas.indexOf(ov), form, mode }; ctx.begin(d); ctx.state(); ctx.transition(); ctx.exec(2); ctx.outcome("programs"); ctx.distinct(JSON.stringify(d));
    let parser = mkp[k](A); if (mode === "async") { const p = parser; parser = { ...p, mode: "async", $mode: "async", parse: async (c) => p.parse(c), complete: async (s, x) => p.complete(s, x) }; }
    const extra = Object.fromEntries(Object.entries(ov).map(([kk, v]) => [kk, typeof v === "string" ? "2.0" : [T("over " + kk)]])), opts = { section: 1, ...(form === "parser" ? { name: "app" } : {}), ...extra };
    const subject = form === "parser" ? parser : { parser, metadata: { name: "app", ...md } };
    let src; try { src = await A.generateManPage(subject, opts); if (mode === "sync" && A.generateManPageSync(subject, opts) !== src || await A.generateManPageAsync(subject, opts) !== src) { ctx.violation(JSON.stringify(d), "the sync and async generators differ", d, 1); continue; } } catch (e) { ctx.violation(JSON.stringify(d), `generateManPage(${k}) threw ${e}`, d, 1); continue; }
    const page = A.getDocPageSync(mkp[k](A)) ?? { sections: [] }, o = { name: "app", section: 1, ...(form === "program" ? md : {}), ...extra };
    for (const r of Object.keys(RENDER)) { const m = compare(RENDER[r](src), page, o); if (m) { ctx.violation(JSON.stringify(d), `man page of ${k} (${form}, ${mode}), ${r}: ${m}`, d, 1); break; } }
    const plain = norm(RENDER.mandoc(src)), must = { flat: ["-v, --verbose", "-p, --port PORT", "FILE"], cmds: ["add Add it", "rm 'Remove'"], hidden: ["--seen", "[--undoc]", "--unused"], group: ["-a A\\B", "-b", "SEC.", "FIRST"], choice: ["-c C", "M"], pass: ["-a"], none: [], cst: [], deep: ["one"] }[k], not = { hidden: ["--unseen"] }[k] ?? [];
    for (const w of must) if (!plain.includes(w)) ctx.violation(JSON.stringify(d), `man page of ${k} does not show ${w}`, d, 2); for (const w of not) if (plain.includes(w)) ctx.violation(JSON.stringify(d), `man page of ${k} shows ${w}`, d, 2);
    if (++n % 20 === 0) ctx.checkTime();
  }
}
function refused(ctx, A) {
  const P = { sections: [] }, bad = [[() => A.formatDocPageAsMan(P, { name: "", section: 1 }), TypeError], ...[0, 9, 1.5, "1", NaN, undefined, "1\n.SH X"].flatMap((s) => [[() => A.formatDocPageAsMan(P, { name: "x", section: s }), RangeError], [() => A.formatDocPageAsMan(P, { name: "x", section: 1, seeAlso: [{ name: "y", section: s }] }), RangeError]]), [() => A.formatDateForMan(new Date(NaN)), RangeError]];
  for (const [f, E] of bad) { ctx.state(); ctx.transition(); ctx.exec(); let ok = false; try { f(); } catch (e) { ok = e instanceof E; } if (!ok) ctx.violation("refused" + f, `accepted: ${f}`, { refused: String(f) }, 1); }
  const M = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"];
  for (let i = 0; i < 12; i++) for (const y of [1999, 2024]) { ctx.exec(); const g = A.formatDateForMan(new Date(y, i, 28)); if (g !== `${M[i]} ${y}`) ctx.violation("date" + i, `date ${i} ${y}: ${g}`, { date: i }, 1); }
}
export async function replay(ctx, d) { const A = { ...await ctx.load("man/src/man.js") }; if (d.pos || d.meta !== undefined) { ctx.state(); ctx.transition(); ctx.exec(2); const m = judge(A, d); if (m) ctx.violation(JSON.stringify(d), `man page: ${m}`, d, 1); } else if (d.prog) await programs(ctx); else refused(ctx, A); }
